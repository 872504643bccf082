// C16: similarity metrics against brute-force definitions, sums of statistics in every order, text encodings,
// the two implementations against each other, reference files, and the minimum-risk choice from k-best lists.
#include "vc.h"
#include "ns.h"
#include "ns_docscorer.h"
#include "scorer.h"
#include "tdict.h"
#include <algorithm>
using namespace std;
typedef vector<string> S; typedef vector<S> R;
int fast_score_main(int, char**); int mbr_kbest_main(int, char**);
static string js(const S& s) { string o; for (auto& w : s) o += (o.empty() ? "" : " ") + w; return o; }
static string jr(const R& r) { string o; for (auto& s : r) o += (o.empty() ? "" : " ||| ") + js(s); return o; }
static vector<WordID> ids(const S& s) { vector<WordID> v; for (auto& w : s) v.push_back(TD::Convert(w)); return v; }
static vector<vector<WordID>> ids(const R& r) { vector<vector<WordID>> v; for (auto& s : r) v.push_back(ids(s)); return v; }
static void sents(const S& al, int n, R* o, int lo = 0) { R cur(1); for (int l = 0; l <= n; ++l) { if (l >= lo) o->insert(o->end(), cur.begin(), cur.end()); R nx; for (auto& s : cur) for (auto& a : al) { nx.push_back(s); nx.back().push_back(a); } cur.swap(nx); } }
// ---- definitions
static S chars(const S& s) { S o; for (size_t i = 0; i < s.size(); ++i) { if (i) o.push_back(" "); for (size_t p = 0; p < s[i].size();) { size_t q = p + 1; while (q < s[i].size() && ((unsigned char)s[i][q] & 0xC0) == 0x80) ++q; o.push_back(s[i].substr(p, q - p)); p = q; } } return o; }
enum Bt { IBM, NIST, KOEHN, QCRI };
struct Bleu { vector<double> c, h; double hl; vector<double> rl; };  // rl: the admissible reference lengths
static Bleu bleu(const S& h, const R& rs, int N, Bt t) {
  Bleu b; b.hl = h.size();
  for (int n = 1; n <= N; ++n) { map<S, int> hc, mx; for (size_t i = 0; i + n <= h.size(); ++i) hc[S(h.begin() + i, h.begin() + i + n)]++; for (auto& r : rs) { map<S, int> rc; for (size_t i = 0; i + n <= r.size(); ++i) rc[S(r.begin() + i, r.begin() + i + n)]++; for (auto& p : rc) mx[p.first] = max(mx[p.first], p.second); }
    double c = 0, tot = 0; for (auto& p : hc) { tot += p.second; auto f = mx.find(p.first); c += min(p.second, f == mx.end() ? 0 : f->second); } b.c.push_back(c); b.h.push_back(tot); }
  double sum = 0, mn = 1e9, bd = 1e9; for (auto& r : rs) { sum += r.size(); mn = min(mn, (double)r.size()); bd = min(bd, fabs((double)r.size() - b.hl)); }
  if (t == NIST) b.rl.push_back(mn); else if (t == KOEHN) b.rl.push_back(sum / rs.size()); else for (auto& r : rs) if (fabs((double)r.size() - b.hl) == bd) b.rl.push_back(r.size());
  return b;
}
static double bscore(const vector<double>& c, const vector<double>& h, double hl, double rl, Bt t, bool fixed) {
  const double al = t == QCRI ? 1 : 0.01; double lp = 0, la = 0; int n = 0; for (size_t i = 0; i < c.size(); ++i) if (h[i] > 0) { lp += log((c[i] ? c[i] : al) / h[i]); la += log(al / (h[i] + al)); ++n; }
  int d = fixed ? c.size() : n; if (d) { lp /= d; la /= d; } double bp = hl < rl ? (t == QCRI ? 1 - (rl + al) / hl : 1 - rl / hl) : 0; double s = exp(lp + bp); if (t == QCRI) s -= exp(la + bp); return s; }
static double sskk(const S& a, const S& b) { double tot = 0;  // sum over common subsequences of length 1..4 of 0.8^(spans)
  vector<pair<S, double>> pa, pb; for (int w = 0; w < 2; ++w) { const S& s = w ? b : a; for (unsigned m = 1; m < (1u << s.size()); ++m) { if (__builtin_popcount(m) > 4) continue; S x; int lo = __builtin_ctz(m), hi = 31 - __builtin_clz(m); for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1) x.push_back(s[i]); (w ? pb : pa).push_back({x, pow(0.8, hi - lo + 1)}); } }
  map<S, double> mb; for (auto& p : pb) mb[p.first] += p.second; for (auto& p : pa) { auto f = mb.find(p.first); if (f != mb.end()) tot += p.second * f->second; } return tot; }
static double ssk(const S& a, const S& b) { double k = sskk(a, b); return k ? k / sqrt(sskk(a, a) * sskk(b, b)) : 0; }
static vector<double> fields(const SufficientStats& s) { return vector<double>(s.fields.begin(), s.fields.end()); }
static bool same(double a, double b, double tol = 2e-5) { return vc::close(a, b, tol); }
static vector<double> nums(const string& t, bool skip) { istringstream i(t); string s; vector<double> v; if (skip) i >> s; double d; while (i >> d) v.push_back(d); return v; }
struct M { const char* id; int N; Bt t; bool ch; };
static const M BL[] = {{"IBM_BLEU", 4, IBM, false}, {"NIST_BLEU", 4, NIST, false}, {"KOEHN_BLEU", 4, KOEHN, false}, {"QCRI_BLEU", 4, QCRI, false}, {"CBLEU", 5, IBM, true}};
static EvaluationMetric* inst(const string& id) { static map<string, EvaluationMetric*> m; auto& p = m[id]; if (!p) p = EvaluationMetric::Instance(id); return p; }
static double stat(const SufficientStats& s, const string& id) { return inst(id)->ComputeScore(s); }
// ---- one reference set, every hypothesis, through the same evaluators
static void segment(vc::X& x, const R& rs, const R& hyps) {
  if (!x.take()) return; x.desc([=] { return "references: " + jr(rs) + "\n" + to_string(hyps.size()) + " hypotheses up to: " + js(hyps.back()); }); auto rid = ids(rs);
  R crs; for (auto& r : rs) crs.push_back(chars(r));
  vector<boost::shared_ptr<SegmentEvaluator>> ev; for (auto& m : BL) ev.push_back(inst(m.id)->CreateSegmentEvaluator(rid)); auto essk = inst("SSK")->CreateSegmentEvaluator(rid);
  const string comb = "COMB:IBM_BLEU=0.5;TER=-0.25;QCRI_BLEU=2;SSK=0.125"; auto ec = inst(comb)->CreateSegmentEvaluator(rid); auto eter = inst("TER")->CreateSegmentEvaluator(rid); auto ewer = inst("WER")->CreateSegmentEvaluator(rid);
  const ScoreType ot[] = {IBM_BLEU, NIST_BLEU, Koehn_BLEU, IBM_BLEU_3, CBLEU}; vector<ScorerP> old; for (auto t : ot) old.push_back(SentenceScorer::CreateSentenceScorer(t, rid));
  bool norefw = true; for (auto& r : rs) if (!r.empty()) norefw = false;
  ScorerP ocomb = SentenceScorer::CreateSentenceScorer(BLEU_minus_TER_over_2, rid), ocb = SentenceScorer::CreateSentenceScorer(BLEU_plus_CBLEU_over_2, rid), oter = SentenceScorer::CreateSentenceScorer(TER, rid), ower = SentenceScorer::CreateSentenceScorer(WER, rid), oser = SentenceScorer::CreateSentenceScorer(SER, rid);
  for (auto& h : hyps) { auto hid = ids(h); S ch = chars(h); auto why = [&](const string& w) { return "hypothesis '" + js(h) + "': " + w; }; x.step();
    SufficientStats s; vector<double> v; double bscores[5]; SufficientStats st[5];
    for (int i = 0; i < 5; ++i) { const M& m = BL[i]; Bleu b = bleu(m.ch ? ch : h, m.ch ? crs : rs, m.N, m.t); s = SufficientStats(); s.fields = {7, 7}; ev[i]->Evaluate(hid, &s); v = fields(s); st[i] = s; vector<double> want = b.c; want.insert(want.end(), b.h.begin(), b.h.end()); want.push_back(b.hl);
      if (!x.check(v.size() == want.size() + 1, string(m.id) + "-size", [&] { return why(vc::str(v)); })) continue; double rl = v.back(); v.pop_back();
      x.check(v == want, string(m.id) + "-stats", [&] { return why(string(m.id) + " statistics " + vc::str(v) + " instead of " + vc::str(want)); });
      bool ok = false; for (double r : b.rl) if (same(r, rl)) ok = true; x.check(ok, string(m.id) + "-length", [&] { return why(string(m.id) + " reference length " + to_string(rl) + " instead of " + vc::str(b.rl)); });
      double sc = inst(m.id)->ComputeScore(s), w = bscore(b.c, b.h, b.hl, rl, m.t, false); bscores[i] = sc; x.check(same(sc, w), string(m.id) + "-score", [&] { return why(string(m.id) + " score " + to_string(sc) + " instead of " + to_string(w)); }); x.state(vc::hdbl(sc) * 5 + i); if (sc > 0.3 && sc < 0.99) x.nontrivial();
      if (i == 0 && h.size() >= 4) { char buf[300]; sprintf(buf, "IBM_BLEU = %.2f, %.1f|%.1f|%.1f|%.1f (brev=%.3f)", sc * 100.0, 100.0 * (float)exp(logf(b.c[0] ? b.c[0] : .01) - logf(b.h[0])), 0., 0., 0., exp(b.hl < rl ? 1 - rl / b.hl : 0)); string d = inst(m.id)->DetailedScore(s); double a[6]; bool p = sscanf(d.c_str(), "IBM_BLEU = %lf, %lf|%lf|%lf|%lf (brev=%lf)", a, a + 1, a + 2, a + 3, a + 4, a + 5) == 6 && fabs(a[0] - 100 * sc) < 0.0051 && fabs(a[5] - exp(b.hl < rl ? 1 - rl / b.hl : 0)) < 0.00051; for (int k = 0; p && k < 4; ++k) p = fabs(a[k + 1] - 100 * (b.c[k] ? b.c[k] : .01) / b.h[k]) < 0.0511; x.check(p, "detail", [&] { return why("details say " + d + " for statistics " + vc::str(fields(s))); }); } }
    // the other implementation
    for (int i = 0; i < 5; ++i) { const int N = i == 3 ? 3 : i == 4 ? 5 : 4; Bt t = i == 1 ? NIST : i == 2 ? KOEHN : IBM; Bleu b = bleu(i == 4 ? ch : h, i == 4 ? crs : rs, N, t); ScoreP p = old[i]->ScoreCandidate(hid); string e; p->Encode(&e); v = nums(e, false); vector<double> c, hh; bool ok = (int)v.size() == 3 + 2 * N && v[0] == N; for (int k = 0; ok && k < N; ++k) { c.push_back(v[3 + 2 * k]); hh.push_back(v[4 + 2 * k]); }
      x.check(ok && c == b.c && hh == b.h && v[2] == b.hl, "old-stats-" + to_string(i), [&] { return why("second implementation has statistics " + e + " instead of matches " + vc::str(b.c) + " of " + vc::str(b.h)); }); if (!ok) continue; bool okl = false; for (double r : b.rl) if (same(r, v[1])) okl = true; x.check(okl, "old-length-" + to_string(i), [&] { return why("second implementation has reference length " + to_string(v[1]) + " instead of " + vc::str(b.rl)); });
      double sc = p->ComputeScore(), w = bscore(b.c, b.h, b.hl, v[1], IBM, true); x.check(same(sc, w), "old-score-" + to_string(i), [&] { return why("second implementation scores " + to_string(sc) + " instead of " + to_string(w)); });
      if (i != 3 && b.h.back() > 0) { double n = bscores[i == 4 ? 4 : i]; x.check(same(sc, n), "agree-" + to_string(i), [&] { return why("the implementations score " + to_string(sc) + " and " + to_string(n)); }); }
      ScoreP q = SentenceScorer::CreateScoreFromString(ot[i], e); string e2; q->Encode(&e2); x.check(e2 == e && q->ComputeScore() == sc, "old-encode", [&] { return why("encoded " + e + " decoded and encoded " + e2); }); }
    // string kernel
    SufficientStats sk; essk->Evaluate(hid, &sk); double best = 0; for (auto& r : rs) best = max(best, ssk(h, r)); v = fields(sk); x.check(v.size() == 2 && same(v[0], best, 1e-4) && v[1] == 1 && same(stat(sk, "SSK"), best, 1e-4), "ssk", [&] { return why("string kernel " + vc::str(v) + " instead of " + to_string(best)); });
    // sentence error rate (the share of exact matches), combinations, agreement of the error rates
    bool m = false; for (auto& r : rs) m |= r == h; x.check(same(oser->ScoreCandidate(hid)->ComputeScore(), m), "ser", [&] { return why("exact match share " + to_string(oser->ScoreCandidate(hid)->ComputeScore())); });
    SufficientStats sc, t, wv; eter->Evaluate(hid, &t); ec->Evaluate(hid, &sc); ewer->Evaluate(hid, &wv);
    vector<double> cw = fields(st[0]); for (auto* f : {&t, &st[3], &sk}) for (double d : f->fields) cw.push_back(d); x.check(fields(sc) == cw, "comb-stats", [&] { return why("combination statistics " + vc::str(fields(sc)) + " instead of " + vc::str(cw)); });
    ScoreP tp = oter->ScoreCandidate(hid); string te; tp->Encode(&te); x.check(nums(te, false) == fields(t), "ter-agree", [&] { return why("TER statistics " + te + " and " + vc::str(fields(t))); });
    if (rs.size() == 1) { ScoreP wp = ower->ScoreCandidate(hid); string we; wp->Encode(&we); x.check(nums(we, false) == fields(wv), "wer-agree", [&] { return why("WER statistics " + we + " and " + vc::str(fields(wv))); }); if (!norefw) x.check(same(wp->ComputeScore(), stat(wv, "WER")), "wer-agree", "WER scores differ"); }
    if (t.fields.size() > 4 && t.fields[4] > 0) { double cs = 0.5 * bscores[0] - 0.25 * stat(t, "TER") + 2 * bscores[3] + 0.125 * stat(sk, "SSK"); x.check(same(stat(sc, comb), cs), "comb-score", [&] { return why("combination scores " + to_string(stat(sc, comb)) + " instead of " + to_string(cs)); }); x.check(same(tp->ComputeScore(), stat(t, "TER")), "ter-agree", "TER scores differ");
      if (h.size() >= 4) { double w = (bscores[0] - stat(t, "TER")) / 2; ScoreP p = ocomb->ScoreCandidate(hid); string e; p->Encode(&e); x.check(same(p->ComputeScore(), w) && SentenceScorer::CreateScoreFromString(BLEU_minus_TER_over_2, e)->ComputeScore() == p->ComputeScore(), "combi", [&] { return why("combined score " + to_string(p->ComputeScore()) + " instead of " + to_string(w)); }); } }
    if (h.size() >= 4) { double w = (bscores[0] + bscores[4]) / 2; ScoreP p = ocb->ScoreCandidate(hid); string e; p->Encode(&e); x.check(same(p->ComputeScore(), w) && SentenceScorer::CreateScoreFromString(BLEU_plus_CBLEU_over_2, e)->ComputeScore() == p->ComputeScore(), "combi-c", [&] { return why("combined score " + to_string(p->ComputeScore()) + " instead of " + to_string(w)); }); }
    for (auto* f : {&st[0], &st[2], &st[4], &sk, &sc}) { string e, e2; f->Encode(&e); SufficientStats d(e); d.Encode(&e2); x.check(d == *f && d.id_ == f->id_ && e2 == e, "encode", [&] { return why("encoded as " + e + ", decoded and encoded as " + e2); }); }
  }
}
// ---- corpora: sums of statistics in every order and grouping
static bool l_zero(const SufficientStats& s) { return (s - s).IsAdditiveIdentity(); }
struct Item { S h; R r; };
static void corpora(vc::X& x, const vector<Item>& pool, int len) {
  const char* NM[] = {"IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "CBLEU", "SSK", "TER", "WER", "CER", "COMB:IBM_BLEU=0.5;CER=-0.5;CBLEU=1"}; const int nn = 10; const ScoreType OT[] = {IBM_BLEU, NIST_BLEU, Koehn_BLEU, IBM_BLEU_3, CBLEU, TER, WER, SER, BLEU_minus_TER_over_2, BLEU_plus_CBLEU_over_2};
  vector<int> ix(len, 0);
  for (;;) { if (x.take()) { x.desc([=] { string o = "corpus:\n"; for (int i : ix) o += js(pool[i].h) + " <- " + jr(pool[i].r) + "\n"; return o; }); x.nontrivial();
      for (int m = 0; m < nn; ++m) { vector<SufficientStats> st(len); for (int i = 0; i < len; ++i) inst(NM[m])->CreateSegmentEvaluator(ids(pool[ix[i]].r))->Evaluate(ids(pool[ix[i]].h), &st[i]); vector<double> sum(st[0].fields.size()); for (auto& s : st) for (size_t k = 0; k < s.fields.size(); ++k) sum[k] += s.fields[k];
        vector<int> p(len); for (int i = 0; i < len; ++i) p[i] = i; double sc0 = 0; bool first = true;
        do { SufficientStats l; for (int i : p) l += st[i]; SufficientStats r; for (int i = len - 1; i >= 0; --i) r = st[p[i]] + r; SufficientStats sub = l - st[p[0]]; sub += st[p[0]];
          for (auto* q : {&l, &r, &sub}) { x.step(); bool ok = q->fields.size() == sum.size(); for (size_t k = 0; ok && k < sum.size(); ++k) ok = same(q->fields[k], sum[k], 1e-6); x.check(ok && q->id_ == st[0].id_, string("sum-") + to_string(m), [&] { return string(NM[m]) + " summed to " + vc::str(fields(*q)) + " instead of " + vc::str(sum); }); double sc = inst(NM[m])->ComputeScore(*q); if (first) sc0 = sc, first = false; x.check(same(sc, sc0, 1e-5), string("order-") + to_string(m), [&] { return string(NM[m]) + " scores " + to_string(sc) + " or " + to_string(sc0) + " by order"; }); }
          string e; l.Encode(&e); SufficientStats d(e); x.check(d == l && (inst(NM[m])->ComputeScore(d) == inst(NM[m])->ComputeScore(l) || std::isnan(sc0)), "encode", [&] { return "sum encoded as " + e; });
        } while (next_permutation(p.begin(), p.end()));
        x.check((l_zero(st[0])), "identity", "a statistic minus itself is not the identity"); SufficientStats dbl = st[0]; dbl *= 4; dbl /= 2; x.check(dbl == st[0] + st[0], "scale", "scaling a statistic"); x.state(vc::hdbl(sc0));
        if (m < 4) { vector<double> c(sum.begin(), sum.begin() + 4), h(sum.begin() + 4, sum.begin() + 8); double w = bscore(c, h, sum[8], sum[9], BL[m].t, false); x.check(same(sc0, w), "corpus-score", [&] { return string(NM[m]) + " corpus score " + to_string(sc0) + " instead of " + to_string(w); }); } }
      for (int m = 0; m < 10; ++m) { vector<ScoreP> st; for (int i = 0; i < len; ++i) st.push_back(SentenceScorer::CreateSentenceScorer(OT[m], ids(pool[ix[i]].r))->ScoreCandidate(ids(pool[ix[i]].h))); vector<int> p(len); for (int i = 0; i < len; ++i) p[i] = i; double sc0 = 0; string e0; bool enc = OT[m] != SER;
        do { x.step(); ScoreP z = st[0]->GetZero(); x.check(z->IsAdditiveIdentity(), "old-zero", "the zero score is not the identity"); for (int i : p) z->PlusEquals(*st[i]); string e; if (enc) z->Encode(&e); double sc = z->ComputeScore(); if (p[0] == 0 && is_sorted(p.begin(), p.end())) sc0 = sc, e0 = e;
          x.check(same(sc, sc0, 1e-5), "old-order-" + to_string(m), [&] { return "score " + to_string(sc) + " or " + to_string(sc0) + " by order"; }); ScoreP c = z->Clone(); c->PlusEquals(*st[p[0]], 1); ScoreP d = z->GetZero(); c->Subtract(*st[p[0]], d.get()); x.check(same(d->ComputeScore(), sc, 1e-5), "old-scaled-" + to_string(m), [&] { return "adding with factor one and subtracting: " + to_string(d->ComputeScore()) + " instead of " + to_string(sc); }); c->PlusEquals(*st[p[0]], -1); x.check(same(c->ComputeScore(), sc, 1e-5), "old-scaled-" + to_string(m), "adding with factor minus one"); x.check(same(z->ComputeScore(), sc, 0), "old-clone", "a clone shares its values");
          if (enc && m < 8) { ScoreP q = SentenceScorer::CreateScoreFromString(OT[m], e); x.check(same(q->ComputeScore(), sc, 0), "old-encode", [&] { return "encoded as " + e + ": " + to_string(q->ComputeScore()) + " instead of " + to_string(sc); }); }
        } while (next_permutation(p.begin(), p.end())); }
    }
    int k = len - 1; while (k >= 0 && ix[k] == (int)pool.size() - 1) ix[k--] = 0; if (k < 0) break; ++ix[k]; }
}
// numbers of every magnitude survive the encoding
static void magnitudes(vc::X& x) {
  for (int e = 0; e < 24; ++e) for (int d = -1; d <= 1; ++d) { if (!x.take()) continue; float v = ldexpf(1, e) + d; x.desc([=] { return "statistics around " + to_string(v); }); if (v < 0) continue; if (e > 18) x.nontrivial();
    for (float f : {v, v / 3, v + .5f, v / 7}) { SufficientStats s("IBM_BLEU", vector<float>(10, f)); s.fields[3] = 1; string t; s.Encode(&t); SufficientStats r(t); x.step(); x.check(r == s, "magnitude", [&] { return "encoded as " + t; });
      if (f >= 4) { ostringstream o; o.precision(9); o << "4 " << f << ' ' << v; for (int i = 0; i < 8; ++i) o << ' ' << v; ScoreP p = SentenceScorer::CreateScoreFromString(IBM_BLEU, o.str()); string t2; p->Encode(&t2); x.check(nums(t2, false) == nums(o.str(), false), "old-magnitude", [&] { return o.str() + " read and encoded as " + t2; });
        vector<WordID> w = ids(S{"a", "b", "a", "b", "c"}); ScoreP c = SentenceScorer::CreateSentenceScorer(BLEU_minus_TER_over_2, {w})->ScoreCandidate(w), big = c->GetZero(); for (int i = 0; i < e && i < 22; ++i) { c->PlusEquals(*c->Clone()); } string ce; c->Encode(&ce); ScoreP cd = SentenceScorer::CreateScoreFromString(BLEU_minus_TER_over_2, ce); string ce2; cd->Encode(&ce2); x.check(ce2 == ce && cd->ComputeScore() == c->ComputeScore(), "combi-magnitude", [&] { return "encoded combination " + ce; }); } } }
}
// alignment error rate
static void aer(vc::X& x) { const char* L[] = {"0-0", "0-1", "1-0", "1-1", "2-1"}; for (int r = 1; r < 32; ++r) for (int h = 0; h < 32; ++h) { if (!x.take()) continue; S rs, hs; for (int i = 0; i < 5; ++i) { if (r >> i & 1) rs.push_back(L[i]); if (h >> i & 1) hs.push_back(L[i]); } x.desc([=] { return "links " + js(hs) + " against " + js(rs); }); double m = __builtin_popcount(r & h), p = hs.size(), q = rs.size(); if (m) x.nontrivial();
    ScoreP s = SentenceScorer::CreateSentenceScorer(AER, R{rs}.empty() ? vector<vector<WordID>>() : ids(R{rs}))->ScoreCandidate(ids(hs)); double w = 1 - 2 * m / (p + q); x.step(); x.check(same(s->ComputeScore(), w), "aer", [&] { return "rate " + to_string(s->ComputeScore()) + " instead of " + to_string(w); }); string e; s->Encode(&e); x.check(SentenceScorer::CreateScoreFromString(AER, e)->ComputeScore() == s->ComputeScore(), "aer-encode", "decoded rate differs"); ScoreP t = s->Clone(); t->PlusEquals(*s); x.check(same(t->ComputeScore(), w), "aer-sum", "twice the same corpus"); } }
#include "c16_files.inc"
void vc_run(vc::X& x) {
  const bool th = x.thorough; const S A = {"a", "bb", "\xc3\xa7"}; R h3, h2, r1, r2, r3; sents(A, th ? 6 : 5, &h3); sents({"a", "bb"}, th ? 7 : 6, &h2); sents(A, th ? 5 : 4, &r1); sents({"a", "bb"}, 3, &r2); sents({"a", "bb"}, 2, &r3, 1);
  { R hz = h3; for (auto s : {S{"a", "bb", "a", "bb", "a", "bb", "\xc3\xa7"}, S{"a", "a", "a", "a", "a", "a", "a", "a"}, S{"xyzzy", "a", "bb", "\xc3\xa7", "a"}}) hz.push_back(s); for (auto& r : r1) segment(x, {r}, hz); }
  for (auto& r : R{{"a", "bb", "a", "bb", "a", "bb"}, {"a", "a", "bb", "a", "a", "bb", "\xc3\xa7"}, {"a", "a", "a", "a", "a", "a", "a"}}) segment(x, {r}, h3);
  for (auto& a : r2) for (auto& b : r2) segment(x, {a, b}, h2);
  for (auto& a : r3) for (auto& b : r3) for (auto& c : r3) segment(x, {a, b, c}, h2);
  vector<Item> pool = {{{"a", "bb", "\xc3\xa7", "a", "bb"}, {{"a", "bb", "a", "bb"}, {"bb", "\xc3\xa7", "a", "bb", "a", "a"}}}, {{}, {{"a"}}}, {{"a"}, {{"bb", "a"}, {"a", "\xc3\xa7", "a"}, {"a"}}}, {{"a", "a", "bb", "a", "a", "bb"}, {{"a", "bb", "a", "a"}}}, {{"bb", "bb"}, {{"a", "a", "a"}}}, {{"\xc3\xa7", "a", "bb", "a"}, {{"\xc3\xa7", "a", "bb", "a"}, {"a"}, {"bb", "a"}}}};
  for (int l = 1; l <= (th ? 4 : 3); ++l) corpora(x, pool, l);
  magnitudes(x); aer(x); files(x, th); mbr(x, th);
}
VC_MAIN(vc_run)
