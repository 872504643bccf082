// C17: word, character and translation error rates against exhaustively computed edit scripts (with all block moves).
#include "vc.h"
#include "ns.h"
#include "scorer.h"
#include "tdict.h"
#include "levenshtein.h"
#include <algorithm>
using namespace std;
typedef vector<string> S; typedef vector<S> R;
static string js(const S& s) { string o; for (auto& w : s) o += (o.empty() ? "" : " ") + w; return o; }
static string jr(const R& r) { string o; for (size_t i = 0; i < r.size(); ++i) o += (i ? " ||| " : "") + js(r[i]); return o; }
static vector<WordID> ids(const S& s) { vector<WordID> v; for (auto& w : s) v.push_back(TD::Convert(w)); return v; }
static vector<vector<WordID>> ids(const R& r) { vector<vector<WordID>> v; for (auto& s : r) v.push_back(ids(s)); return v; }
static void sents(const S& al, int n, R* o) { R cur(1); for (int l = 0; l <= n; ++l) { o->insert(o->end(), cur.begin(), cur.end()); R nx; for (auto& s : cur) for (auto& a : al) { nx.push_back(s); nx.back().push_back(a); } cur.swap(nx); } }
static S chars(const S& s) { S o; for (size_t i = 0; i < s.size(); ++i) { if (i) o.push_back(" "); for (size_t p = 0; p < s[i].size();) { size_t q = p + 1; while (q < s[i].size() && ((unsigned char)s[i][q] & 0xC0) == 0x80) ++q; o.push_back(s[i].substr(p, q - p)); p = q; } } return o; }
template <class V> static int lev(const V& a, const V& b) { vector<int> d(b.size() + 1); for (size_t j = 0; j <= b.size(); ++j) d[j] = j; for (size_t i = 1; i <= a.size(); ++i) { int diag = d[0]; d[0] = i; for (size_t j = 1; j <= b.size(); ++j) { int t = d[j]; d[j] = min(min(d[j], d[j - 1]) + 1, diag + (a[i - 1] != b[j - 1])); diag = t; } } return d[b.size()]; }
// is there an edit script from a to b with exactly these counts of substitutions, words only in a, words only in b?
static bool script(const S& a, const S& b, int subs, int ina, int inb) {
  set<vector<int>> cur; map<pair<int, int>, set<vector<int>>> m; m[{0, 0}].insert({0, 0, 0});
  for (int i = 0; i <= (int)a.size(); ++i) for (int j = 0; j <= (int)b.size(); ++j) for (auto& v : set<vector<int>>(m[{i, j}])) { if (v[0] > subs || v[1] > ina || v[2] > inb) continue; if (i < (int)a.size()) m[{i + 1, j}].insert({v[0], v[1] + 1, v[2]}); if (j < (int)b.size()) m[{i, j + 1}].insert({v[0], v[1], v[2] + 1}); if (i < (int)a.size() && j < (int)b.size()) m[{i + 1, j + 1}].insert({v[0] + (a[i] != b[j]), v[1], v[2]}); }
  return m[{(int)a.size(), (int)b.size()}].count({subs, ina, inb}); }
// every arrangement of h with the least number of block moves that reaches it
static map<S, int> moves(const S& h) { map<S, int> d; vector<S> q(1, h); d[h] = 0; for (size_t k = 0; k < q.size(); ++k) { S s = q[k]; int c = d[s]; const int n = s.size(); for (int i = 0; i < n; ++i) for (int j = i + 1; j <= n; ++j) { S rest(s.begin(), s.begin() + i); rest.insert(rest.end(), s.begin() + j, s.end()); for (int p = 0; p <= (int)rest.size(); ++p) { S t = rest; t.insert(t.begin() + p, s.begin() + i, s.begin() + j); if (!d.count(t)) { d[t] = c + 1; q.push_back(t); } } } } return d; }
static EvaluationMetric* inst(const string& id) { static map<string, EvaluationMetric*> m; auto& p = m[id]; if (!p) p = EvaluationMetric::Instance(id); return p; }
static vector<int> nums(const string& t) { istringstream i(t); vector<int> v; double d; while (i >> d) v.push_back(lround(d)); return v; }
static vector<int> fields(const SufficientStats& s) { vector<int> v; for (float f : s.fields) v.push_back(lround(f)); return v; }
struct H { S h; map<S, int> mv; };
struct Opt { int best; };
// what translation error rate reports, both implementations
static vector<int> ter(vc::X& x, SegmentEvaluator* e, SentenceScorer* o, const S& h, const string& who) {
  SufficientStats s; s.fields = {9, 9, 9, 9, 9}; e->Evaluate(ids(h), &s); vector<int> v = fields(s); ScoreP p = o->ScoreCandidate(ids(h)); string t; p->Encode(&t); x.step(2); x.check(nums(t) == v, "ter-agree", [&] { return who + "implementations report " + vc::str(v) + " and " + t; });
  if (v.size() == 5 && v[4] > 0) { double w = double(v[0] + v[1] + v[2] + v[3]) / v[4]; x.check(vc::close(inst("TER")->ComputeScore(s), w, 1e-6) && vc::close(p->ComputeScore(), w, 1e-6), "ter-score", [&] { return who + "rate " + to_string(inst("TER")->ComputeScore(s)) + " from " + vc::str(v); }); double a[6]; string d = inst("TER")->DetailedScore(s); bool ok = sscanf(d.c_str(), "TER = %lf, %lf|%lf|%lf|%lf (len=%lf)", a, a + 1, a + 2, a + 3, a + 4, a + 5) == 6 && fabs(a[0] - 100 * w) < 0.0051; for (int i = 0; ok && i < 5; ++i) ok = a[i + 1] == v[i]; x.check(ok, "ter-detail", [&] { return who + "details " + d + " of " + vc::str(v); }); }
  return v; }
static void one(vc::X& x, const S& ref, const vector<H>& hyps) {
  if (!x.take()) return; x.desc([=] { return "reference: " + js(ref); }); auto rid = ids(R{ref}); auto e = inst("TER")->CreateSegmentEvaluator(rid); auto o = SentenceScorer::CreateSentenceScorer(TER, rid);
  auto we = inst("WER")->CreateSegmentEvaluator(rid), ce = inst("CER")->CreateSegmentEvaluator(rid); auto wo = SentenceScorer::CreateSentenceScorer(WER, rid); S rc = chars(ref);
  for (auto& hh : hyps) { const S& h = hh.h; string who = "hypothesis '" + js(h) + "': "; int l = lev(h, ref);
    { SufficientStats s; s.fields = {3, 3}; we->Evaluate(ids(h), &s); vector<int> v = fields(s), w = {l, (int)ref.size()}; x.check(v == w, "wer", [&] { return who + "WER statistics " + vc::str(v) + " instead of " + vc::str(w); }); if (!ref.empty()) x.check(vc::close(inst("WER")->ComputeScore(s), double(l) / ref.size(), 1e-6), "wer-score", who + "rate"); string t; ScoreP p = wo->ScoreCandidate(ids(h)); p->Encode(&t); x.check(nums(t) == w, "wer-old", [&] { return who + "second implementation: " + t; }); if (!ref.empty()) x.check(vc::close(p->ComputeScore(), double(l) / ref.size(), 1e-6), "wer-score", who + "rate"); }
    { S hc = chars(h); int c = lev(hc, rc); SufficientStats s; s.fields = {3, 3}; ce->Evaluate(ids(h), &s); vector<int> v = fields(s), w = {c, (int)rc.size()}; x.check(v == w, "cer", [&] { return who + "CER statistics " + vc::str(v) + " instead of " + vc::str(w); }); if (!rc.empty()) x.check(vc::close(inst("CER")->ComputeScore(s), double(c) / rc.size(), 1e-6), "cer-score", who + "rate"); }
    x.check(cdec::LevenshteinDistance(h, ref) == (unsigned)l, "levenshtein", [&] { return who + "distance " + to_string(cdec::LevenshteinDistance(h, ref)) + " instead of " + to_string(l); });
    vector<int> v = ter(x, e.get(), o.get(), h, who); if (!x.check(v.size() == 5, "ter-size", who + "number of statistics")) continue; int ins = v[0], del = v[1], sub = v[2], sh = v[3], tot = ins + del + sub + sh; x.state(((ins * 16 + del) * 16 + sub) * 16 + sh); if (sh) x.nontrivial();
    auto say = [&](const string& w) { return who + vc::str(v) + " (insertions, deletions, substitutions, shifts, words): " + w; };
    x.check(v[4] == (int)ref.size(), "ter-words", [&] { return say("reference words"); }); x.check(tot <= l, "ter-plain", [&] { return say("without moves " + to_string(l)); }); x.check((tot == 0) == (h == ref), "ter-zero", [&] { return say("zero exactly for identical strings"); });
    int best = 1 << 20; bool real = false; for (auto& m : hh.mv) { int d = lev(m.first, ref); best = min(best, m.second + d); if (!real && m.second <= sh && d <= ins + del + sub && script(m.first, ref, sub, ins, del)) real = true; }
    x.check(ins >= 0 && del >= 0 && sub >= 0 && sh >= 0 && real, "ter-script", [&] { return say("no such edit script"); }); x.check(tot >= best, "ter-minimum", [&] { return say("fewer than the possible " + to_string(best)); });
    auto f = hh.mv.find(ref); if (f != hh.mv.end() && f->second == 1 && set<string>(ref.begin(), ref.end()).size() == ref.size()) x.check(tot == 1, "ter-one-move", [&] { return say("one block move gives the reference"); }); if (tot > best) x.stat("above optimum"); x.stat("pairs"); }
}
static void many(vc::X& x, const R& rs, const R& hyps) {
  if (!x.take()) return; x.desc([=] { return "references: " + jr(rs); }); x.nontrivial(); auto rid = ids(rs); auto e = inst("TER")->CreateSegmentEvaluator(rid), we = inst("WER")->CreateSegmentEvaluator(rid), ce = inst("CER")->CreateSegmentEvaluator(rid); auto o = SentenceScorer::CreateSentenceScorer(TER, rid), wo = SentenceScorer::CreateSentenceScorer(WER, rid); int avg = 0; for (auto& r : rs) avg += r.size(); avg /= rs.size();
  for (auto& h : hyps) { string who = "hypothesis '" + js(h) + "': "; vector<vector<int>> cand; int best = 1 << 20; for (auto& r : rs) { SufficientStats s; inst("TER")->CreateSegmentEvaluator(ids(R{r}))->Evaluate(ids(h), &s); cand.push_back(fields(s)); auto& c = cand.back(); c[4] = avg; best = min(best, c[0] + c[1] + c[2] + c[3]); }
    vector<int> v = ter(x, e.get(), o.get(), h, who); bool ok = false; for (auto& c : cand) if (c == v && c[0] + c[1] + c[2] + c[3] == best) ok = true; x.check(ok, "ter-best", [&] { return who + vc::str(v) + " is not the best reference's"; });
    for (int k = 0; k < 2; ++k) { int b = 1 << 20; set<int> len; S hc = k ? chars(h) : h; for (auto& r : rs) { int d = lev(hc, k ? chars(r) : r); if (d < b) { b = d; len.clear(); } if (d == b) len.insert(k ? chars(r).size() : r.size()); } SufficientStats s; s.fields = {3, 3}; (k ? ce : we)->Evaluate(ids(h), &s); vector<int> u = fields(s); x.check(u.size() == 2 && u[0] == b && len.count(u[1]), k ? "cer-best" : "wer-best", [&] { return who + string(k ? "CER " : "WER ") + vc::str(u) + " instead of " + to_string(b) + " edits"; }); }
    // the other implementation takes the reference with the lowest rate
    double br = 1e18; bool em = false; for (auto& r : rs) if (r.empty()) em = true; else br = min(br, lev(h, r) / (double)r.size()); if (!em) { ScoreP p = wo->ScoreCandidate(ids(h)); string t; p->Encode(&t); vector<int> u = nums(t); bool k = false; for (auto& r : rs) if (u.size() == 2 && u[0] == lev(h, r) && u[1] == (int)r.size()) k = true; x.check(k && vc::close(p->ComputeScore(), br, 1e-6), "wer-old-best", [&] { return who + "second implementation: " + t + ", lowest rate " + to_string(br); }); } }
}
// one block of a sentence of distinct words moved
static void block(vc::X& x, int n, int i, int len, int p, bool long_) {
  if (!x.take()) return; x.desc([=] { return "words 0.." + to_string(n - 1) + ", block of " + to_string(len) + " at " + to_string(i) + " moved to " + to_string(p); }); x.nontrivial(); S r, h; for (int k = 0; k < n; ++k) r.push_back("w" + to_string(k)); S rest(r.begin(), r.begin() + i); rest.insert(rest.end(), r.begin() + i + len, r.end()); rest.insert(rest.begin() + p, r.begin() + i, r.begin() + i + len); h = rest;
  auto rid = ids(R{r}); auto e = inst("TER")->CreateSegmentEvaluator(rid); auto o = SentenceScorer::CreateSentenceScorer(TER, rid); vector<int> v = ter(x, e.get(), o.get(), h, ""); int tot = v[0] + v[1] + v[2] + v[3], l = lev(h, r); x.check(tot <= l && (tot == 0) == (h == r), "block-bounds", [&] { return "reported " + vc::str(v) + ", without moves " + to_string(l); }); x.check(v[0] - v[1] == 0, "block-balance", [&] { return "reported " + vc::str(v); });
  int a = len, b = abs(p - i), small = min(a, b), big = max(a, b); if (h != r && small <= 10 && big + small < 50) x.check(tot == 1, "block-one", [&] { return "reported " + vc::str(v) + " for a single block move"; }); x.state(tot);
}
void vc_run(vc::X& x) {
  const bool th = x.thorough; const S A = {"a", "bb", "\xc3\xa7"}; R h3, r3; sents(A, th ? 6 : 5, &h3); sents(A, th ? 6 : 5, &r3); vector<H> hs; for (auto& h : h3) hs.push_back({h, moves(h)});
  for (auto& s : R{{"a", "bb", "c", "d", "e", "f"}, {"f", "e", "d", "c", "bb", "a"}, {"d", "e", "f", "a", "bb", "c"}, {"bb", "a", "d", "c", "f", "e"}, {"a", "a", "a", "bb", "bb", "bb"}, {"c", "d", "a", "bb", "c", "d"}, {"xyz", "a", "d\xc3\xa7", "bb"}}) { hs.push_back({s, moves(s)}); }
  for (auto& r : r3) one(x, r, hs);
  for (auto& s : R{{"a", "bb", "c", "d", "e", "f"}, {"c", "d", "a", "bb", "e", "f"}, {"a", "bb", "c", "a", "bb", "c"}, {"e", "c", "a", "f", "d", "bb"}, {"bb", "bb", "bb", "a", "a", "a"}}) one(x, s, hs);
  if (th) { R p6; S s = {"a", "bb", "c", "d", "e", "f"}; sort(s.begin(), s.end()); vector<H> ph; do ph.push_back({s, moves(s)}); while (next_permutation(s.begin(), s.end())); S t = {"a", "bb", "c", "d", "e", "f"}; one(x, t, ph); }
  R h2, q; sents(A, 4, &h2); sents({"a", "\xc3\xa7"}, 3, &q); for (auto& a : q) for (auto& b : q) many(x, {a, b}, h2); R q2; sents({"a", "\xc3\xa7"}, 2, &q2); for (auto& a : q2) for (auto& b : q2) for (auto& c : q2) many(x, {a, b, c}, h2);
  for (int n : th ? vector<int>{7, 14, 24} : vector<int>{7, 13}) for (int i = 0; i < n; ++i) for (int len = 1; i + len <= n; ++len) for (int p = 0; p <= n - len; ++p) block(x, n, i, len, p, false);
  for (int d : {40, 49, 50, 51, 55}) for (int len : {1, 3, 10, 11}) for (int i : {0, 2}) { block(x, 70, i, len, i + d, true); block(x, 70, i + d, len, i, true); }
  for (int i : {1000, 1020, 1030, 1060}) for (int len : {1, 2, 5}) for (int d : {-20, 20}) { block(x, 1100, i, len, i + d, true); }
}
VC_MAIN(vc_run)
