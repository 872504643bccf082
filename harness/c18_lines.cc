// C18: the envelope of a forest along a direction, its error surface, and the line search over several sentences.
#include "compat.h"
#include "hgspace.h"
#include "inside_outside.h"
#include "viterbi.h"
#include "mert_geometry.h"
#include "error_surface.h"
#include "ces.h"
#include "line_optimizer.h"
#include "ns.h"
#include "hg_io.h"
#include "filelib.h"
#include "b64tools.h"
#include <algorithm>
#include <memory>
#include <cmath>
using namespace std;
typedef vector<string> S;
typedef SparseVector<double> SV;
static void put(const string& f, const string& t) { ofstream o(f.c_str(), ios::binary); o << t; }
static string get(const string& f) { ifstream i(f.c_str(), ios::binary); return string(istreambuf_iterator<char>(i), istreambuf_iterator<char>()); }
static S lines(const string& t) { S r; istringstream i(t); string l; while (getline(i, l)) r.push_back(l); return r; }
static S words(const string& t) { S r; istringstream i(t); string l; while (i >> l) r.push_back(l); return r; }
static string join(const S& w) { string o; for (auto& s : w) o += (o.empty() ? "" : " ") + s; return o; }
static string num(double d) { ostringstream o; o.precision(17); o << d; return o.str(); }
static int W() { static int f = FD::Convert("W"); return f; }
static int G() { static int f = FD::Convert("G"); return f; }
struct OD { double ow, og, dw, dg; SV o() const { SV v; if (ow) v.set_value(W(), ow); if (og) v.set_value(G(), og); return v; } SV d() const { SV v; if (dw) v.set_value(W(), dw); if (dg) v.set_value(G(), dg); return v; } };
static const OD ODS[] = {{1, 0, 0, 1}, {0, 0, 1, 0}, {1, 1, 1, -1}, {-0.5, 2, 0.5, 0.25}, {1, -1, -1, 0}, {0.25, 0, 0, -2}, {0, 0, 1, 1}, {2, 1, 0, 0}};
struct Line { double m, b; int k; };
// all points at which two lines cross
static vector<double> crossings(const vector<Line>& l) { vector<double> r; for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i].m != l[j].m) r.push_back((l[i].b - l[j].b) / (l[j].m - l[i].m)); sort(r.begin(), r.end()); vector<double> u; for (double v : r) if (u.empty() || v - u.back() > 1e-9 * max(1.0, fabs(v))) u.push_back(v); return u; }
static vector<double> probes(const vector<double>& c) { vector<double> r; if (c.empty()) return {-3, 0, 5}; r.push_back(c[0] - 1000); r.push_back(c[0] - 1); for (size_t i = 0; i < c.size(); ++i) { r.push_back(c[i]); r.push_back(i + 1 < c.size() ? (c[i] + c[i + 1]) / 2 : c[i] + 1); } r.push_back(c.back() + 1000); return r; }

// ---- the envelope
static void hull_of(vc::X& x, const AHG& h, const OD& od) {
  vector<vector<Deriv>> D; if (!HGSpace::derivs(h, &D, 600)) { x.stat("skipped_too_many_derivations"); return; }
  auto& g = D.back(); Hypergraph hg; HGSpace::build(h, &hg); const int ne = h.e.size();
  vector<Line> l; set<pair<double, double>> ul; vector<Line> uniq;
  for (size_t k = 0; k < g.size(); ++k) { double fw = 0, fg = 0; for (int id : g[k].edges) { fw += h.e[id].lp; fg += h.e[id].feat; } Line q = {od.dw * fw + od.dg * fg, od.ow * fw + od.og * fg, (int)k}; l.push_back(q); if (ul.insert({q.m, q.b}).second) uniq.push_back(q); }
  if (uniq.size() > 1) x.nontrivial();
  ConvexHullWeightFunction wf(od.o(), od.d()); ConvexHull hull = Inside<ConvexHull, ConvexHullWeightFunction>(hg, NULL, wf);
  auto& seg = hull.GetSortedSegs(); x.step(seg.size()); x.stat("segments", seg.size());
  if (!x.check(!seg.empty(), "hull-empty", "no segment")) return;
  if (!x.check(seg[0]->x == -INFINITY, "hull-start", [&] { return "the first segment starts at " + num(seg[0]->x); })) return;
  auto show = [&] { string o; for (auto& s : seg) o += " [from " + num(s->x) + ": " + num(s->m) + "x+" + num(s->b) + "]"; return o; };
  for (size_t i = 1; i < seg.size(); ++i) if (!x.check(seg[i - 1]->x < seg[i]->x && seg[i]->x < INFINITY, "hull-order", [&] { return "breakpoints not increasing:" + show(); })) return;
  for (auto& s : seg) {   // each segment is a derivation with this line
    vector<WordID> t; s->ConstructTranslation(&t); string y; for (WordID w : t) y += (y.empty() ? "" : " ") + TD::Convert(w);
    vector<bool> used(hg.edges_.size()); s->CollectEdgesUsed(&used); set<int> ue; for (int i = 0; i < ne; ++i) if (used[i]) ue.insert(HGSpace::eid(hg.edges_[i], ne));
    bool ok = false; for (auto& q : l) if (q.m == s->m && q.b == s->b && g[q.k].ystr() == y && set<int>(g[q.k].edges.begin(), g[q.k].edges.end()) == ue) ok = true;
    if (!x.check(ok, "hull-derivation", [&] { return "no derivation yields '" + y + "' with the line " + num(s->m) + "x+" + num(s->b) + " and these edges"; })) return;
    x.state(vc::mix(vc::mix(vc::hdbl(s->m), vc::hdbl(s->b)), vc::hdbl(s->x))); }
  vector<double> P = probes(crossings(uniq)); for (auto& s : seg) if (s->x > -INFINITY) P.push_back(s->x);
  for (double p : P) { size_t i = seg.size() - 1; while (i && seg[i]->x > p) --i; double got = seg[i]->m * p + seg[i]->b, best = -INFINITY; for (auto& q : uniq) best = max(best, q.m * p + q.b);
    if (!x.check(fabs(got - best) <= 1e-7 * (1 + fabs(best)), "hull-max", [&] { return "at step " + num(p) + " the envelope scores " + num(got) + ", the best derivation " + num(best) + ":" + show(); })) return; }
}
static void hulls(vc::X& x, bool th) {
  static const double M[] = {1, 0, -2, 0.5, 3, -1, 2, 0.25, -0.5, 1.5, -3, 4, -0.25, 0}, B[] = {0, 1, 2, -1, 0.5, 3, -2, 0.25, 1.5, -0.5, 4, -3, 0, 2};
  auto f = [&](AHG& h) { for (int pat = 0; pat < 4; ++pat) { for (size_t i = 0; i < h.e.size(); ++i) { h.e[i].lp = pat == 1 ? M[(i * 5 + 2) % 14] : pat == 2 ? double(i % 3) - 1 : pat == 3 ? double(i) : M[i % 14]; h.e[i].feat = pat == 1 ? B[(i * 3 + 1) % 14] : pat == 2 ? double((i / 2) % 2) : pat == 3 ? -0.5 * double(i * i) : B[i % 14]; }
      for (int k = 0; k < 8; ++k) { if (!th && h.e.size() > 4 && (k + h.e.size() + pat) % 4) continue; if (!x.take()) continue; const OD od = ODS[k]; x.desc([=] { return h.str() + " weights " + to_string(pat) + " origin (" + num(od.ow) + "," + num(od.og) + ") direction (" + num(od.dw) + "," + num(od.dg) + ")"; }); hull_of(x, h, od); } } };
  HGSpace::standard(th ? 1 : 0, f);
  // lists: every list of up to four lines on a grid
  int K = th ? 5 : 4, V = 20; for (int n = 1; n <= K; ++n) { vector<int> c(n); while (true) { if (x.take()) { AHG h; h.n = 1; for (int i = 0; i < n; ++i) { AEdge e; e.head = 0; e.id = i; e.word = i; e.lp = c[i] % 4 - 1.0; e.feat = (c[i] / 4) - 2.0; h.e.push_back(e); } x.desc([=] { return h.str(); }); hull_of(x, h, OD{1, 0, 0, 1}); } int i = n - 1; while (i >= 0 && ++c[i] == V) --i; if (i < 0) break; for (int j = i + 1; j < n; ++j) c[j] = c[i]; } }
}

// ---- several sentences, a metric and the line search
struct Cand { string y; double fw, fg; };
typedef vector<Cand> Sent;
static string show(const vector<Sent>& s, const vector<vector<string>>& refs) { string o; for (size_t i = 0; i < s.size(); ++i) { o += "sentence " + to_string(i) + ":"; for (auto& c : s[i]) o += " '" + c.y + "' W=" + num(c.fw) + " G=" + num(c.fg) + ";"; o += " references:"; for (auto& r : refs[i]) o += " '" + r + "'"; o += "\n"; } return o; }
static vector<WordID> ids(const string& y) { vector<WordID> v; for (auto& w : words(y)) v.push_back(TD::Convert(w)); return v; }
static void build(const Sent& s, Hypergraph* hg) { hg->clear(); hg->AddNode(-TD::Convert("X")); for (auto& c : s) { TRulePtr r(new TRule("[X] ||| f ||| e")); r->e_.clear(); for (WordID w : ids(c.y)) r->e_.push_back(w); Hypergraph::Edge* e = hg->AddEdge(r, Hypergraph::TailNodeVector()); e->feature_values_.set_value(W(), c.fw); e->feature_values_.set_value(G(), c.fg); hg->ConnectEdgeToHeadNode(e->id_, 0); } }
struct Region { double lo, hi; float score; };
struct Doc { vector<Sent> s; vector<vector<string>> refs; string metric; vector<boost::shared_ptr<SegmentEvaluator>> ev; EvaluationMetric* m;
  Doc(const vector<Sent>& a, const vector<vector<string>>& r, const string& me) : s(a), refs(r), metric(me), m(EvaluationMetric::Instance(me)) { for (auto& q : r) { vector<vector<WordID>> v; for (auto& t : q) v.push_back(ids(t)); ev.push_back(m->CreateSegmentEvaluator(v)); } }
  // -1 ambiguous, else index
  int best(int i, const OD& od, double p) const { int k = -1; double b = -INFINITY; bool amb = false; for (size_t c = 0; c < s[i].size(); ++c) { double v = (od.ow + p * od.dw) * s[i][c].fw + (od.og + p * od.dg) * s[i][c].fg; if (k < 0 || v > b + 1e-8 * (1 + fabs(b))) { k = c; b = v; amb = false; } else if (v > b - 1e-8 * (1 + fabs(b)) && s[i][c].y != s[i][k].y) amb = true; } return amb ? -1 : k; }
  bool at(const OD& od, double p, float* sc) const { SufficientStats t; for (size_t i = 0; i < s.size(); ++i) { int k = best(i, od, p); if (k < 0) return false; SufficientStats st; ev[i]->Evaluate(ids(s[i][k].y), &st); t += st; } *sc = m->ComputeScore(t); return true; }
  vector<double> cuts(const OD& od) const { vector<double> c; for (auto& q : s) { vector<Line> l; for (auto& a : q) l.push_back({od.dw * a.fw + od.dg * a.fg, od.ow * a.fw + od.og * a.fg, 0}); auto v = crossings(l); c.insert(c.end(), v.begin(), v.end()); } sort(c.begin(), c.end()); return c; } };
[[maybe_unused]] static const float TOL = 2e-6;
// pos/score as returned by line search: the score must be what the metric gives there and no wide interval may be better
static void judge(vc::X& x, const Doc& d, const OD& od, double pos, float score, const string& what, float tol = TOL) {
  if (!x.check(std::isfinite(pos), what + "-step", [&] { return "the step is " + num(pos); })) return;
  vector<double> c = d.cuts(od); float at[3]; bool amb = !d.at(od, pos, at), nb = false; if (amb) { at[0] = score; amb = !d.at(od, pos - 1e-4, at + 1) || !d.at(od, pos + 1e-4, at + 2); nb = !amb; }   // a step on a breakpoint: both sides
  if (amb) x.stat("ambiguous_step"); else for (int k = nb; k < (nb ? 3 : 1); ++k) if (!x.check(fabs(at[k] - score) <= tol, what + "-reported", [&] { return "step " + num(pos) + " reported with score " + num(score) + ", but the metric gives " + num(at[k]); })) break;
  const bool mn = d.m->IsErrorMetric(); vector<pair<double, double>> iv; if (c.empty()) iv.push_back({-1, 1}); else { iv.push_back({c[0] - 2, c[0]}); for (size_t i = 0; i + 1 < c.size(); ++i) if (c[i + 1] - c[i] > 2.0 / 65536) iv.push_back({c[i], c[i + 1]}); iv.push_back({c.back(), c.back() + 2}); }
  for (auto& q : iv) { float v; if (!d.at(od, (q.first + q.second) / 2, &v)) { x.stat("ambiguous_interval"); continue; } x.step(); if (!x.check(mn ? score <= v + tol : score >= v - tol, what + "-best", [&] { return "step " + num((q.first + q.second) / 2) + " scores " + num(v) + ", the returned step " + num(pos) + " only " + num(score); })) return; } }
static void surface(vc::X& x, const vector<Sent>& s, const vector<vector<string>>& refs, const string& metric, const OD& od) {
  Doc d(s, refs, metric); vector<ErrorSurface> es(s.size()), back(s.size()); vector<unique_ptr<Hypergraph>> hg;
  for (size_t i = 0; i < s.size(); ++i) { for (auto& a : s[i]) for (auto& b : s[i]) if (a.y != b.y && od.dw * a.fw + od.dg * a.fg == od.dw * b.fw + od.dg * b.fg && od.ow * a.fw + od.og * a.fg == od.ow * b.fw + od.og * b.fg) { x.stat("skipped_tied_candidates"); return; }
    hg.emplace_back(new Hypergraph); build(s[i], hg.back().get()); ConvexHullWeightFunction wf(od.o(), od.d()); ConvexHull h = Inside<ConvexHull, ConvexHullWeightFunction>(*hg.back(), NULL, wf); ComputeErrorSurface(*d.ev[i], h, &es[i], d.m, *hg.back());
    string enc; es[i].Serialize(&enc); ostringstream b64; B64::b64encode(enc.data(), enc.size(), &b64); string t = b64.str(), dec(t.size() / 4 * 3, '\0'); bool ok = B64::b64decode((const unsigned char*)t.data(), t.size(), &dec[0], dec.size()); if (!x.check(ok, "decode", "encoded surface refused")) return; back[i].Deserialize(dec);
    bool same = back[i].size() == es[i].size(); for (size_t k = 0; same && k < es[i].size(); ++k) { same = back[i][k].x == es[i][k].x && back[i][k].delta.fields.size() == es[i][k].delta.fields.size(); for (size_t f = 0; same && f < es[i][k].delta.fields.size(); ++f) same = fabs(back[i][k].delta.fields[f] - es[i][k].delta.fields[f]) <= 1e-5 * (1 + fabs(es[i][k].delta.fields[f])); } x.check(same, "round-trip", "the surface read back differs");
    // the surface itself: accumulated statistics between any two of its cuts
    vector<double> c; { vector<Line> l; for (auto& a : s[i]) l.push_back({od.dw * a.fw + od.dg * a.fg, od.ow * a.fw + od.og * a.fg, 0}); c = crossings(l); }
    vector<double> P; if (c.empty()) P = {0}; else { P.push_back(c[0] - 1); for (size_t k = 0; k + 1 < c.size(); ++k) P.push_back((c[k] + c[k + 1]) / 2); P.push_back(c.back() + 1); }
    for (double p : P) { int k = d.best(i, od, p); if (k < 0) continue; SufficientStats w, a; d.ev[i]->Evaluate(ids(s[i][k].y), &w); for (auto& g : es[i]) if (g.x <= p) a += g.delta; bool eq = true; for (size_t f = 0; f < max(w.size(), a.size()); ++f) eq = eq && fabs(w[f] - a[f]) <= 1e-4 * (1 + fabs(w[f])); x.step(); if (!x.check(eq, "surface", [&] { string e1, e2; w.Encode(&e1); a.Encode(&e2); return "sentence " + to_string(i) + " at step " + num(p) + ": the surface accumulates '" + e2 + "', the best translation '" + s[i][k].y + "' has '" + e1 + "'"; })) return; } }
  { float v; if (d.at(od, 0.01234, &v) && !std::isfinite(v)) { x.stat("skipped_metric_undefined"); return; } }
  float sc = -77, sc2 = -78; auto ty = d.m->IsErrorMetric() ? LineOptimizer::MINIMIZE_SCORE : LineOptimizer::MAXIMIZE_SCORE; double pos = LineOptimizer::LineOptimize(d.m, es, ty, &sc); judge(x, d, od, pos, sc, "search");
  double pos2 = LineOptimizer::LineOptimize(d.m, back, ty, &sc2); judge(x, d, od, pos2, sc2, "search-decoded", metric == "SSK" ? 1e-4 : TOL);
  if (d.cuts(od).size()) x.nontrivial(); x.state(vc::mix(vc::hdbl(pos), vc::hdbl(sc)));
  // the decoder at the returned step
  SV w = od.d(); w *= pos; w += od.o(); SufficientStats t; bool amb = false; for (size_t i = 0; i < s.size(); ++i) { if (d.best(i, od, pos) < 0) amb = true; hg[i]->Reweight(w); vector<WordID> y; ViterbiESentence(*hg[i], &y); SufficientStats st; d.ev[i]->Evaluate(y, &st); t += st; } if (!amb) x.check(fabs(d.m->ComputeScore(t) - sc) <= TOL, "search-decoder", [&] { return "re-weighting the forests by step " + num(pos) + " gives a score of " + num(d.m->ComputeScore(t)) + ", not " + num(sc); });
}
static const char* METRICS[] = {"IBM_BLEU", "TER", "WER", "KOEHN_BLEU", "NIST_BLEU", "CER", "COMB:IBM_BLEU=0.5;TER=-0.5", "SSK", "QCRI_BLEU"};
static void documents(vc::X& x, bool th) {
  const S Y = {"a b c d", "", "a b c e", "b c d a e", "a"}; const vector<vector<vector<string>>> R = {{{"a b c d"}, {"a b c d e"}}, {{"a b c d", "b a c d e f"}, {"b c d a e"}}, {{"a"}, {"e d c b a"}}, {{""}, {"a b"}}};
  const double FW[] = {0, 1, -1, 2, 0.5, -2}, FG[] = {0, 1, 2, -1, 0.5, 3};
  const int NM = th ? 9 : 7; const int N1 = 3;
  // first sentence: every list of up to three candidates; second: a few
  vector<Sent> second = {{}, {{"a b c d e", 0, 0}}, {{"a b c d e", 1, 0}, {"b c d a", 0, 1}}, {{"", 1, 1}, {"b c d a e", -1, 0}, {"a b c d", 0, 0.5}}};
  for (int n = 1; n <= N1; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 5; for (int c = 0; c < tot; ++c) for (int f = 0; f < (n == 1 ? 2 : th ? 24 : 8); ++f) { Sent a; int q = c; for (int i = 0; i < n; ++i, q /= 5) a.push_back({Y[q % 5], FW[(i * (1 + f % 5) + f) % 6], FG[(i * (1 + f / 2 % 5) + f / 3) % 6]});
      for (size_t r = 0; r < R.size(); ++r) for (size_t b = 0; b < second.size(); ++b) for (int m = 0; m < NM; ++m) for (int k = 0; k < 8; ++k) { if (!th && (c + f + r + b + m + k) % 4) continue; if (th && (c + f + r + b + m + k) % 2) continue; if (!x.take()) continue; vector<Sent> s = {a}; vector<vector<string>> refs = {R[r][0]}; if (second[b].size()) { s.push_back(second[b]); refs.push_back(R[r][1]); } const OD od = ODS[k]; string me = METRICS[m]; x.desc([=] { return me + " origin (" + num(od.ow) + "," + num(od.og) + ") direction (" + num(od.dw) + "," + num(od.dg) + ")\n" + show(s, refs); }); surface(x, s, refs, me, od); } } }
}
// ---- surfaces with very close breakpoints, and with large statistics
static void close_points(vc::X& x, bool th) {
  const double e = 1.0 / 65536; const double P[] = {0, 0.6 * e, 0.9 * e, 1.1 * e, 1.7 * e, 2.5 * e, 0.1, 1, -1, -0.4 * e}; const int NP = 10; EvaluationMetric* m = EvaluationMetric::Instance("WER");
  // two surfaces; the first has two breakpoints, the second one or two; the number of edits after each
  const int E[] = {0, 1, 3}; for (int p1 = 0; p1 < NP; ++p1) for (int p2 = 0; p2 < NP; ++p2) for (int p3 = 0; p3 < NP; ++p3) for (int p4 = -1; p4 < (th ? NP : 1); ++p4) { if (P[p1] >= P[p2]) continue; if (p4 >= 0 && P[p4] <= P[p3]) continue; if (!x.take()) continue;
    x.desc([=] { return "breakpoints " + num(P[p1]) + " " + num(P[p2]) + " and " + num(P[p3]) + (p4 >= 0 ? " " + num(P[p4]) : ""); }); x.nontrivial();
    int ns = p4 >= 0 ? 6 : 5, tot = 1; for (int i = 0; i < ns; ++i) tot *= 3; for (int c = 0; c < tot; ++c) { int q = c; vector<vector<pair<double, int>>> sf(2); sf[0] = {{-INFINITY, 0}, {P[p1], 0}, {P[p2], 0}}; sf[1] = {{-INFINITY, 0}, {P[p3], 0}}; if (p4 >= 0) sf[1].push_back({P[p4], 0}); for (auto& f : sf) for (auto& g : f) { g.second = E[q % 3]; q /= 3; }
      for (int mx = 0; mx < 2; ++mx) { vector<ErrorSurface> es(2); for (int k = 0; k < 2; ++k) { float pe = 0; for (size_t i = 0; i < sf[k].size(); ++i) { ErrorSegment g; g.x = sf[k][i].first; g.delta = SufficientStats("WER", {sf[k][i].second - pe, i ? 0.0f : 5.0f}); pe = sf[k][i].second; es[k].push_back(g); } }
        auto at = [&](double p) { int ed = 0; for (auto& f : sf) { int v = 0; for (auto& g : f) if (g.first <= p) v = g.second; ed += v; } return ed / 10.0f; };
        float sc; double pos = LineOptimizer::LineOptimize(m, es, mx ? LineOptimizer::MAXIMIZE_SCORE : LineOptimizer::MINIMIZE_SCORE, &sc); x.step();
        if (!x.check(fabs(at(pos) - sc) < 1e-6, "close-reported", [&] { return "step " + num(pos) + " reported with score " + num(sc) + ", but its score is " + num(at(pos)) + " (edits " + to_string(c) + ", " + (mx ? "maximised" : "minimised") + ")"; })) return;
        vector<double> c2; for (auto& f : sf) for (auto& g : f) if (g.first > -INFINITY) c2.push_back(g.first); sort(c2.begin(), c2.end()); vector<double> probe = {c2[0] - 1, c2.back() + 1}; for (size_t i = 0; i + 1 < c2.size(); ++i) if (c2[i + 1] - c2[i] > 1.01 * e) probe.push_back((c2[i] + c2[i + 1]) / 2);
        for (double p : probe) if (!x.check(mx ? sc >= at(p) - 1e-6 : sc <= at(p) + 1e-6, "close-best", [&] { return "step " + num(p) + " scores " + num(at(p)) + ", the returned step " + num(pos) + " " + num(sc) + " (edits " + to_string(c) + ", " + (mx ? "maximised" : "minimised") + ")"; })) return; } } }
  for (int nf = 1; nf <= 50; ++nf) for (int mag = 0; mag < 4; ++mag) { if (!x.take()) continue; x.desc([=] { return "a surface with " + to_string(nf) + " statistics of magnitude " + to_string(mag); }); if (nf > 10) x.nontrivial(); ErrorSurface s, b; for (int i = 0; i < 3; ++i) { ErrorSegment g; g.x = i ? i * 0.3 : -INFINITY; vector<float> v; for (int k = 0; k < nf; ++k) v.push_back((k % 2 ? 1 : -1) * (mag == 0 ? (k + i) % 3 : mag == 1 ? 10 + k : mag == 2 ? 123456 + k + i : 0.125f * (k + 1))); g.delta = SufficientStats("IBM_BLEU", v); s.push_back(g); } string t; s.Serialize(&t); b.Deserialize(t); bool ok = b.size() == 3; for (int i = 0; ok && i < 3; ++i) ok = b[i].x == s[i].x && b[i].delta.fields == s[i].delta.fields && b[i].delta.id_ == s[i].delta.id_; x.check(ok, "round-trip-large", "the surface read back differs"); }
}
// ---- the programs
struct Out { int code, sig; string out, err; };
static Out run(vc::X& x, const char* var, S a, const string& in) {
  string i = x.dir + "/in", o = x.dir + "/out", e = x.dir + "/err"; put(i, in); a.insert(a.begin(), getenv(var)); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(0); x.step();
  pid_t p = vfork(); if (!p) { int fi = open(i.c_str(), O_RDONLY), fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); execv(v[0], v.data()); _exit(127); }
  int st; while (waitpid(p, &st, 0) < 0) {} return {WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, get(o), get(e)}; }
static map<string, double> vec(const string& t) { map<string, double> r; istringstream i(t); string f; while (getline(i, f, ';')) { size_t p = f.find('='); if (p != string::npos) r[f.substr(0, p)] = atof(f.c_str() + p + 1); } return r; }
static void programs(vc::X& x, bool th) {
  const vector<vector<Sent>> DOC = {{{{"a b c d", 1, 0}, {"a", 0, 1}, {"a b c e", -1, 3}}}, {{{"a b c d e", 1, 0}, {"b a", 0, 2}}, {{"e", 0.5, 0.25}, {"a b c d", -1, 1}, {"b c d a e", 2, -1}}}, {{{"a b c d", 1, 1}}, {{"a", 1, 0}, {"a b c d e", 1, 1}}}, {{{"", 1, 0}, {"a b", 0, 1}}, {{"a b c", 0, 0}, {"", 1, 1}}}, {{{"a b", 1, 1e-7}, {"a b c d", 1, 3e-7}, {"e", 1, -2e-7}}, {{"a b c", 1000, 0}, {"e", 1001, 1e-3}, {"a b c d e", 1000.5, 5.00005e-4}}}, {{{"a", 0, 0}, {"a b c d", -123.4562, 0.001}, {"e", -246.9128, 0.002}}}};
  const vector<pair<double, double>> ORI = {{1, 0.5}, {0, 0}, {-1, 2}, {1, 0}, {0.333333333, -0.125}}; const vector<vector<string>> refs = {{"a b c d", "a b"}, {"a b c d e", "e b"}};
  for (size_t dc = 0; dc < DOC.size(); ++dc) for (size_t oi = 0; oi < ORI.size(); ++oi) for (int m = 0; m < (th ? 7 : 3); ++m) for (int var = 0; var < 5; ++var) { if (!x.take()) continue; auto& s = DOC[dc]; auto o = ORI[oi]; string me = METRICS[m];
    x.desc([=] { return "programs: " + me + " weights W=" + num(o.first) + " G=" + num(o.second) + " variant " + to_string(var) + "\n" + show(s, refs); }); x.nontrivial();
    string R = x.dir + "/forests"; mkdir(R.c_str(), 0755); for (size_t i = 0; i < s.size(); ++i) { Hypergraph hg; build(s[i], &hg); WriteFile w(R + "/" + to_string(i) + ".bin.gz"); HypergraphIO::WriteToBinary(hg, w.stream()); }
    put(x.dir + "/w", "W " + num(o.first) + "\nG " + num(o.second) + "\n"); for (int r = 0; r < 2; ++r) { string t; for (size_t i = 0; i < s.size(); ++i) t += refs[i][r] + "\n"; put(x.dir + "/ref" + to_string(r), t); }
    S a = {"-s", to_string(s.size()), "-r", R, "-w", x.dir + "/w", "-d", var == 2 ? "3" : "0"}; S feats = {"W", "G"}; if (var == 1) { a.insert(a.end(), {"-o", "G"}); feats = {"G"}; } if (var == 3) { a.insert(a.end(), {"-o", "G", "-o", "W"}); feats = {"G", "W"}; } if (var == 4) { a.insert(a.end(), {"-o", "Z", "-o", "W"}); feats = {"Z", "W"}; }
    Out g = run(x, "VC_GEN", a, ""); S ag = lines(g.out); const size_t nd = feats.size() + (var == 2 ? 3 : 0); if (!x.check(g.code == 0 && ag.size() == nd * s.size(), "agenda", [&] { return to_string(ag.size()) + " lines, exit " + to_string(g.code) + ":\n" + g.out + g.err; })) continue;
    bool ok = true; set<string> dirs; for (size_t i = 0; ok && i < ag.size(); ++i) { S f = words(ag[i]); ok = f.size() == 4 && f[0] == R + "/" + to_string(i / nd) + ".bin.gz" && f[1] == to_string(i / nd); if (!ok) break; auto ov = vec(f[2]), dv = vec(f[3]); for (auto& p : ov) ok = ok && (p.first == "W" || p.first == "G" || p.second == 0); ok = ok && fabs(ov["W"] - o.first) < 1e-5 && fabs(ov["G"] - o.second) < 1e-5; dirs.insert(f[3]); double n2 = 0; size_t nz = 0; for (auto& p : dv) { n2 += p.second * p.second; nz += p.second != 0; ok = ok && (p.second == 0 || find(feats.begin(), feats.end(), p.first) != feats.end()); } ok = ok && fabs(n2 - 1) < 1e-4 && (i % nd >= feats.size() || (nz == 1 && dv[feats[i % nd]] == 1)); }
    if (!x.check(ok && dirs.size() == nd, "agenda-lines", [&] { return g.out; })) continue;
    string in = g.out; if (var == 3) { S r(ag.rbegin(), ag.rend()); in = ""; for (auto& l : r) in += l + "\n"; }
    Out mp = run(x, "VC_MAP", {"-r", x.dir + "/ref0", "-r", x.dir + "/ref1", "-m", me}, in); S ml = lines(mp.out); if (!x.check(mp.code == 0 && ml.size() == ag.size(), "map", [&] { return to_string(ml.size()) + " lines for " + to_string(ag.size()) + ", exit " + to_string(mp.code) + "/" + to_string(mp.sig) + ":\n" + in + mp.err.substr(0, 400); })) continue;
    sort(ml.begin(), ml.end()); string t; for (auto& l : ml) t += l + "\n"; Out rd = run(x, "VC_REDUCE", {"-m", me}, t); S rl = lines(rd.out); if (!x.check(rd.code == 0 && rl.size() == nd, "reduce", [&] { return to_string(rl.size()) + " lines for " + to_string(nd) + " directions, exit " + to_string(rd.code) + "/" + to_string(rd.sig) + ":\n" + rd.out + rd.err.substr(0, 400); })) continue;
    set<string> seen; for (auto& l : rl) { size_t p1 = l.find('|'), p2 = l.find('|', p1 + 1); S k = words(l.substr(0, p1)); if (!x.check(p2 != string::npos && k.size() == 2 && dirs.count(k[1]), "reduce-line", [&] { return "'" + l + "'"; })) break; seen.insert(k[1]); auto ov = vec(k[0]), dv = vec(k[1]); const bool random = dv.size() > 1; OD od = {ov["W"], ov["G"], dv["W"], dv["G"]};
      vector<vector<string>> rf(refs.begin(), refs.begin() + s.size()); Doc d(s, rf, me); bool tied = false; for (auto& q : s) for (auto& u : q) for (auto& v : q) tied = tied || (u.y != v.y && od.dw * u.fw + od.dg * u.fg == od.dw * v.fw + od.dg * v.fg && od.ow * u.fw + od.og * u.fg == od.ow * v.fw + od.og * v.fg); if (tied) { x.stat("skipped_tied_candidates"); continue; }
      if (random) continue;   // random directions are only checked for their form
      judge(x, d, od, atof(l.c_str() + p1 + 1), atof(l.c_str() + p2 + 1), "program", 2e-5); }
    x.check(seen.size() == nd, "reduce-directions", [&] { return rd.out; }); x.state(vc::hstr(var == 2 ? "" : rd.out)); }
}
static void run_all(vc::X& x) { bool th = x.thorough; hulls(x, th); documents(x, th); close_points(x, th); programs(x, th); }
VC_MAIN(run_all)
