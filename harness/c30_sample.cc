// C30: under every outcome of the random generator a sample is a derivation with its score, in exactly its share of the outcomes.
#include "hgspace.h"
#include "hg_sampler.h"
#include "alias_sampler.h"
#include "sampler.h"
#include <algorithm>
#include <memory>
using namespace std;
// ---- a generator whose outputs are chosen: its state is set so that the next raw outputs are the given ones
static uint32_t untemper(uint32_t y) { y ^= y >> 18; y ^= (y << 15) & 0xefc60000u; uint32_t t = y; for (int i = 0; i < 5; ++i) t = y ^ ((t << 7) & 0x9d2c5680u); y = t; t = y; for (int i = 0; i < 3; ++i) t = y ^ (t >> 11); return t; }
static const int MAXD = 40;
struct Chosen {
  MT19937 rng; vector<uint32_t> val; Chosen() : rng(1) {}
  void set(const vector<int>& digits, int R) { vector<uint32_t> st(624, 0); val.assign(MAXD, 0); for (int k = 0; k < MAXD; ++k) { double u = ((k < (int)digits.size() ? digits[k] : 0) + 0.5) / R; val[k] = (uint32_t(u * 4294967296.0) & ~255u) | k; st[397 + k] = untemper(val[k]); } auto b = st.begin(); rng.gen().seed(b, st.end()); }
  int used() { boost::mt19937 g = rng.gen(); uint32_t v = g(); int k = v & 255; return k < MAXD && val[k] == v ? k : -1; }
};
// every outcome: body(run) is executed under every sequence of choices it asks for; leaf(weight) after each complete one
template <class F> static bool outcomes(vc::X& x, Chosen& c, int R, int depth, F body, vector<int>& d, double w, uint64_t& budget) {
  if (!budget) return false; --budget; c.set(d, R); auto leaf = body(c.rng); int u = c.used(); x.step(); if (u < 0 || u > depth) { return false; }
  if (u <= (int)d.size()) { leaf(w); return true; }
  for (int i = 0; i < R; ++i) { d.push_back(i); bool ok = outcomes(x, c, R, depth, body, d, w / R, budget); d.pop_back(); if (!ok) return false; } return true; }
static int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }
static void forest(vc::X& x, AHG h, const vector<int>& wt, double shift, int draws) {
  for (auto& e : h.e) { int w = wt[e.id % wt.size()]; e.lp = w ? log(double(w)) + (e.head + 1 == h.n ? 0.5 : shift * (e.head + 1)) : -INFINITY; for (int t : e.tails) e.lp -= shift * (t + 1); }
  vector<vector<Deriv>> D; if (!HGSpace::derivs(h, &D, 40)) return; auto& G = D.back(); vector<long> in(h.n); for (auto& d : G) { set<int> s; for (int id : d.edges) if (!s.insert(h.e[id].head).second) return; }   // no node used twice in one derivation
  vector<int> alts(h.n); int L = 1; for (int v = 0; v < h.n; ++v) { long s = 0; for (auto& e : h.e) if (e.head == v) { long p = wt[e.id % wt.size()]; for (int t : e.tails) p *= in[t]; s += p; ++alts[v]; } in[v] = s; if (alts[v] > 1 && s && L < 1000) L = L / gcd(L, s) * s; } if (!in[h.n - 1]) return;
  int depth = 0; for (auto& d : G) { int k = 0; for (int id : d.edges) k += alts[h.e[id].head] > 1; depth = max(depth, k); } depth *= draws; if (!depth && draws > 1) return;
  double mx = 1; bool exact = L <= 60; int R = L; for (int i = 0; i < depth; ++i) mx *= L; if (!exact || mx > (x.thorough ? 20000 : 3000)) { exact = false; R = max(4, (int)pow(x.thorough ? 8000. : 800., 1. / max(1, depth))); } if (draws > 1 && !exact) return;
  if (!x.take()) return; if (G.size() > 1) x.nontrivial(); x.desc([=] { ostringstream o; o << h.str() << ", " << draws << " at a time, " << R << " outcomes per draw"; return o.str(); });
  Hypergraph hg; HGSpace::build(h, &hg, h.e.size() % 2); for (auto& e : hg.edges_) if (e.feature_values_.value(FD::Convert("W")) < -1e300) { e.edge_prob_ = prob_t::Zero(); e.feature_values_.set_value(FD::Convert("W"), -99); }
  map<map<int, double>, int> by; vector<double> p(G.size()); double Z = in[h.n - 1]; for (size_t i = 0; i < G.size(); ++i) { map<int, double> f; double q = 1; for (int id : G[i].edges) { f[id] = 1; q *= wt[id % wt.size()]; } by[f] = i; p[i] = q / Z; }
  typedef vector<HypergraphSampler::Hypothesis> H; Chosen c; map<vector<int>, double> share; vector<int> d; uint64_t budget = 400000; string bad; int kW = FD::Convert("W");
  auto body = [&](MT19937& rng) { auto hs = make_shared<H>(); HypergraphSampler::sample_hypotheses(hg, draws, &rng, hs.get()); return [&, hs](double w) { vector<int> id; if ((int)hs->size() != draws) bad = "the number of samples is " + to_string(hs->size()); for (auto& s : *hs) { map<int, double> f; for (auto& e : h.e) { double v = s.fmap.value(HGSpace::fid(e.id)); if (v) f[e.id] = v; } auto it = by.find(f); if (it == by.end()) { string t; for (auto& k : f) t += " e" + to_string(k.first); bad = "a sample with the edges" + t; return; } const Deriv& g = G[it->second]; id.push_back(it->second); double lp = 0, ft = 0; for (int e : g.edges) { lp += h.e[e].lp; ft += h.e[e].feat; } if (TD::GetString(s.words) != g.ystr()) bad = "derivation " + to_string(it->second) + " with the words '" + TD::GetString(s.words) + "' instead of '" + g.ystr() + "'"; if (lp != -INFINITY && (!vc::close(log(s.model_score), lp, 1e-9) || !vc::close(s.fmap.value(kW), lp, 1e-9))) bad = "derivation " + to_string(it->second) + " with score " + to_string(log(s.model_score)) + " and feature " + to_string(s.fmap.value(kW)) + " instead of " + to_string(lp); if (!vc::close(s.fmap.value(FD::Convert("G")), ft)) bad = "derivation with the wrong feature value"; } share[id] += w; }; };
  x.check(outcomes(x, c, R, MAXD - 1, body, d, 1, budget), "draws", "more random numbers were drawn than the forest calls for"); if (!x.check(bad.empty(), "sample", bad)) return;
  double tol = exact ? 1e-9 : (depth + 1.0) / R + 1e-9; int tot = 1; for (int i = 0; i < draws; ++i) tot *= G.size(); for (int q = 0; q < tot; ++q) { vector<int> id; double want = 1; int r = q; for (int i = 0; i < draws; ++i, r /= G.size()) { id.push_back(r % G.size()); want *= p[id.back()]; } double got = share.count(id) ? share[id] : 0; if (!x.check(fabs(got - want) <= tol, "share", [&] { return "derivation(s) " + vc::str(id) + (draws == 1 ? " '" + G[id[0]].ystr() + "'" : "") + " in a share of " + to_string(got) + " instead of " + to_string(want); })) return; if (want == 0) x.check(got == 0, "share-zero", "a derivation of probability zero"); }
  for (double v : p) x.state(vc::hdbl(v)); x.state(vc::hstr(h.str())); if (!exact) x.stat("approximate_shares");
  // trees
  map<string, double> tw, tg; for (size_t i = 0; i < G.size(); ++i) { function<string(size_t&)> tree = [&](size_t& k) -> string { const AEdge& e = h.e[G[i].edges[k]]; vector<string> kid(e.tails.size()); for (int a = e.tails.size() - 1; a >= 0; --a) { --k; kid[a] = tree(k); } string s = "(X"; for (auto& w : epattern(e)) s += " " + (w[0] == '[' ? kid[w[1] - '1'] : w); return s + ")"; }; size_t k = G[i].edges.size() - 1; tw[tree(k)] += p[i]; }
  if (draws == 1) { auto tb = [&](MT19937& rng) { auto ts = make_shared<vector<string>>(); HypergraphSampler::sample_trees(hg, 1, &rng, ts.get()); return [&, ts](double w) { tg[ts->size() == 1 ? (*ts)[0] : "<none>"] += w; }; }; budget = 400000; x.check(outcomes(x, c, R, MAXD - 1, tb, d, 1, budget), "draws-trees", "more random numbers were drawn than the forest calls for"); for (auto& t : tg) if (!x.check(tw.count(t.first) > 0, "tree", [&] { string s; for (auto& w : tw) s += "\n" + w.first; return "tree " + t.first + " is none of" + s; })) return; for (auto& t : tw) if (!x.check(fabs(tg[t.first] - t.second) <= tol, "share-tree", [&] { return "tree " + t.first + " in a share of " + to_string(tg[t.first]) + " instead of " + to_string(t.second); })) return; }
}
// ---- the selection primitives
template <class F> static void select(vc::X& x, const vector<int>& w, double T, const char* nm) {
  double tot = 0; for (int v : w) tot += pow(double(v), 1 / T); if (tot == 0) return; if (!x.take()) return; x.nontrivial(); x.desc([=] { return string("choice among weights ") + vc::str(w) + " at temperature " + to_string(T) + " as " + nm; });
  int n = lround(tot), R = n * (n < 30 ? 4 : 1); SampleSet<F> s; for (int v : w) s.add(F(double(v))); Chosen c; vector<double> got(w.size()); vector<int> d; uint64_t budget = 100000; bool range = true;
  auto body = [&](MT19937& rng) { size_t i = rng.SelectSample(s, T); return [&, i](double p) { if (i >= got.size()) range = false; else got[i] += p; }; }; x.check(outcomes(x, c, R, MAXD - 1, body, d, 1, budget) && range, "select-range", "out of range"); for (size_t i = 0; i < w.size(); ++i) { x.state(vc::hdbl(got[i])); x.check(fabs(got[i] - pow(double(w[i]), 1 / T) / tot) < 1e-9, "select", [&] { return "choice " + to_string(i) + " in a share of " + to_string(got[i]) + " instead of " + to_string(pow(double(w[i]), 1 / T) / tot); }); }
  // any outcome whatever, the extremes included, falls in range
  for (uint32_t v : {0u, 1u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) { vector<uint32_t> st(624, 0); for (int k = 0; k < MAXD; ++k) st[397 + k] = untemper(k ? 0x12345678u : v); auto b = st.begin(); c.rng.gen().seed(b, st.end()); size_t i = c.rng.SelectSample(s, T); x.step(); if (x.check(i < w.size(), "select-extreme", "out of range")) x.check(v == 0 || w[i] > 0, "select-zero", [&] { return "a choice of weight zero for the raw value " + to_string(v); }); }
}
template <class F> static void pairs(vc::X& x, const char* nm) {
  for (int a = 0; a <= 6; ++a) for (int b = 0; b <= 6; ++b) if (a + b) { if (!x.take()) continue; x.desc([=] { return string("choice between ") + to_string(a) + " and " + to_string(b) + " as " + nm; }); Chosen c; double got[2] = {0, 0}; vector<int> d; uint64_t budget = 1000; auto body = [&](MT19937& rng) { size_t i = rng.SelectSample(F(double(a)), F(double(b))); return [&, i](double p) { got[i == 1] += p; }; }; x.check(outcomes(x, c, 4 * (a + b), 9, body, d, 1, budget), "pair-draws", "too many draws"); x.check(fabs(got[0] - double(a) / (a + b)) < 1e-9, "pair", [&] { return "the first in a share of " + to_string(got[0]); }); }
}
static void metropolis(vc::X& x) {
  for (int pc = 1; pc <= 4; ++pc) for (int pp = 1; pp <= 4; ++pp) for (int qc = 1; qc <= 4; ++qc) for (int qp = 1; qp <= 4; ++qp) for (double sh : {0., -2000.}) { if (!x.take()) continue; x.desc([=] { return "acceptance for p " + to_string(pc) + "/" + to_string(pp) + ", q " + to_string(qp) + "/" + to_string(qc); }); x.nontrivial(); Chosen c; double got = 0; vector<int> d; uint64_t budget = 1000; prob_t s; s.logeq(sh); auto body = [&](MT19937& rng) { bool a = rng.AcceptMetropolisHastings(prob_t(double(pc)) * s, prob_t(double(pp)) * s, prob_t(double(qc)) * s, prob_t(double(qp)) * s); return [&, a](double p) { got += a * p; }; }; x.check(outcomes(x, c, 2 * pp * qc, 9, body, d, 1, budget), "accept-draws", "too many draws"); double w = min(1., double(pc) * qp / (pp * qc)); x.check(fabs(got - w) < 1e-9, "accept", [&] { return "accepted in a share of " + to_string(got) + " instead of " + to_string(w); }); }
}
struct Digits { vector<double> v; size_t at = 0; double operator()() { return at < v.size() ? v[at++] : (++at, 0.5); } };
static void alias(vc::X& x, const vector<int>& m, int K) {
  if (!x.take()) return; x.nontrivial(); x.desc([=] { return "alias table for " + vc::str(m) + "/" + to_string(K); }); vector<double> p; for (int v : m) p.push_back(double(v) / K); AliasSampler a(p), reused({0.25, 0.75}); reused.Init(p); int N = m.size(); vector<double> got(N); int R = 4 * K;
  for (auto* s : {&a, &reused}) { fill(got.begin(), got.end(), 0); for (int i = 0; i < N * 2; ++i) for (int j = 0; j < R; ++j) { Digits d; d.v = {(i + 0.5) / (2 * N), (j + 0.5) / R}; unsigned k = s->Draw(d); x.step(); if (!x.check(k < m.size(), "alias-range", [&] { return "draws " + to_string(k); })) return; got[k] += 0.5 / N / R; } for (int i = 0; i < N; ++i) x.check(fabs(got[i] - p[i]) < 1e-9, "alias", [&] { return to_string(i) + " in a share of " + to_string(got[i]) + " instead of " + to_string(p[i]); });
    for (double u : {1e-9, 1 - 1e-9, 1 - 2.3283064365386963e-10}) for (double v : {1e-9, 1 - 1e-9, 1 - 2.3283064365386963e-10}) { Digits d; d.v = {u, v}; unsigned k = s->Draw(d); x.check(k < m.size() && m[k] > 0, "alias-extreme", [&] { return "draws " + to_string(k); }); } }
}
static void compositions(int left, int parts, vector<int>& m, function<void(const vector<int>&)> f) { if (parts == 1) { m.push_back(left); f(m); m.pop_back(); return; } for (int i = 0; i <= left; ++i) { m.push_back(i); compositions(left - i, parts - 1, m, f); m.pop_back(); } }
static void run(vc::X& x) {
  bool th = x.thorough; { Chosen c; c.set({3, 1, 2}, 4); boost::mt19937 g = c.rng.gen(); for (int k = 0; k < MAXD; ++k) if (g() != c.val[k]) { x.fail("harness", "the generator does not follow the chosen outcomes"); return; } }
  const vector<vector<int>> WT = {{1}, {1, 2}, {2, 1, 1, 3}, {1, 1, 2, 0, 1}, {3, 1, 1, 1, 2}, {5, 1, 7, 2, 3}, {0, 1, 1}, {1, 0, 1, 1, 0}};
  HGSpace::standard(th ? 2 : 1, [&](AHG& h) { size_t i = 0; for (auto& w : WT) { ++i; if (!th && h.n == 4 && i % 3) continue; forest(x, h, w, i % 2 ? 0 : -731.25, 1); if (h.e.size() <= (th ? 6 : 5) && (th || i < 4)) forest(x, h, w, 0.5, 2); if (th && h.e.size() <= 3) forest(x, h, w, -0.5, 3); } });
  for (int n = 1; n <= (th ? 5 : 4); ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 5; for (int c = 0; c < tot; ++c) { vector<int> w, s; int q = c; for (int i = 0; i < n; ++i, q /= 5) { w.push_back(q % 5); s.push_back((q % 5) * (q % 5)); } select<double>(x, w, 1, "double"); select<prob_t>(x, w, 1, "log value"); select<double>(x, w, .5, "double"); select<prob_t>(x, w, .5, "log value"); select<double>(x, s, 2, "double"); select<prob_t>(x, s, 2, "log value"); } }
  pairs<double>(x, "double"); pairs<prob_t>(x, "log value"); metropolis(x);
  for (int K = 1; K <= (th ? 12 : 8); ++K) for (int n = 1; n <= (th ? 6 : 5); ++n) { vector<int> m; compositions(K, n, m, [&](const vector<int>& v) { alias(x, v, K); }); }
}
VC_MAIN(run)
