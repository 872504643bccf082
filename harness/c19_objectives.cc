// C19: objectives and gradients over candidate sets, merging of candidate sets, batch and online optimisers.
#include "compat.h"
#include "vc.h"
#include "hg.h"
#include "trule.h"
#include "tdict.h"
#include "fdict.h"
#include "ns.h"
#include "candidate_set.h"
#include "risk.h"
#include "entropy.h"
#include "optimize.h"
#include "online_optimizer.h"
#include "liblbfgs/lbfgs++.h"
#include "verbose.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
using namespace std;
typedef vector<string> S;
typedef vector<double> V;
typedef SparseVector<double> SV;
static void put(const string& f, const string& t) { ofstream o(f.c_str(), ios::binary); o << t; }
static S words(const string& t) { S r; istringstream i(t); string l; while (i >> l) r.push_back(l); return r; }
static string join(const S& w) { string o; for (auto& s : w) o += (o.empty() ? "" : " ") + s; return o; }
static string num(double d) { ostringstream o; o.precision(17); o << d; return o.str(); }
static string vs(const V& v) { string o = "("; for (double d : v) o += num(d) + " "; return o + ")"; }
static int fid(int k) { return FD::Convert("F" + to_string(k)); }
struct Metric : public EvaluationMetric { bool err; Metric(bool e) : EvaluationMetric("VC"), err(e) {} bool IsErrorMetric() const { return err; } unsigned SufficientStatisticsVectorSize() const { return 2; } float ComputeScore(const SufficientStats& s) const { return s[0] / s[1]; } };
struct Eval : public SegmentEvaluator { void Evaluate(const vector<WordID>& h, SufficientStats* out) const { out->id_ = "VC"; out->fields = {float(h.size()), 7.0f + (h.empty() ? 0 : float(TD::Convert(h[0])[0] - 'a'))}; } };
struct Cand { S w; map<string, double> f; float s0, s1; };
static string text(const vector<Cand>& c) { string t; for (auto& k : c) { t += join(k.w) + "\n"; bool first = true; for (auto& e : k.f) { t += string(first ? "" : " ") + e.first + "=" + num(e.second); first = false; } t += "\nVC " + num(k.s0) + " " + num(k.s1) + "\n"; } return t; }
// ---- risk and entropy of a set of candidates
struct Obj { long double risk = 0, ent = 0; vector<long double> gr, ge; };
static Obj define(const vector<Cand>& c, bool err, const V& w, int nf) { Obj o; o.gr.assign(nf, 0); o.ge.assign(nf, 0); vector<long double> s(c.size()), p(c.size()); long double mx = -1e30L, z = 0; auto val = [&](int i, int k) { auto it = c[i].f.find("F" + to_string(k)); return it == c[i].f.end() ? 0.0L : (long double)it->second; };
  for (size_t i = 0; i < c.size(); ++i) { s[i] = 0; for (int k = 0; k < nf; ++k) s[i] += val(i, k) * w[k]; mx = max(mx, s[i]); } for (auto q : s) z += expl(q - mx); vector<long double> mean(nf, 0); for (size_t i = 0; i < c.size(); ++i) { p[i] = expl(s[i] - mx) / z; for (int k = 0; k < nf; ++k) mean[k] += p[i] * val(i, k); }
  for (size_t i = 0; i < c.size(); ++i) { long double sc = float(c[i].s0 / c[i].s1), cost = err ? sc : 1 - sc, lp = s[i] - mx - logl(z); o.risk += p[i] * cost; if (p[i] > 0) o.ent -= p[i] * lp; for (int k = 0; k < nf; ++k) { o.gr[k] += p[i] * (val(i, k) - mean[k]) * cost; if (p[i] > 0) o.ge[k] += p[i] * (val(i, k) - mean[k]) * lp; } } return o; }
static bool near(double a, long double b, double tol = 1e-9) { return fabsl(a - b) <= tol * (1 + fabsl(b)); }
static void objectives(vc::X& x, bool th) {
  const double FV[] = {0, 1, -1.5, 0.25}; const float CO[] = {0, 1, 0.5f, 0.25f}; const int nf = 3; const vector<V> PTS = {{0, 0, 0}, {1, -1, 0.5}, {-2, 0.3, 1}, {0, 30, -20}, {400, -300, 10}, {1e-7, -1e-7, 1}, {0.7, 0.7, 0.7}, {-1000, -900, 0}};
  const int n1 = 4 * 4 * 2; auto cand = [&](int k) { Cand c; c.w = {"a"}; if (FV[k % 4]) c.f["F0"] = FV[k % 4]; k /= 4; if (FV[k % 4]) c.f["F1"] = FV[k % 4]; k /= 4; if (k % 2) c.f["F2"] = 2; c.s0 = 0; c.s1 = 1; return c; };
  auto one = [&](vector<Cand> c) { for (size_t i = 0; i < c.size(); ++i) { c[i].w = {"w" + to_string(i)}; c[i].s0 = CO[(i + c.size() + c[i].f.size()) % 4]; } if (!x.take()) return; x.desc([=] { return text(c); }); if (c.size() > 1) x.nontrivial();
    put(x.dir + "/cs", text(c)); training::CandidateSet cs; cs.ReadFromFile(x.dir + "/cs"); if (!x.check(cs.size() == c.size(), "read-size", "another number of candidates")) return;
    for (auto& p : PTS) { V w(FD::NumFeats(), 0.0); for (int k = 0; k < nf; ++k) w[fid(k)] = p[k]; x.step();
      for (int e = 0; e < 2; ++e) { Metric m(e); Obj o = define(c, e, p, nf); SV g, g0; training::CandidateSetRisk risk(cs, m); double r = risk(w, &g), r0 = risk(w); if (!x.check(near(r, o.risk) && r0 == r, "risk", [&] { return "at " + vs(p) + " risk " + num(r) + " expected " + num(o.risk); })) return; for (int k = 0; k < nf; ++k) if (!x.check(near(g.value(fid(k)), o.gr[k]), "risk-gradient", [&] { return "at " + vs(p) + " d/dF" + to_string(k) + " " + num(g.value(fid(k))) + " expected " + num(o.gr[k]); })) return;
        // accumulates into what is there
        for (auto& q : g) if (!x.check(q.first >= fid(0) && q.first < fid(0) + nf, "stray-feature", "feature that no candidate has")) return; x.state(vc::hstr(num(r))); }
      Metric m(false); Obj o = define(c, false, p, nf); SV g; training::CandidateSetEntropy ent(cs); double h = ent(w, &g); if (!x.check(near(h, o.ent) && ent(w) == h, "entropy", [&] { return "at " + vs(p) + " entropy " + num(h) + " expected " + num(o.ent); })) return;
      // the direction the callers use: the gradient of the negative entropy
      for (int k = 0; k < nf; ++k) if (!x.check(near(g.value(fid(k)), o.ge[k]), "entropy-gradient", [&] { return "at " + vs(p) + " d/dF" + to_string(k) + " " + num(g.value(fid(k))) + " expected " + num(o.ge[k]); })) return; } };
  for (int k = 0; k < nf; ++k) fid(k);
  for (int a = 0; a < n1; ++a) one({cand(a)}); for (int a = 0; a < n1; ++a) for (int b = 0; b < n1; ++b) one({cand(a), cand(b)});
  int st = th ? 1 : 7, q = 0; for (int a = 0; a < n1; ++a) for (int b = a; b < n1; ++b) for (int d = b; d < n1; ++d) if (++q % st == 0) one({cand(a), cand(b), cand(d)}); if (th) for (int a = 0; a < n1; a += 3) for (int b = a; b < n1; b += 2) for (int d = b; d < n1; ++d) for (int e = d; e < n1; e += 3) one({cand(a), cand(b), cand(d), cand(e)}); }
// ---- candidate sets: save, load and merge
struct FE { string w; double a, b; };
static void forest(const vector<FE>& e, Hypergraph* hg) { auto* leaf = hg->AddNode(TD::Convert("X") * -1); auto* leaf_e = hg->AddEdge(TRulePtr(new TRule("[X] ||| x ||| x", false)), Hypergraph::TailNodeVector()); leaf_e->edge_prob_ = prob_t::One(); hg->ConnectEdgeToHeadNode(leaf_e, leaf); int l = leaf->id_; auto* n = hg->AddNode(TD::Convert("Y") * -1); int id = n->id_;
  for (auto& q : e) { Hypergraph::TailNodeVector t; string r; if (q.w.find('x') != string::npos) { t.push_back(l); string y = q.w; y.replace(y.find('x'), 1, "[1]"); r = "[Y] ||| [X,1] ||| " + y; } else r = "[Y] ||| f ||| " + q.w; TRulePtr tr; if (words(q.w).empty()) { tr.reset(new TRule("[Y] ||| f ||| f", false)); tr->e_.clear(); } else tr.reset(new TRule(r, false)); auto* ed = hg->AddEdge(tr, t); if (q.a) ed->feature_values_.set_value(fid(0), q.a); if (q.b) ed->feature_values_.set_value(fid(1), q.b); ed->edge_prob_ = prob_t(q.a, init_lnx()); hg->ConnectEdgeToHeadNode(ed, &hg->nodes_[id]); } }
typedef set<pair<string, string>> Set;   // yield, features to six digits
static string f6(double a, double b) { ostringstream o; o.precision(6); if (a) o << "F0=" << a << " "; if (b) o << "F1=" << b; return o.str(); }
static string yieldof(const FE& e) { return join(words(e.w)); }
static bool same(vc::X& x, const training::CandidateSet& cs, const Set& want, bool scored, const char* key) {
  Set got; for (size_t i = 0; i < cs.size(); ++i) { string y = TD::GetString(cs[i].ewords); auto e = make_pair(y, f6(cs[i].fmap.value(fid(0)), cs[i].fmap.value(fid(1)))); if (!x.check(got.insert(e).second, string(key) + "-twice", [&] { return "'" + y + "' " + e.second + " is there twice"; })) return false; SufficientStats s; if (scored) Eval().Evaluate(cs[i].ewords, &s); if (!x.check(s == cs[i].eval_feats && (!scored || cs[i].eval_feats.id_ == "VC"), string(key) + "-statistics", [&] { string t; cs[i].eval_feats.Encode(&t); return "'" + y + "' has statistics " + t; })) return false; }
  return x.check(got == want, string(key) + "-set", [&] { string t; for (auto& e : want) if (!got.count(e)) t += " lost '" + e.first + "' " + e.second; for (auto& e : got) if (!want.count(e)) t += " extra '" + e.first + "' " + e.second; return t; }); }
static void merging(vc::X& x, bool th) {
  const vector<FE> E = {{"a", 1, 0}, {"a", 0.5, 2}, {"a b", 0.25, 1.0 / 3}, {"x", 0.99999999999999989, 0}, {"x", 0.9, 0}, {"b x", -1, 0.3}, {"b x", -1.0, 0.30000000000000004}, {"", 2, 1}, {"a", -3, 0}, {"c", 0, 0}, {"b a x", -0.1, -123456.789}, {"c", -1e-9, 3e8}};
  const int n = E.size(); vector<vector<int>> F; for (int a = 0; a < n; ++a) { F.push_back({a}); for (int b = a + 1; b < n; ++b) { F.push_back({a, b}); if (th) for (int c = b + 1; c < n; ++c) F.push_back({a, b, c}); else F.push_back({a, b, (a + b + 3) % n == a || (a + b + 3) % n == b ? (a + b + 1) % n : (a + b + 3) % n}); } }
  // a history: up to three forests, each either added by k-best or by distinct k-best, saved and loaded in between or not
  const int NF = F.size(); auto go = [&](vector<int> f, int how) { if (!x.take()) return; x.desc([=] { string t; for (int i : f) { t += " forest:"; for (int k : F[i]) t += " (" + E[k].w + " " + num(E[k].a) + " " + num(E[k].b) + ")"; } return t + " way " + to_string(how); }); x.nontrivial(); const bool scored = !(how & 8), uniq = how & 4; training::CandidateSet cs; Set want; string file = x.dir + "/kb" + (how & 2 ? ".gz" : ".txt"); Eval ev;
    for (size_t i = 0; i < f.size(); ++i) { Hypergraph hg; vector<FE> fe; for (int k : F[f[i]]) fe.push_back(E[k]); forest(fe, &hg); if (uniq) { map<string, FE> best; for (auto& e : fe) { auto it = best.find(yieldof(e)); if (it == best.end() || it->second.a < e.a) best[yieldof(e)] = e; } bool tie = false; for (auto& e : fe) { auto& b = best[yieldof(e)]; if (b.a == e.a && f6(b.a, b.b) != f6(e.a, e.b)) tie = true; } if (tie) return; for (auto& b : best) want.insert({b.first, f6(b.second.a, b.second.b)}); cs.AddUniqueKBestCandidates(hg, 50, scored ? &ev : NULL); }
      else { size_t k = how & 16 ? 1 : 50; vector<FE> s = fe; stable_sort(s.begin(), s.end(), [](const FE& a, const FE& b) { return a.a > b.a; }); if (s.size() > k) { if (s[k].a == s[k - 1].a && s[k].b != s[k - 1].b) return; s.resize(k); } for (auto& e : s) want.insert({yieldof(e), f6(e.a, e.b)}); cs.AddKBestCandidates(hg, k, scored ? &ev : NULL); }
      x.step(); if (!same(x, cs, want, scored, "merged")) return;
      if (how & 1) { cs.WriteToFile(file); training::CandidateSet c2; c2.ReadFromFile(file); if (!same(x, c2, want, scored, "loaded")) return; cs = c2; } }
    string st; for (auto& e : want) st += e.first + e.second; x.state(vc::hstr(st)); };
  for (int a = 0; a < NF; ++a) for (int how = 0; how < 32; ++how) { if ((how & 4) && (how & 16)) continue; go({a}, how); go({a, a}, how); go({a, a, a}, how); }
  int q = 0; for (int a = 0; a < NF; ++a) for (int b = 0; b < NF; ++b) for (int how : {0, 1, 3, 5, 4, 16, 17}) if (++q % (th ? 5 : 9) == 0) go({a, b}, how); if (th) for (int a = 0; a < NF; a += 3) for (int b = 0; b < NF; b += 5) for (int c = 0; c < NF; c += 7) go({a, b, c}, (a + b + c) % 2 ? 1 : 5); }
// ---- optimisers
struct Fun { string name; int n; function<double(const V&, V*)> f; V best; double low; bool smooth1; };
static vector<Fun> functions() {
  vector<Fun> r; const double SC[] = {1, 0.01, 25, 1e4};
  for (double a : SC) for (double b : SC) for (double rho : {0.0, 0.9, -0.5}) { double c = rho * sqrt(a * b); for (int k = 0; k < 2; ++k) { V m = k ? V{3, -1} : V{0, 0}; r.push_back({"quadratic " + num(a) + " " + num(b) + " " + num(c) + " around " + vs(m), 2, [=](const V& x, V* g) { double u = x[0] - m[0], v = x[1] - m[1]; (*g)[0] = a * u + c * v; (*g)[1] = b * v + c * u; return 0.5 * a * u * u + 0.5 * b * v * v + c * u * v; }, m, 0, rho == 0 }); } }
  r.push_back({"one variable", 1, [](const V& x, V* g) { (*g)[0] = 2 * (x[0] - 5); return (x[0] - 5) * (x[0] - 5) + 4; }, {5}, 4, true});
  r.push_back({"unused variable", 3, [](const V& x, V* g) { (*g)[0] = 2 * (x[0] - 1); (*g)[1] = 0; (*g)[2] = 4 * (x[2] + 2); return (x[0] - 1) * (x[0] - 1) + 2 * (x[2] + 2) * (x[2] + 2); }, {1, 0, -2}, 0, true});
  for (int k = 0; k < 4; ++k) r.push_back({"log-linear " + to_string(k), 2, [=](const V& x, V* g) { const double C = k % 2 ? 0.1 : 1; double o = C * (x[0] * x[0] + x[1] * x[1]); (*g)[0] = 2 * C * x[0]; (*g)[1] = 2 * C * x[1]; const double D[3][2] = {{1, 0}, {-0.5, 2}, {1, k > 1 ? -3.0 : 1.0}}; for (auto& d : D) { double s = d[0] * x[0] + d[1] * x[1], p = 1 / (1 + exp(s)); o += log1p(exp(-s)); (*g)[0] -= p * d[0]; (*g)[1] -= p * d[1]; } return o; }, {}, 0, false});
  return r; }
static unique_ptr<BatchOptimizer> make(int kind, int n) { if (kind == 0) return unique_ptr<BatchOptimizer>(new RPropOptimizer(n)); return unique_ptr<BatchOptimizer>(new LBFGSOptimizer(n, kind == 1 ? 10 : 1)); }
static void optimisers(vc::X& x, bool th) {
  auto F = functions(); const vector<V> ST = {{0, 0, 0}, {1, 1, 1}, {-4, 7, 0.5}, {100, -30, 2}, {1e-3, 0, -1e-3}};
  for (auto& f : F) for (auto& s0 : ST) for (int kind = 0; kind < 3; ++kind) { if (!x.take()) continue; V s(s0.begin(), s0.begin() + f.n); x.desc([=] { return f.name + " from " + vs(s) + " optimiser " + to_string(kind); }); x.nontrivial();
      V p = s, g(f.n); auto o = make(kind, f.n); const int limit = kind ? 300 : 3000; int it = 0; double start = 0; bool threw = false; vector<V> path; V seen; double bestobj = 1e300; V gs(f.n); double gn0 = 0;
      for (; it < limit && !o->HasConverged(); ++it) { double v = f.f(p, &g); if (!it) { start = v; for (double q : g) gn0 += q * q; } if (v < bestobj) bestobj = v; path.push_back(p); if (!x.check(o->EvaluationCount() == it + 1, "evaluation-count", "wrong evaluation count")) break; V was = p; bool allzero = true; for (double q : g) if (q) allzero = false; try { o->Optimize(v, g, &p); } catch (std::exception& e) { threw = true; break; } x.step();
        if (kind == 0) for (int i = 0; i < f.n; ++i) if (g[i] == 0 && !x.check(p[i] == was[i], "moved-without-slope", [&] { return "variable " + to_string(i) + " moves from " + num(was[i]) + " to " + num(p[i]) + " although its derivative is zero"; })) { i = f.n; it = limit; }
        if (kind && allzero) { for (int i = 0; i < f.n; ++i) if (!x.check(p[i] == was[i], "moved-without-slope", "leaves a stationary point")) it = limit; break; } }
      V gg(f.n); double end = f.f(p, &gg); if (gn0 > 0 && !threw) { x.check(o->HasConverged() || gn0 < 1e-20 || (kind == 0 && f.best.size() && bestobj - f.low < 1e-6 * (1 + start - f.low)), "not-converged", [&] { return "no convergence after " + to_string(it) + " evaluations, objective " + num(end); }); x.check(end <= start + 1e-12 * (1 + fabs(start)), "not-improved", [&] { return "objective " + num(end) + ", at the start " + num(start); }); if (f.best.size()) { double e = 0, sc = 0; x.check(end - f.low <= 1e-4 * (1 + start - f.low), "not-optimal", [&] { return "ends at " + vs(p) + " with " + num(end) + ", the optimum is " + num(f.low); }); (void)e; (void)sc; } else { double gn = 0; for (double q : gg) gn += q * q; x.check(sqrt(gn) <= 1e-2, "not-optimal", [&] { return "ends at " + vs(p) + " with slope " + num(sqrt(gn)); }); } }
      if (threw) x.stat("line_search_gave_up"); x.state(vc::hstr(vs(p)));
      // saved and loaded before every evaluation: the same path
      V q = s, g2(f.n); string state; bool done = false; for (size_t k = 0; k < path.size() && !done; ++k) { if (!x.check(q == path[k], "resumed-path", [&] { return "evaluation " + to_string(k) + " at " + vs(q) + ", uninterrupted at " + vs(path[k]); })) break; auto r = make(kind, f.n); if (state.size()) { istringstream is(state, ios::binary); r->Load(&is); } double v = f.f(q, &g2); try { r->Optimize(v, g2, &q); } catch (std::exception& e) { break; } ostringstream os(ios::binary); r->Save(&os); state = os.str(); done = r->HasConverged(); x.step(); } } }
// ---- the l1 capable minimiser
static void minimiser(vc::X& x, bool th) {
  for (double a : {0.5, 1.0, 40.0}) for (double b : {1.0, 0.02}) for (double m0 : {0.0, 1.0, -3.0, 0.2}) for (double m1 : {2.0, -0.4, 0.0}) for (double C : {0.0, 0.1, 1.0, 50.0}) for (int st = 0; st < 2; ++st) for (int from = 0; from < 3; ++from) for (int mem : {1, 10}) { if (!th && (from + mem + st) % 2) continue; if (!x.take()) continue; x.desc([=] { return "a " + num(a) + " b " + num(b) + " at " + num(m0) + " " + num(m1) + " C " + num(C) + " first penalised " + to_string(st) + " from " + to_string(from) + " buffers " + to_string(mem); }); x.nontrivial();
      struct Q { double a, b, m0, m1; double operator()(const V& x, double* g) const { g[0] = 2 * a * (x[0] - m0); g[1] = 2 * b * (x[1] - m1); return a * (x[0] - m0) * (x[0] - m0) + b * (x[1] - m1) * (x[1] - m1); } } q = {a, b, m0, m1};
      V p = from == 0 ? V{0, 0} : from == 1 ? V{1, 1} : V{-5, 0.1}; V start = p; auto full = [&](const V& v) { V g(2); return q(v, &g[0]) + (st ? 0 : C * fabs(v[0])) + C * fabs(v[1]); }; LBFGS<Q> l(&p, q, mem, C, st, 1e-6); int ret = l.MinimizeFunction(true); x.step();
      auto soft = [](double m, double a, double c) { double t = c / (2 * a); return m > t ? m - t : m < -t ? m + t : 0.0; }; V want = {soft(m0, a, st ? 0 : C), soft(m1, b, C)}; x.check(full(p) <= full(start) + 1e-12, "worse", [&] { return "objective " + num(full(p)) + " at the end, " + num(full(start)) + " at the start"; });
      if (ret >= 0) x.check(full(p) - full(want) <= 1e-7 * (1 + full(start)), "minimiser", [&] { return "ends at " + vs(p) + " (" + num(full(p)) + "), expected " + vs(want) + " (" + num(full(want)) + ")"; }); else { x.stat("minimiser_status"); x.check(full(p) - full(want) <= 1e-3 * (1 + full(start)), "minimiser-status", [&] { return "status " + to_string(ret) + " at " + vs(p) + ", optimum " + vs(want); }); } x.state(vc::hstr(vs(p))); } }
// ---- online learning with a cumulative penalty
static void online(vc::X& x, bool th) {
  const vector<vector<pair<int, double>>> G = {{}, {{0, 1}}, {{0, -2}, {1, 0.5}}, {{1, -0.01}}, {{2, 3}}}; const int D = th ? 5 : 4; int f0 = fid(0); fid(1); fid(2);
  for (int sched = 0; sched < 3; ++sched) for (double C : {0.0, 0.3, 2.0}) for (int fr = 0; fr < 2; ++fr) { int ops = G.size() + 1; long total = 1; for (int i = 0; i < D; ++i) total *= ops;
      for (long h = 0; h < total; ++h) { if (!x.take()) continue; x.desc([=] { string t = "schedule " + to_string(sched) + " C " + num(C) + " frozen " + to_string(fr) + " operations"; long q = h; for (int i = 0; i < D; ++i) { t += " " + to_string(q % ops); q /= ops; } return t; }); x.nontrivial();
        const double eta0 = sched == 1 ? 0.5 : 0.2; const size_t N = sched == 2 ? 4 : 1; boost::shared_ptr<LearningRateSchedule> lr; if (sched == 0) lr.reset(new StandardLearningRate(N, eta0)); else lr.reset(new ExponentialDecayLearningRate(N, eta0, 0.5)); vector<int> frozen; if (fr) frozen.push_back(fid(1)); const size_t inst = 2; CumulativeL1OnlineOptimizer o(lr, inst, C, frozen); SV w; w.set_value(fid(0), 0.5); w.set_value(fid(1), -0.25); V r = {0.5, -0.25, 0}, qq(3, 0.0); double u = 0; int k = 0; long q = h; bool good = true;
        for (int i = 0; i < D && good; ++i) { int op = q % ops; q /= ops; x.step(); if (op == ops - 1) { o.ResetEpoch(); k = 0; u = 0; qq.assign(3, 0.0); continue; } ++k; double eta = sched == 0 ? eta0 / (1 + k / double(N)) : eta0 * pow(0.5, k / double(N)); good = x.check(fabs(lr->eta(k) - eta) < 1e-12, "learning-rate", [&] { return "rate " + num(lr->eta(k)) + " expected " + num(eta); });
          SV g; for (auto& e : G[op]) g.set_value(fid(e.first), e.second); o.UpdateWeights(g, f0 + 3, &w); u += eta * C / inst; for (auto& e : G[op]) if (!(fr && e.first == 1)) r[e.first] += eta * e.second;
          for (int j = 0; j < 3; ++j) if (!(fr && j == 1)) { double z = r[j]; if (z > 0) r[j] = max(0.0, z - (u + qq[j])); else if (z < 0) r[j] = min(0.0, z + (u - qq[j])); good = good && x.check(fabs(r[j]) <= fabs(z) + 1e-15, "reference", "the penalty raises a weight"); qq[j] += r[j] - z; }
          for (int j = 0; j < 3 && good; ++j) good = x.check(fabs(w.value(fid(j)) - r[j]) < 1e-12, "online-weight", [&] { return "after operation " + to_string(i) + " weight " + to_string(j) + " is " + num(w.value(fid(j))) + ", expected " + num(r[j]); }); }
        x.state(vc::hstr(vs(r))); } } }
static void run_all(vc::X& x) { SetSilent(true); bool th = x.thorough; objectives(x, th); merging(x, th); optimisers(x, th); minimiser(x, th); online(x, th); }
VC_MAIN(run_all)
