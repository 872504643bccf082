// C01: inside/outside scores, posteriors and expectations equal sums over all derivations.
#include "hgspace.h"
#include "inside_outside.h"
#include "viterbi.h"
#include "sparse_vector.h"
using namespace std;
typedef LogVal<double> P;
static double lg(const P& p) { return log(p); }
static double lse(const vector<double>& v) { double m = -INFINITY; for (double x : v) m = max(m, x); if (m == -INFINITY) return m; double s = 0; for (double x : v) s += exp(x - m); return m + log(s); }
struct FeatW { typedef SparseVector<P> Result; typedef SparseVector<P> Weight;
  SparseVector<P> operator()(const HG::Edge& e) const { return EdgeFeaturesAndProbWeightFunction()(e); } };

static void one(vc::X& x, const AHG& h, bool rev, double scale) {
  vector<vector<Deriv>> D;
  if (!HGSpace::derivs(h, &D)) { x.stat("skipped_too_many_derivations"); return; }
  Hypergraph hg; HGSpace::build(h, &hg, rev);
  const int ne = h.e.size();
  auto& G = D.back();
  if (G.size() > 1) x.nontrivial();
  x.stat("derivations", G.size());
  // real edge index -> abstract
  vector<int> ab(ne); for (int i = 0; i < ne; ++i) ab[i] = HGSpace::eid(hg.edges_[i], ne);
  // references
  vector<double> in(h.n), occ(h.n, -INFINITY), em(ne, -INFINITY), best(ne, -INFINITY), nvit(h.n, -INFINITY), posts(ne, -INFINITY);
  for (int v = 0; v < h.n; ++v) { vector<double> t; for (auto& d : D[v]) { t.push_back(d.lp); nvit[v] = max(nvit[v], d.lp); } in[v] = lse(t); }
  vector<double> tot, tots;
  vector<vector<double>> eo(ne), no(h.n), eos(ne);
  double fpos_exp = 0;
  for (auto& d : G) {
    tot.push_back(d.lp); tots.push_back(d.lp * scale);
    vector<int> ec(ne), nc(h.n);
    for (int id : d.edges) { ec[id]++; nc[h.e[id].head]++; best[id] = max(best[id], d.lp); }
    for (int i = 0; i < ne; ++i) if (ec[i]) { eo[i].push_back(d.lp + log(ec[i])); eos[i].push_back(scale * d.lp + log(ec[i])); }
    for (int v = 0; v < h.n; ++v) if (nc[v]) no[v].push_back(d.lp + log(nc[v]));
  }
  double Z = lse(tot);
  x.check(vc::close(hg.NumberOfPaths(), (double)G.size()), "paths", [&] { ostringstream o; o << "NumberOfPaths=" << hg.NumberOfPaths() << " expected " << G.size(); return o.str(); });
  // inside
  vector<P> ins, outs;
  P z = Inside<P, EdgeProb>(hg, &ins);
  x.check(vc::close(lg(z), Z, 1e-8), "inside-root", [&] { ostringstream o; o << "log inside=" << lg(z) << " expected " << Z; return o.str(); });
  for (int v = 0; v < h.n; ++v) x.check(vc::close(lg(ins[v]), in[v], 1e-8), "inside-node", [&] { ostringstream o; o << "node " << v << " log inside=" << lg(ins[v]) << " expected " << in[v]; return o.str(); });
  Outside<P, EdgeProb>(hg, ins, &outs);
  for (int v = 0; v < h.n; ++v) {
    double got = lg(ins[v]) + lg(outs[v]), want = lse(no[v]);
    x.check(vc::close(got, want, 1e-8), "outside-node", [&] { ostringstream o; o << "node " << v << " log(inside*outside)=" << got << " expected (sum over derivations of p * uses of the node)=" << want; return o.str(); });
    x.state(vc::mix(vc::hdbl(lg(ins[v])), vc::hdbl(lg(outs[v]))));
  }
  // expectations
  SparseVector<P> ex;
  P z2 = InsideOutside<P, EdgeProb, SparseVector<P>, EdgeFeaturesAndProbWeightFunction>(hg, &ex);
  x.check(vc::close(lg(z2), Z, 1e-8), "io-root", "InsideOutside returned a different partition function");
  for (int i = 0; i < ne; ++i) {
    double got = lg(ex.value(HGSpace::fid(i))), want = lse(eo[i]);
    x.check(vc::close(got, want, 1e-8), "expectation", [&] { ostringstream o; o << "expected count of edge e" << i << ": log=" << got << " expected " << want; return o.str(); });
  }
  { // real-valued feature G, possibly negative
    double s = 0, mx = Z; for (auto& d : G) { double f = 0; for (int id : d.edges) f += h.e[id].feat; s += f * exp(d.lp - mx); }
    P g = ex.value(FD::Convert("G")); double got = (g.s_ ? -1.0 : 1.0) * exp(log(P(fabs(1.0)) ) ) ; P gg = g / z2; got = gg.as_float();
    x.check(vc::close(got, s, 1e-6), "expectation-signed", [&] { ostringstream o; o << "E[G]=" << got << " expected " << s; return o.str(); });
  }
  // edge posteriors
  vector<P> post; P zp = hg.ComputeEdgePosteriors(scale, &post);
  double Zs = lse(tots);
  x.check(vc::close(lg(zp), Zs, 1e-8), "posterior-root", [&] { ostringstream o; o << "scale " << scale << ": log Z=" << lg(zp) << " expected " << Zs; return o.str(); });
  for (int i = 0; i < ne; ++i) x.check(vc::close(lg(post[i]), lse(eos[ab[i]]), 1e-8), "posterior-edge", [&] { ostringstream o; o << "scale " << scale << " edge e" << ab[i] << " log posterior mass=" << lg(post[i]) << " expected " << lse(eos[ab[i]]); return o.str(); });
  vector<P> bp; P vb = hg.ComputeBestPathThroughEdges(&bp);
  double bb = -INFINITY; for (auto& d : G) bb = max(bb, d.lp);
  x.check(vc::close(lg(vb), bb, 1e-8), "maxmarginal-root", "ComputeBestPathThroughEdges root");
  for (int i = 0; i < ne; ++i) x.check(vc::close(lg(bp[i]), best[ab[i]], 1e-8), "maxmarginal-edge", [&] { ostringstream o; o << "best derivation through e" << ab[i] << ": log=" << lg(bp[i]) << " expected " << best[ab[i]]; return o.str(); });
  // node/edge viterbi
  vector<P> nv, ev; hg.ComputeNodeViterbi(&nv); P er = hg.ComputeEdgeViterbi(&ev);
  for (int v = 0; v < h.n; ++v) x.check(vc::close(lg(nv[v]), nvit[v], 1e-8), "node-viterbi", "ComputeNodeViterbi");
  for (int i = 0; i < ne; ++i) { double w = h.e[ab[i]].lp; for (int t : h.e[ab[i]].tails) w += nvit[t]; x.check(vc::close(lg(ev[i]), w, 1e-8), "edge-viterbi", "ComputeEdgeViterbi"); }
  // marginals through the InsideOutsides object, with normalisation
  InsideOutsides<P> io; io.compute(hg, OutsideNormalize<P>(), EdgeProb()); vector<P> mm; io.compute_edge_marginals(hg, mm, EdgeProb());
  for (int i = 0; i < ne; ++i) x.check(vc::close(lg(mm[i]), lse(eo[ab[i]]) - Z, 1e-8), "edge-marginal", [&] { ostringstream o; o << "normalised marginal of e" << ab[i] << " log=" << lg(mm[i]) << " expected " << lse(eo[ab[i]]) - Z; return o.str(); });
  x.step(4 * ne + 4 * h.n + 6);
  // weight pushing to the goal preserves the (scaled) distribution: every derivation gets its posterior
  { Hypergraph g2 = hg; P pz = g2.PushWeightsToGoal(scale);
    x.check(vc::close(lg(pz), Zs, 1e-8), "push-root", "PushWeightsToGoal root");
    vector<double> pl(ne); for (int i = 0; i < ne; ++i) pl[ab[i]] = lg(g2.edges_[i].edge_prob_);
    bool dup = false; for (auto& d : G) { set<int> s; for (int id : d.edges) if (!s.insert(h.e[id].head).second) dup = true; }
    for (auto& d : G) { double s = 0; for (int id : d.edges) s += pl[id];
      x.check(vc::close(s, d.lp * scale - Zs, 1e-7), "push-goal", [&] { ostringstream o; o << "after PushWeightsToGoal(" << scale << ") derivation has log weight " << s << " expected posterior " << d.lp * scale - Zs; return o.str(); }); }
    x.step(G.size());
  }
  { Hypergraph g2 = hg; P r = g2.PushViterbiWeightsToGoal();
    vector<double> pl(ne); for (int i = 0; i < ne; ++i) pl[ab[i]] = lg(g2.edges_[i].edge_prob_);
    x.check(vc::close(lg(r), bb, 1e-8), "pushv-root", "PushViterbiWeightsToGoal root");
    for (auto& d : G) { double s = 0; for (int id : d.edges) s += pl[id];
      x.check(vc::close(s, d.lp - bb, 1e-7), "push-viterbi", [&] { ostringstream o; o << "after PushViterbiWeightsToGoal derivation has log weight " << s << " expected " << d.lp - bb; return o.str(); }); }
  }
}
static void run(vc::X& x) {
  int level = x.thorough ? 2 : 1;
  HGSpace::standard(level, [&](AHG& h0) {
    const int np = x.thorough ? 5 : (h0.n <= 3 ? 4 : 2);
    for (int p = 0; p < np; ++p) for (int rev = 0; rev < 2; ++rev) {
      if (rev && (h0.n == 4 && !x.thorough && p)) continue;
      if (!x.take()) continue;
      AHG h = h0; HGSpace::weigh(&h, p == 1 && h.n == 4 && !x.thorough ? 2 : p);
      double sc = (p % 2 == 0) ? 1.0 : 0.5;
      x.desc([h, rev, sc] { ostringstream o; o << h.str() << (rev ? " (edges inserted in reverse)" : "") << " scale=" << sc; return o.str(); });
      one(x, h, rev, sc);
    }
  });
}
VC_MAIN(run)
