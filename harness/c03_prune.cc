// C03: pruning keeps what it promises to keep.
#include "hgspace.h"
#include "hgreal.h"
#include "viterbi.h"
#include "inside_outside.h"
#include "verbose.h"
using namespace std;
static double lse(const vector<double>& v) { double m = -INFINITY; for (double x : v) m = max(m, x); if (m == -INFINITY) return m; double s = 0; for (double x : v) s += exp(x - m); return m + log(s); }

struct Setting { double alpha, density; bool sum; double scale; bool safe; int pres; };
static string sstr(const Setting& s) { ostringstream o; o << "beam=" << s.alpha << " density=" << s.density << (s.sum ? " sum scale=" : " max scale=") << s.scale << (s.safe ? " safe" : "") << " preserve=" << s.pres; return o.str(); }

static void one(vc::X& x, const AHG& h, const Hypergraph& hg0, const vector<vector<Deriv>>& D, const Setting& s) {
  const int ne = h.e.size(); auto& G = D.back();
  Hypergraph hg = hg0;
  // log marginals of each abstract edge
  vector<double> mm(ne, -INFINITY); double best = -INFINITY; vector<double> tot; vector<vector<double>> occ(ne);
  const Deriv* bd = 0; int nbest = 0;
  for (auto& d : G) { tot.push_back(d.lp * s.scale); if (d.lp > best) best = d.lp, bd = &d; vector<int> c(ne); for (int i : d.edges) { c[i]++; mm[i] = max(mm[i], d.lp); } for (int i = 0; i < ne; ++i) if (c[i]) occ[i].push_back(d.lp * s.scale + log(c[i])); }
  for (auto& d : G) if (d.lp > best - 1e-9) ++nbest;
  if (s.sum) { double Z = lse(tot); for (int i = 0; i < ne; ++i) mm[i] = lse(occ[i]) - Z; }
  else for (int i = 0; i < ne; ++i) mm[i] -= best;
  // cutoff
  double cut = 0; bool active = true, dens = s.density != 0;
  size_t plen = bd->edges.size(); 
  if (dens && nbest > 1) { size_t q = 0; for (auto& d : G) if (d.lp > best - 1e-9) { if (q == 0) q = d.edges.size(); else if (q != d.edges.size()) { x.stat("ambiguous_best_length"); return; } } plen = q; }
  size_t rnum = ne;
  if (dens) { rnum = min<size_t>(ne, (size_t)(s.density * plen)); if (rnum == (size_t)ne) { dens = false; if (s.alpha == 0) active = false; } }
  vector<double> sorted = mm; sort(sorted.rbegin(), sorted.rend());
  bool dens_won = false;
  if (active) {
    if (dens) { cut = sorted[rnum]; dens_won = true; }
    if (s.alpha != 0) { double top = 0; if (s.sum) for (double v : mm) top = max(top, v); double bc = top - s.alpha; if (!(dens && cut > bc)) { cut = bc; dens_won = false; } 
      if (dens && fabs(sorted[rnum] - bc) < 1e-6) { x.stat("ambiguous_beam_vs_density"); return; } }
  }
  vector<bool> pres; 
  if (s.pres >= 0) { pres.assign(ne, false); if (s.pres < 1000) for (int i : G[s.pres % G.size()].edges) pres[i] = true; else pres[(s.pres - 1000) % ne] = true; }
  // classify
  enum { DROP, KEEP, MAYBE }; vector<int> cls(ne, KEEP);
  if (active) for (int i = 0; i < ne; ++i) {
    double tol = 1e-9 + fabs(cut) * 1e-6 * (ne + 1);
    cls[i] = mm[i] > cut + tol ? KEEP : mm[i] < cut - tol ? DROP : MAYBE;
    if (cls[i] == MAYBE && dens_won && nbest == 1) { if (cut < -1e-9) x.stat("edge_at_density_cutoff"); }
    if (s.pres >= 0 && pres[i]) cls[i] = KEEP;
  }
  Hypergraph::EdgeMask pm; if (s.pres >= 0) for (int i = 0; i < ne; ++i) pm.push_back(pres[i]);
  bool won = hg.PruneInsideOutside(s.alpha, s.density, s.pres >= 0 ? &pm : NULL, s.sum, s.scale, s.safe);
  x.check(won == (active && dens_won), "density-won", "return value does not say whether density was the tighter criterion");
  x.step(ne);
  string bad = HGReal::sound(hg, true, false);
  if (!x.check(bad.empty(), "unsound", [&] { return sstr(s) + ": pruned forest is inconsistent: " + bad; })) return;
  set<int> left; for (auto& e : hg.edges_) left.insert(HGSpace::eid(e, ne));
  vector<RDeriv> R; HGReal::goal_derivs(hg, &R, 5000, false);
  map<vector<int>, const Deriv*> by; for (auto& d : G) by[d.edges] = &d;
  set<vector<int>> got;
  for (auto& r : R) { vector<int> id; for (int e : r.edges) id.push_back(HGSpace::eid(hg.edges_[e], ne));
    auto f = by.find(id);
    if (!x.check(f != by.end(), "invented", [&] { return sstr(s) + ": pruned forest has a derivation that the original does not: " + vc::str(id); })) continue;
    x.check(vc::close(f->second->lp, r.lp), "score", [&] { return sstr(s) + ": pruning changed the score of a derivation"; });
    x.check(got.insert(id).second, "repeated", "a derivation occurs twice after pruning"); }
  bool exact = true; for (int c : cls) if (c == MAYBE) exact = false;
  size_t want = 0;
  for (auto& d : G) { int k = KEEP; for (int i : d.edges) { if (cls[i] == DROP) { k = DROP; break; } if (cls[i] == MAYBE) k = MAYBE; }
    if (k == KEEP) { ++want; x.check(got.count(d.edges), "lost", [&] { ostringstream o; o << sstr(s) << ": derivation " << vc::str(d.edges) << " (log score " << d.lp << ", best " << best << ", cutoff " << cut << ") was removed though all its edges are within the limits"; return o.str(); }); }
    if (k == DROP) x.check(!got.count(d.edges), "kept", [&] { ostringstream o; o << sstr(s) << ": derivation " << vc::str(d.edges) << " uses an edge outside the limits (cutoff " << cut << ") but survived"; return o.str(); }); }
  if (s.pres >= 0 && s.pres < 1000) x.check(got.count(G[s.pres % G.size()].edges), "preserve", [&] { return sstr(s) + ": a derivation all of whose edges were to be preserved is gone"; });
  if (!s.sum) {
    bool any = false; for (auto& d : G) if (d.lp > best - 1e-9 && got.count(d.edges)) any = true;
    x.check(any, "best-lost", [&] { return sstr(s) + ": no best derivation survived"; });
    if (s.pres < 1000) { string b2 = HGReal::sound(hg, true, true); x.check(b2.empty(), "useless", [&] { return sstr(s) + ": pruned forest has useless parts: " + b2; }); }
    if (active && dens_won && s.pres < 0 && nbest == 1) { // at most the requested number, unless ties
      x.check(left.size() <= max(rnum, plen), "too-many", [&] { ostringstream o; o << sstr(s) << ": " << left.size() << " edges left, asked for " << rnum; return o.str(); });
      if (sorted[rnum - 1] > sorted[rnum] + 1e-4) x.check(left.size() == rnum, "density-count", [&] { ostringstream o; o << sstr(s) << ": " << left.size() << " edges left, asked for " << rnum; return o.str(); }); }
  } else if (s.safe && want) { string b2 = HGReal::sound(hg, true, true); x.check(b2.empty(), "useless", [&] { return sstr(s) + ": pruned forest has useless parts: " + b2; }); }
  if (got.size() < G.size()) x.nontrivial();
  x.stat("derivations_kept", got.size()); x.stat("derivations_total", G.size());
  uint64_t hh = 0; for (int i : left) hh = vc::mix(hh, i); x.state(vc::mix(hh, vc::hdbl(cut)));
}
static void run(vc::X& x) {
  SetSilent(true);
  HGSpace::standard(x.thorough ? 2 : 1, [&](AHG& h0) {
    const int np = h0.n == 4 && !x.thorough ? 1 : x.thorough ? 5 : 3;
    for (int p = 0; p < np; ++p) {
      if (!x.take()) continue;
      AHG h = h0; HGSpace::weigh(&h, np == 1 ? (h.e.size() % 2 ? 3 : 0) : np == 3 ? p * 2 : p);
      if (p == np - 1 && np > 1) { for (size_t i = 0; i < h.e.size(); ++i) h.e[i].lp = i % 2 ? -0.3 : -0.1; }   // ties that do not add up exactly
      x.desc([h] { return h.str(); });
      vector<vector<Deriv>> D; if (!HGSpace::derivs(h, &D, 400)) { x.stat("skipped_too_many_derivations"); continue; }
      // every node must be useful, as in any forest the decoder produces
      vector<bool> used(h.n); for (auto& d : D.back()) for (int i : d.edges) used[h.e[i].head] = true;
      bool ok = true; for (bool u : used) ok = ok && u;
      set<int> ue; for (auto& d : D.back()) for (int i : d.edges) ue.insert(i);
      if (!ok || ue.size() != h.e.size()) { x.stat("skipped_useless_parts"); continue; }
      Hypergraph hg0; HGSpace::build(h, &hg0);
      for (double alpha : {0.0, 0.17, 1.03, 2.61, 11.3}) for (double dens : {0.0, 1.0, 1.3, 2.0}) {
        if (alpha == 0 && dens == 0) continue;
        if (!x.thorough && h.n == 4 && (alpha == 0.17 || alpha == 11.3 || dens == 1.3)) continue;
        for (int safe = 0; safe < 2; ++safe) {
          one(x, h, hg0, D, {alpha, dens, false, 1, (bool)safe, -1});
          if (!x.thorough && h.n == 4 && dens == 1.3) continue;
          one(x, h, hg0, D, {alpha, dens, false, 1, (bool)safe, (int)D.back().size() - 1});
          if (D.back().size() > 2) one(x, h, hg0, D, {alpha, dens, false, 1, (bool)safe, (int)D.back().size() / 2});
        }
        one(x, h, hg0, D, {alpha, dens, true, 1, true, -1});
        one(x, h, hg0, D, {alpha, dens, true, 0.4, true, -1});
        one(x, h, hg0, D, {alpha, dens, true, 2.0, true, (int)h.e.size() / 2});
      }
    }
  });
}
VC_MAIN(run)
