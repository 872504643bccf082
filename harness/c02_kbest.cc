// C02: Viterbi and lazy k-best lists against the explicit list of derivations.
#include "hgspace.h"
#include "viterbi.h"
#include "kbest.h"
#include "inside_outside.h"
using namespace std;
typedef vector<HG::Edge const*> Path;
static vector<int> ids(const Path& p, int ne) { vector<int> r; for (auto e : p) r.push_back(HGSpace::eid(*e, ne)); return r; }
static string ids_str(const vector<int>& v) { return vc::str(v); }

static string tree(const AHG& h, const vector<int>& post, size_t& pos, bool src) {  // consume post-order from the end
  const AEdge& e = h.e[post[--pos]];
  vector<string> kid(e.tails.size());
  for (int k = (int)e.tails.size() - 1; k >= 0; --k) kid[k] = tree(h, post, pos, src);
  string s = "(X"; int c = 0;
  for (auto& w : (src ? fpattern(e) : epattern(e))) { s += ' '; if (w[0] == '[') s += src ? kid[c++] : kid[w[1] - '1']; else s += w; }
  return s + ")";
}

static void one(vc::X& x, const AHG& h, bool rev) {
  vector<vector<Deriv>> D;
  if (!HGSpace::derivs(h, &D, 3000)) { x.stat("skipped_too_many_derivations"); return; }
  Hypergraph hg; HGSpace::build(h, &hg, rev);
  const int ne = h.e.size();
  auto& G = D.back();
  if (G.size() > 1) x.nontrivial();
  x.stat("derivations", G.size());
  map<vector<int>, const Deriv*> byp; for (auto& d : G) byp[d.edges] = &d;
  vector<double> sc; map<string, double> bestof;
  for (auto& d : G) { sc.push_back(d.lp); auto r = bestof.insert({d.ystr(), d.lp}); r.first->second = max(r.first->second, d.lp); }
  sort(sc.rbegin(), sc.rend());
  // --- Viterbi
  Path p; prob_t v = Viterbi<ViterbiPathTraversal>(hg, &p);
  vector<int> pid = ids(p, ne);
  x.check(vc::close(log(v), sc[0]), "viterbi-score", [&] { ostringstream o; o << "Viterbi log score " << log(v) << " best derivation " << sc[0]; return o.str(); });
  auto it = byp.find(pid);
  if (!x.check(it != byp.end(), "viterbi-path", [&] { return "Viterbi path " + ids_str(pid) + " is not a derivation"; })) return;
  const Deriv& b = *it->second;
  x.check(vc::close(b.lp, sc[0]), "viterbi-not-best", [&] { ostringstream o; o << "path " << ids_str(pid) << " has score " << b.lp << " best is " << sc[0]; return o.str(); });
  { vector<WordID> e, f; ViterbiESentence(hg, &e); ViterbiFSentence(hg, &f);
    x.check(TD::GetString(e) == b.ystr(), "viterbi-yield", [&] { return "target yield '" + TD::GetString(e) + "' expected '" + b.ystr() + "'"; });
    string fs; for (auto& w : b.fyield) fs += (fs.size() ? " " : "") + w;
    x.check(TD::GetString(f) == fs, "viterbi-fyield", [&] { return "source yield '" + TD::GetString(f) + "' expected '" + fs + "'"; });
    x.check(ViterbiELength(hg) == (int)b.yield.size(), "viterbi-elen", "ViterbiELength");
    x.check(ViterbiPathLength(hg) == (int)b.edges.size(), "viterbi-plen", "ViterbiPathLength");
    size_t q = b.edges.size(); string et = tree(h, b.edges, q, false); q = b.edges.size(); string ft = tree(h, b.edges, q, true);
    x.check(ViterbiETree(hg) == et, "viterbi-etree", [&] { return "target tree " + ViterbiETree(hg) + " expected " + et; });
    x.check(ViterbiFTree(hg) == ft, "viterbi-ftree", [&] { return "source tree " + ViterbiFTree(hg) + " expected " + ft; });
    SparseVector<double> fv = ViterbiFeatures(hg);
    map<int, double> want; for (int id : b.edges) { want[HGSpace::fid(id)] += 1; want[FD::Convert("W")] += h.e[id].lp; want[FD::Convert("G")] += h.e[id].feat; }
    for (auto& kv : want) x.check(vc::close(fv.value(kv.first), kv.second), "viterbi-features", [&] { ostringstream o; o << FD::Convert(kv.first) << "=" << fv.value(kv.first) << " expected " << kv.second; return o.str(); });
    ostringstream rs; ViterbiRules(hg, &rs); string want_rs; for (int id : b.edges) want_rs += HGSpace::rule(h.e[id])->AsString(true) + "\n";
    x.check(rs.str() == want_rs, "viterbi-rules", [&] { return "rules used: " + rs.str() + " expected: " + want_rs; });
  }
  x.step(10);
  // --- k-best, all derivations
  vector<size_t> ks; for (size_t k = 1; k <= G.size() + 2 && k <= 7; ++k) ks.push_back(k);
  if (G.size() > 5) { ks.push_back(G.size() - 1); ks.push_back(G.size()); ks.push_back(G.size() + 3); }
  for (size_t ki = 0; ki < ks.size(); ++ki) for (int order = 0; order < 2; ++order) {
    size_t k = ks[ki];
    if (order && k < 2) continue;
    typedef KBest::KBestDerivations<Path, ViterbiPathTraversal> KB;
    KB kb(hg, k);
    const int goal = hg.nodes_.size() - 1;
    if (order) { KB::Derivation* d = kb.LazyKthBest(goal, k - 1); x.check((d != NULL) == (k <= G.size()), "kbest-direct", "asking for the k-th derivation first gives the wrong availability"); }
    set<vector<int>> seen; double prev = INFINITY;
    for (size_t r = 0; r < k; ++r) {
      KB::Derivation* d = kb.LazyKthBest(goal, r);
      if (r >= G.size()) { x.check(d == NULL, "kbest-too-many", [&] { ostringstream o; o << "rank " << r << " of only " << G.size() << " derivations"; return o.str(); }); break; }
      if (!x.check(d != NULL, "kbest-missing", [&] { ostringstream o; o << "k=" << k << ": no derivation at rank " << r << " of " << G.size(); return o.str(); })) break;
      double s = log(d->score);
      x.check(vc::close(s, sc[r]), "kbest-score", [&] { ostringstream o; o << "k=" << k << " rank " << r << " score " << s << " expected " << sc[r]; return o.str(); });
      x.check(s <= prev + 1e-9, "kbest-order", "list not sorted");
      prev = s;
      vector<int> id = ids(d->yield, ne);
      x.check(seen.insert(id).second, "kbest-dup", [&] { return "derivation repeated: " + ids_str(id); });
      auto f = byp.find(id);
      if (x.check(f != byp.end(), "kbest-notderiv", [&] { return "not a derivation: " + ids_str(id); }))
        x.check(vc::close(f->second->lp, s), "kbest-wrongscore", [&] { ostringstream o; o << "derivation " << ids_str(id) << " reported " << s << " true score " << f->second->lp; return o.str(); });
      map<int, double> want; for (int q : id) { want[HGSpace::fid(q)] += 1; want[FD::Convert("W")] += h.e[q].lp; }
      for (auto& kv : want) x.check(vc::close(d->feature_values.value(kv.first), kv.second), "kbest-features", "feature values of a k-best entry are not those of its derivation");
      x.step(); x.state(vc::mix(vc::hdbl(s), vc::hstr(ids_str(id), r)));
    }
  }
  // --- unique strings
  vector<double> us; for (auto& kv : bestof) us.push_back(kv.second); sort(us.rbegin(), us.rend());
  for (size_t k = 1; k <= us.size() + 1; k += (k < 4 ? 1 : us.size() > 6 ? us.size() / 2 : 1)) {
    typedef KBest::KBestDerivations<vector<WordID>, ESentenceTraversal, KBest::FilterUnique> KB;
    KB kb(hg, k); set<string> seen;
    for (size_t r = 0; r < k; ++r) {
      KB::Derivation* d = kb.LazyKthBest(hg.nodes_.size() - 1, r);
      if (r >= us.size()) { x.check(d == NULL, "unique-too-many", [&] { return "string repeated or invented: '" + TD::GetString(d->yield) + "'"; }); break; }
      if (!x.check(d != NULL, "unique-missing", [&] { ostringstream o; o << "k=" << k << ": only " << r << " of " << us.size() << " distinct strings returned"; return o.str(); })) break;
      string y = TD::GetString(d->yield);
      x.check(seen.insert(y).second, "unique-dup", [&] { return "string repeated: " + y; });
      auto f = bestof.find(y);
      if (x.check(f != bestof.end(), "unique-notyield", [&] { return "not a yield: '" + y + "'"; })) {
        x.check(vc::close(log(d->score), f->second), "unique-notbest", [&] { ostringstream o; o << "string '" << y << "' reported with score " << log(d->score) << " but its best derivation has " << f->second; return o.str(); });
        x.check(vc::close(log(d->score), us[r]), "unique-skipped", [&] { ostringstream o; o << "k=" << k << " rank " << r << " score " << log(d->score) << " expected " << us[r]; return o.str(); });
        x.check(vc::close(d->feature_values.value(FD::Convert("W")), f->second), "unique-features", "features of the entry are not those of its derivation");
      }
      x.step();
    }
  }
  // --- every node can be queried, in any order (states carried over)
  { typedef KBest::KBestDerivations<Path, ViterbiPathTraversal> KB; KB kb(hg, 1000000);
    for (int v = h.n - 1; v >= 0; v -= 1) {
      vector<double> s; for (auto& d : D[v]) s.push_back(d.lp); sort(s.rbegin(), s.rend());
      for (size_t r : {(size_t)0, s.size() / 2, s.size() - 1, s.size()}) {
        KB::Derivation* d = kb.LazyKthBest(v, r);
        if (r == s.size()) x.check(d == NULL, "node-too-many", "more derivations than exist at an inner node");
        else if (x.check(d != NULL, "node-missing", "derivation missing at an inner node")) x.check(vc::close(log(d->score), s[r]), "node-score", [&] { ostringstream o; o << "node " << v << " rank " << r << " score " << log(d->score) << " expected " << s[r]; return o.str(); });
        x.step();
      }
    } }
  // --- sorting incoming edges by the best derivation through them
  { Hypergraph g = hg; vector<double> nv(h.n, -INFINITY); for (int v = 0; v < h.n; ++v) for (auto& d : D[v]) nv[v] = max(nv[v], d.lp);
    const HG::Edge* ge = g.ViterbiSortInEdges();
    for (int v = 0; v < h.n; ++v) { double pr = INFINITY; set<int> s;
      for (int e : g.nodes_[v].in_edges_) { double w = h.e[HGSpace::eid(g.edges_[e], ne)].lp; for (unsigned t : g.edges_[e].tail_nodes_) w += nv[t]; x.check(w <= pr + 1e-9, "sort-in-edges", "incoming edges not in order of their best derivations"); pr = w; s.insert(HGSpace::eid(g.edges_[e], ne)); }
      x.check(s.size() == hg.nodes_[v].in_edges_.size(), "sort-lost", "sorting incoming edges lost an edge"); }
    if (x.check(ge != NULL && ge->head_node_ == h.n - 1, "sort-goal", "ViterbiSortInEdges did not return a goal edge")) {
      double w = h.e[HGSpace::eid(*ge, ne)].lp; for (unsigned t : ge->tail_nodes_) w += nv[t]; x.check(vc::close(w, sc[0]), "sort-goal-best", "ViterbiSortInEdges returned a goal edge that is not on a best derivation"); }
    x.step(h.n); }
}
static void run(vc::X& x) {
  HGSpace::standard(x.thorough ? 2 : 1, [&](AHG& h0) {
    for (int p = 0; p < 6; ++p) for (int rev = 0; rev < 2; ++rev) {
      if (rev && !x.thorough && (p & 1)) continue;
      if (h0.n == 4 && !x.thorough && p != 1 && p != 3) continue;
      if (!x.take()) continue;
      AHG h = h0; HGSpace::weigh(&h, p == 5 ? 3 : p);
      if (p == 5) for (auto& e : h.e) e.word = (e.word % 2) * 3;   // the same word everywhere: many derivations per string
      if (p == 3 && h.n == 4) for (auto& e : h.e) e.word %= 2;
      x.desc([h, rev] { return h.str() + (rev ? " (reverse insertion)" : ""); });
      one(x, h, rev);
    }
  });
}
VC_MAIN(run)
