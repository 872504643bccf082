// C04: forest transformations keep exactly the derivations they are documented to keep.
#include "hgspace.h"
#include "hgreal.h"
#include "hg_union.h"
#include "hg_remove_eps.h"
#include "viterbi.h"
#include "verbose.h"
using namespace std;
typedef map<vector<int>, RDeriv> DM;   // derivations keyed by abstract edge ids

static bool get(vc::X& x, const char* what, const Hypergraph& g, int ne, DM* out) {
  out->clear();
  vector<RDeriv> R;
  if (!x.check(HGReal::goal_derivs(g, &R, 20000), string(what) + "-bad", [&] { return string(what) + ": result is cyclic or malformed"; })) return false;
  for (auto& r : R) { vector<int> id; for (int e : r.edges) id.push_back(HGSpace::eid(g.edges_[e], ne));
    if (!x.check(out->insert({id, r}).second, string(what) + "-repeat", [&] { return string(what) + ": derivation " + vc::str(id) + " occurs twice"; })) return false; }
  return true;
}
static void same(vc::X& x, const char* what, const DM& got, const DM& want, bool score = true) {
  for (auto& kv : want) {
    auto f = got.find(kv.first);
    if (!x.check(f != got.end(), string(what) + "-lost", [&] { return string(what) + ": derivation " + vc::str(kv.first) + " lost"; })) continue;
    x.check(f->second.featstr() == kv.second.featstr(), string(what) + "-features", [&] { return string(what) + ": features of " + vc::str(kv.first) + " are " + f->second.featstr() + " expected " + kv.second.featstr(); });
    x.check(f->second.e == kv.second.e && f->second.f == kv.second.f, string(what) + "-yield", [&] { return string(what) + ": yield of " + vc::str(kv.first) + " is " + f->second.estr() + " expected " + kv.second.estr(); });
    if (score) x.check(vc::close(f->second.lp, kv.second.lp), string(what) + "-score", [&] { ostringstream o; o << what << ": score of " << vc::str(kv.first) << " is " << f->second.lp << " expected " << kv.second.lp; return o.str(); });
  }
  for (auto& kv : got) x.check(want.count(kv.first), string(what) + "-extra", [&] { return string(what) + ": unexpected derivation " + vc::str(kv.first); });
  x.step(want.size());
}
static void sound(vc::X& x, const char* what, const Hypergraph& g, bool derivable) {
  string b = HGReal::sound(g, true, derivable);
  x.check(b.empty(), string(what) + "-unsound", [&] { return string(what) + ": " + b; });
}
static map<int, string> edge_attrs(const Hypergraph& g, int ne) {
  map<int, string> m;
  for (auto& e : g.edges_) { ostringstream o; o << e.i_ << ' ' << e.j_ << ' ' << e.prev_i_ << ' ' << e.prev_j_ << ' ' << e.rule_->AsString() << ' ' << g.nodes_[e.head_node_].cat_ << ' ' << g.nodes_[e.head_node_].node_hash; m[HGSpace::eid(e, ne)] = o.str(); }
  return m;
}
static void attrs(vc::X& x, const char* what, const Hypergraph& g, const map<int, string>& want, int ne) {
  for (auto& kv : edge_attrs(g, ne)) { auto f = want.find(kv.first); x.check(f != want.end() && f->second == kv.second, string(what) + "-attrs", [&] { return string(what) + ": spans/rule/category of an edge changed: '" + kv.second + "' was '" + (f == want.end() ? "" : f->second) + "'"; }); }
}
// same forest with nodes renumbered by perm; goal = perm[goal]
static void permuted(const AHG& h, const vector<int>& perm, bool rev, Hypergraph* hg) {
  AHG q; q.n = h.n;
  q.e = h.e;
  for (auto& e : q.e) { e.head = perm[e.head]; for (int& t : e.tails) t = perm[t]; }
  HGSpace::build(q, hg, rev);
  for (int v = 0; v < h.n; ++v) hg->nodes_[perm[v]].node_hash = 1000 + v * 7919;
  for (auto& e : hg->edges_) { const AEdge& a = h.e[HGSpace::eid(e, h.e.size())]; e.i_ = a.head; e.j_ = a.head + 1; }
}
static void masks(vc::X& x, const AHG& h, const Hypergraph& hg, const DM& all, const map<int, string>& at, unsigned mask) {
  const int ne = h.e.size();
  DM want; for (auto& kv : all) { bool ok = true; for (int i : kv.first) if (mask >> i & 1) ok = false; if (ok) want.insert(kv); }
  vector<bool> prune(ne), keep(ne);
  for (int i = 0; i < ne; ++i) { bool pr = mask >> HGSpace::eid(hg.edges_[i], ne) & 1; prune[i] = pr; keep[i] = !pr; }
  DM got;
  { Hypergraph g = hg; g.PruneEdges(prune, true);
    if (want.empty()) { vector<RDeriv> R; HGReal::goal_derivs(g, &R); x.check(R.empty(), "prune-inside-empty", "PruneEdges left a derivation though every one uses a pruned edge"); }
    else { sound(x, "PruneEdges(inside)", g, true); if (get(x, "PruneEdges(inside)", g, ne, &got)) same(x, "PruneEdges(inside)", got, want); attrs(x, "PruneEdges(inside)", g, at, ne); } }
  { Hypergraph g = hg; g.PruneEdges(prune, false); sound(x, "PruneEdges", g, false);
    if (get(x, "PruneEdges", g, ne, &got)) same(x, "PruneEdges", got, want);
    bool ok = true; for (auto& e : g.edges_) if (mask >> HGSpace::eid(e, ne) & 1) ok = false;
    x.check(ok, "PruneEdges-left", "an edge marked for pruning is still there"); }
  { vector<bool> k = keep, kn; HypergraphP g = hg.CreateEdgeSubset(k, kn); sound(x, "CreateEdgeSubset", *g, false);
    if (!want.empty() && get(x, "CreateEdgeSubset", *g, ne, &got)) { same(x, "CreateEdgeSubset", got, want); attrs(x, "CreateEdgeSubset", *g, at, ne); }
    for (auto& e : g->edges_) x.check(!(mask >> HGSpace::eid(e, ne) & 1), "CreateEdgeSubset-left", "an edge outside the subset is in the result");
    // exactly the derivable kept edges
    set<int> have; for (auto& e : g->edges_) have.insert(HGSpace::eid(e, ne));
    vector<bool> der(h.n); set<int> wante; for (int v = 0; v < h.n; ++v) for (auto& e : h.e) if (e.head == v && !(mask >> e.id & 1)) { bool ok = true; for (int t : e.tails) ok = ok && der[t]; if (ok) { wante.insert(e.id); der[v] = true; } }
    x.check(have == wante, "CreateEdgeSubset-set", "CreateEdgeSubset did not keep exactly the selected edges that can still be derived");
    for (int i = 0; i < ne; ++i) x.check(k[i] == (wante.count(HGSpace::eid(hg.edges_[i], ne)) > 0), "CreateEdgeSubset-mask", "the returned edge mask is not the set of kept edges");
    x.step(); }
  if (!want.empty()) { HypergraphP g = hg.CreateViterbiHypergraph(&keep); sound(x, "CreateViterbiHypergraph(mask)", *g, true);
    if (get(x, "CreateViterbiHypergraph(mask)", *g, ne, &got)) { bool any = false; for (auto& kv : got) { if (want.count(kv.first)) any = true; x.check(all.count(kv.first), "CreateViterbiHypergraph(mask)-invented", "not a derivation of the forest"); }
      x.check(any, "CreateViterbiHypergraph(mask)-outside", "a derivation inside the mask exists but the result has none"); } }
  x.state(vc::mix(mask, want.size()));
}
static void one(vc::X& x, const AHG& h, int perms_step, bool rev) {
  const int ne = h.e.size();
  Hypergraph hg; HGSpace::build(h, &hg, rev);
  DM all; if (!get(x, "original", hg, ne, &all)) return;
  if (all.size() > 1) x.nontrivial();
  auto at = edge_attrs(hg, ne);
  x.stat("derivations", all.size());
  DM got;
  // any node order
  vector<int> perm(h.n); for (int i = 0; i < h.n; ++i) perm[i] = i;
  int c = 0;
  do { if (c++ % perms_step) continue;
    Hypergraph g; permuted(h, perm, rev, &g);
    g.TopologicallySortNodesAndEdges(perm[h.n - 1]);
    sound(x, "toposort", g, false);
    x.check(g.nodes_.empty() || g.nodes_.back().node_hash == 1000u + (h.n - 1) * 7919, "toposort-goal", "the goal is not the last node after sorting");
    if (get(x, "toposort", g, ne, &got)) same(x, "toposort", got, all);
    // everything left is reachable from the goal
    set<int> reach; vector<int> st(1, (int)g.nodes_.size() - 1); while (!st.empty()) { int v = st.back(); st.pop_back(); if (!reach.insert(v).second) continue; for (int e : g.nodes_[v].in_edges_) for (unsigned t : g.edges_[e].tail_nodes_) st.push_back(t); }
    x.check(reach.size() == g.nodes_.size(), "toposort-unreachable", "nodes unreachable from the goal survive sorting");
    auto a2 = edge_attrs(g, ne); for (auto& kv : a2) { string w = at[kv.first], q = kv.second; // prev spans differ only through permuted() rebuilding: compare fully
      x.check(w == q, "toposort-attrs", [&] { return "attributes changed: '" + q + "' was '" + w + "'"; }); }
  } while (next_permutation(perm.begin(), perm.end()));
  // inner goal
  for (int v = 0; v < h.n - 1; ++v) { Hypergraph g = hg; g.PruneUnreachable(v); sound(x, "PruneUnreachable", g, false);
    vector<vector<RDeriv>> D; HGReal::derivs(hg, &D); vector<RDeriv> R; HGReal::goal_derivs(g, &R);
    multiset<string> a, b; for (auto& d : D[v]) a.insert(d.tree + d.featstr()); for (auto& d : R) b.insert(d.tree + d.featstr());
    x.check(a == b, "PruneUnreachable", "PruneUnreachable(inner node) does not leave exactly that node's derivations"); }
  // best derivation
  { HypergraphP g = hg.CreateViterbiHypergraph(); sound(x, "CreateViterbiHypergraph", *g, true);
    double best = -INFINITY; for (auto& kv : all) best = max(best, kv.second.lp);
    if (get(x, "CreateViterbiHypergraph", *g, ne, &got)) { bool any = false; for (auto& kv : got) { any = any || vc::close(kv.second.lp, best); auto f = all.find(kv.first); if (x.check(f != all.end(), "viterbihg-invented", "not a derivation of the forest")) x.check(vc::close(f->second.lp, kv.second.lp) && f->second.featstr() == kv.second.featstr(), "viterbihg-changed", "score or features changed"); }
      x.check(any, "viterbihg-notbest", "the Viterbi forest does not contain a best derivation"); }
    attrs(x, "CreateViterbiHypergraph", *g, at, ne);
    // and it can be processed further
    HypergraphP g2 = g->CreateViterbiHypergraph(); sound(x, "CreateViterbiHypergraph twice", *g2, true); }
  if (ne <= 6 || x.thorough) for (unsigned m = 0; m < (1u << ne); ++m) masks(x, h, hg, all, at, m);
  else for (unsigned m = 0; m < (1u << ne); m += 1 + (m % 3)) masks(x, h, hg, all, at, m);
  // node subsets
  for (unsigned m = 0; m < (1u << (h.n - 1)); ++m) { vector<bool> kn(h.n, true); for (int v = 0; v < h.n - 1; ++v) if (m >> v & 1) kn[v] = false;
    HypergraphP g = hg.CreateNodeSubset(kn); sound(x, "CreateNodeSubset", *g, false);
    DM want; for (auto& kv : all) { bool ok = true; for (int i : kv.first) if (!kn[h.e[i].head]) ok = false; if (ok) want.insert(kv); }
    if (get(x, "CreateNodeSubset", *g, ne, &got)) same(x, "CreateNodeSubset", got, want); }
}
// two sub-forests of one forest, sharing nodes by hash
static void unions(vc::X& x, const AHG& h, unsigned ma, unsigned mb) {
  const int ne = h.e.size();
  Hypergraph full; HGSpace::build(h, &full);
  auto sub = [&](unsigned m, Hypergraph* g) { *g = full; vector<bool> p(ne); for (int i = 0; i < ne; ++i) p[i] = !(m >> i & 1); g->PruneEdges(p, true); };
  Hypergraph a, b; sub(ma, &a); sub(mb, &b);
  if (a.edges_.empty() || b.edges_.empty()) return;
  // reference: the forest with the union of their edges
  unsigned mu = 0; for (auto& e : a.edges_) mu |= 1u << HGSpace::eid(e, ne); for (auto& e : b.edges_) mu |= 1u << HGSpace::eid(e, ne);
  Hypergraph u; sub(mu, &u);
  DM want, got, da, db; if (!get(x, "u", u, ne, &want) || !get(x, "a", a, ne, &da) || !get(x, "b", b, ne, &db)) return;
  Hypergraph r = b; HG::Union(a, &r);
  sound(x, "HG::Union", r, true);
  x.check(r.nodes_.back().node_hash == full.nodes_.back().node_hash, "union-goal", "the goal of the union is not last");
  if (get(x, "HG::Union", r, ne, &got)) same(x, "HG::Union", got, want, false);
  attrs(x, "HG::Union", r, edge_attrs(full, ne), ne);
  for (auto& n : r.nodes_) x.check(n.cat_ == full.nodes_[0].cat_, "union-cat", "node category lost");
  Hypergraph r2 = r; HG::Union(a, &r2); if (get(x, "HG::Union again", r2, ne, &got)) same(x, "HG::Union again", got, want, false);
  Hypergraph e0; HG::Union(a, &e0); if (get(x, "HG::Union empty", e0, ne, &got)) same(x, "HG::Union empty", got, da, true);
  // disjoint union with merged goals (only sensible when the goal is not used as a tail, which holds here)
  { Hypergraph r3 = b; r3.Union(a); sound(x, "Union", r3, true);
    vector<RDeriv> R; HGReal::goal_derivs(r3, &R, 20000);
    multiset<string> w, g; for (auto& kv : da) w.insert(kv.second.tree + kv.second.featstr() + to_string(vc::hdbl(kv.second.lp) / 100)); for (auto& kv : db) w.insert(kv.second.tree + kv.second.featstr() + to_string(vc::hdbl(kv.second.lp) / 100));
    for (auto& d : R) g.insert(d.tree + d.featstr() + to_string(vc::hdbl(d.lp) / 100));
    x.check(w == g, "union-member", "Hypergraph::Union does not have exactly the derivations (rules, features, scores) of both forests"); 
    attrs(x, "Union", r3, edge_attrs(full, ne), ne); }
  x.step(want.size() + 4); x.nontrivial(); x.state(vc::mix(mu, vc::mix(ma, mb)));
}
// lattices (linear-chain forests): pushing weights to the source
static void pushsource(vc::X& x, const AHG& h, double scale) {
  const int ne = h.e.size();
  Hypergraph hg; HGSpace::build(h, &hg); hg.is_linear_chain_ = true;
  DM all; if (!get(x, "lattice", hg, ne, &all)) return;
  double lp0 = 0; for (auto& e : h.e) if (e.tails.empty()) lp0 = e.lp;
  double mx = -INFINITY; for (auto& kv : all) mx = max(mx, kv.second.lp * scale);
  double z = 0; for (auto& kv : all) z += exp(kv.second.lp * scale - mx); z = mx + log(z);
  hg.PushWeightsToSource(scale);
  DM got; if (!get(x, "PushWeightsToSource", hg, ne, &got)) return;
  for (auto& kv : all) x.check(vc::close(got[kv.first].lp - lp0, kv.second.lp * scale - z, 1e-8), "pushsource", [&] { ostringstream o; o << "scale " << scale << ": path " << vc::str(kv.first) << " has log probability " << got[kv.first].lp - lp0 << " expected its posterior " << kv.second.lp * scale - z; return o.str(); });
  for (int v = 0; v + 1 < h.n; ++v) { double s = 0; bool live = false; for (int e : hg.nodes_[v].out_edges_) { double q = exp(log(hg.edges_[e].edge_prob_)); if (q == q) s += q, live = true; } 
    bool used = false; for (auto& kv : all) for (int i : kv.first) if (h.e[i].head == v) used = true;
    if (used && live) x.check(vc::close(s, 1, 1e-8), "pushsource-local", "outgoing weights of a state do not sum to one"); }
  x.step(all.size()); if (all.size() > 1) x.nontrivial();
}
// epsilon removal on binary/unary concatenation forests
static void epsremove(vc::X& x, int n, const vector<vector<vector<int>>>& kids, const vector<int>& leaf) {
  // node v: leaf[v] >0 word, -1 eps, 0 inner with alternatives kids[v]
  static WordID eps = TD::Convert("*EPS*");
  vector<int> st(n);  // 1 = only eps, 0 = never eps, 2 mixed
  for (int v = 0; v < n; ++v) { if (leaf[v] == -1) { st[v] = 1; continue; } if (leaf[v] > 0) { st[v] = 0; continue; }
    bool e = false, ne = false; for (auto& k : kids[v]) { bool all = true; for (int t : k) if (st[t] != 1) all = false; (all ? e : ne) = true; if (k.size() == 2 && k[0] == k[1] && st[k[0]] == 1) return; }
    if (e && (ne || kids[v].size() > 1)) return; st[v] = e ? 1 : 0; }
  if (st[n - 1] == 1) return;
  if (!x.take()) return;
  x.desc([=] { ostringstream o; for (int v = 0; v < n; ++v) { o << v << ":"; if (leaf[v]) o << (leaf[v] < 0 ? "eps" : "w" + to_string(leaf[v])); for (auto& k : kids[v]) o << vc::str(k); o << ' '; } return o.str(); });
  Hypergraph g; g.ReserveNodes(n); WordID X = TD::Convert("X");
  for (int v = 0; v < n; ++v) g.AddNode(-X);
  static TRulePtr bin(new TRule("[X] ||| [X,1] [X,2] ||| [1] [2]")), un(new TRule("[X] ||| [X,1] ||| [1]")), er(new TRule("[X] ||| *EPS* ||| *EPS*"));
  static vector<TRulePtr> wr; while (wr.size() < 4) wr.push_back(TRulePtr(new TRule("[X] ||| f" + to_string(wr.size()) + " ||| w" + to_string(wr.size()))));
  int id = 0;
  auto add = [&](int v, TRulePtr r, const vector<int>& t) { Hypergraph::TailNodeVector tv; for (int q : t) tv.push_back(q); HG::Edge* e = g.AddEdge(r, tv); e->feature_values_.set_value(HGSpace::fid(id), 1); ++id; e->edge_prob_ = prob_t(1); g.ConnectEdgeToHeadNode(e->id_, v); };
  for (int v = 0; v < n; ++v) { if (leaf[v] == -1) add(v, er, {}); else if (leaf[v] > 0) add(v, wr[leaf[v]], {}); else for (auto& k : kids[v]) add(v, k.size() == 2 ? bin : un, k); }
  auto sig = [&](const Hypergraph& q, bool strip) { multiset<string> r; vector<RDeriv> R; HGReal::goal_derivs(q, &R); for (auto& d : R) { string y; for (WordID w : d.e) if (!strip || w != eps) y += TD::Convert(w) + " "; r.insert(y + "| " + d.featstr()); } return r; };
  g.TopologicallySortNodesAndEdges(n - 1);
  multiset<string> want = sig(g, true);
  RemoveEpsilons(&g, eps);
  multiset<string> got = sig(g, false);
  x.check(want == got, "remove-eps", [&] { string s = "after epsilon removal:"; for (auto& q : got) s += "\n  " + q; s += "\nexpected:"; for (auto& q : want) s += "\n  " + q; return s; });
  string b = HGReal::sound(g, true, true); x.check(b.empty(), "remove-eps-unsound", [&] { return b; });
  x.step(want.size()); bool any = false; for (int v = 0; v < n; ++v) if (leaf[v] == -1) any = true; if (any) x.nontrivial(); x.state(vc::hstr(*want.begin()));
}
static void run(vc::X& x) {
  SetSilent(true);
  HGSpace::standard(x.thorough ? 1 : 0, [&](AHG& h0) {
    for (int rev = 0; rev < 2; ++rev) {
      if (!x.take()) continue;
      AHG h = h0; HGSpace::weigh(&h, (h.e.size() + rev) % 4);
      x.desc([h, rev] { return h.str() + (rev ? " (reverse insertion)" : ""); });
      one(x, h, h.n == 4 && !x.thorough ? 5 : 1, rev);
    }
  });
  // unions: every pair of sub-forests of every small forest
  auto un = [&](AHG& h0) {
    AHG h = h0; HGSpace::weigh(&h, h.e.size() % 4); unsigned full = 1u << h.e.size();
    if (h.e.size() > (x.thorough ? 6u : 5u)) return;
    for (unsigned a = 1; a < full; ++a) for (unsigned b = 1; b < full; ++b) { if ((a | b) != full - 1) continue; if (!x.take()) continue;
      x.desc([h, a, b] { ostringstream o; o << h.str() << " edge subsets " << a << " and " << b; return o.str(); }); unions(x, h, a, b); }
  };
  HGSpace::each(1, {3}, {0}, un); HGSpace::each(2, {2, 2}, {0, 2}, un); HGSpace::each(3, {1, 2, 2}, {0, 1, 2}, un); HGSpace::each(3, {2, 1, 2}, {0, 2, 2}, un);
  HGSpace::each(4, {1, 1, 1, 2}, {0, 1, 1, 2}, un);
  // lattices
  auto lat = [&](AHG& h0) {
    int leaves = 0; for (auto& e : h0.e) if (e.tails.empty()) ++leaves; if (leaves != 1) return;
    for (int p = 0; p < 5; ++p) for (double s : {1.0, 0.5, 3.0}) { if (!x.take()) continue; AHG h = h0; HGSpace::weigh(&h, p); x.desc([h] { return "lattice " + h.str(); }); pushsource(x, h, s); }
  };
  HGSpace::each(2, {1, 3}, {0, 1}, lat); HGSpace::each(3, {1, 2, 3}, {0, 1, 1}, lat); HGSpace::each(4, {1, 2, 2, 3}, {0, 1, 1, 1}, lat);
  // epsilon forests
  const int L = x.thorough ? 4 : 3, I = x.thorough ? 3 : 2;
  for (int nl = 1; nl <= L; ++nl) for (int pat = 0; pat < (1 << nl); ++pat) {
    vector<int> leaf; for (int i = 0; i < nl; ++i) leaf.push_back(pat >> i & 1 ? -1 : i % 3 + 1);
    function<void(vector<vector<vector<int>>>, vector<int>, int)> rec = [&](vector<vector<vector<int>>> kids, vector<int> lf, int left) {
      epsremove(x, lf.size(), kids, lf);
      if (!left) return;
      int v = lf.size(); vector<vector<int>> menu; for (int a = 0; a < v; ++a) menu.push_back({a}); for (int a = 0; a < v; ++a) for (int b = 0; b < v; ++b) menu.push_back({a, b});
      for (size_t i = 0; i < menu.size(); ++i) { auto k = kids; k.push_back({menu[i]}); auto l = lf; l.push_back(0); rec(k, l, left - 1); if (nl <= 2 || x.thorough) for (size_t j = i + 1; j < menu.size(); j += (left > 1 ? 3 : 1)) { auto k2 = kids; k2.push_back({menu[i], menu[j]}); rec(k2, l, left - 1); } }
    };
    rec(vector<vector<vector<int>>>(nl), leaf, I);
  }
}
VC_MAIN(run)
