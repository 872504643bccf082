// C09: applying feature functions to a forest keeps its derivations and scores them exactly.
#include "hgspace.h"
#include "hgreal.h"
#include "apply_models.h"
#include "ff.h"
#include "ffset.h"
#include "sentence_metadata.h"
#include "verbose.h"
using namespace std;
static int fA, fB, fC, fH, fM, fI, fBF, fMF, fS;
static double bg(int a, int b) { return 0.07 * ((a * 5 + b * 3) % 7) - 0.2; }            // bigram score over small word numbers
static int wn(WordID w) { static const int a = TD::Convert("a"), b = TD::Convert("b"); return w == a ? 1 : w == b ? 2 : 3; }
static string broken;      // set when a model is called with impossible arguments
struct MA : FeatureFunction { void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>*, void* c) const { if (c) broken = "stateless model got a state"; if (ants.size() != e.tail_nodes_.size()) broken = "antecedents"; double n = 0; for (WordID w : e.rule_->e_) if (w > 0 && wn(w) == 1) ++n; f->set_value(fA, n); } };
struct MB : FeatureFunction {   // state: first and last word
  MB() : FeatureFunction(8) {}
  void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>* est, void* c) const {
    int first = 0, last = 0; double s = 0; auto add = [&](int a, int b) { if (!a || !b) broken = "bigram state lost"; if (last) s += bg(last, a); else first = a; last = b; };
    for (WordID w : e.rule_->e_) if (w > 0) add(wn(w), wn(w)); else { const int* q = (const int*)ants[-w]; add(q[0], q[1]); }
    f->set_value(fB, s); ((int*)c)[0] = first; ((int*)c)[1] = last; est->set_value(fB, 0.1 * first);
  }
  void FinalTraversalFeatures(const void* st, SparseVector<double>* f) const { const int* q = (const int*)st; f->set_value(fBF, bg(0, q[0]) + bg(q[1], 0)); }
};
struct MC : FeatureFunction { MC() : FeatureFunction(1) {} void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge&, const vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>*, void* c) const { for (auto a : ants) if (*(const char*)a != 'c') broken = "constant state lost"; *(char*)c = 'c'; f->set_value(fC, ants.size()); } void FinalTraversalFeatures(const void* s, SparseVector<double>*) const { if (*(const char*)s != 'c') broken = "constant state lost at the goal"; } };
struct MH : FeatureFunction { MH() : FeatureFunction(8) {} void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>*, void* c) const { uint64_t h = 7; h = vc::mix(h, e.prev_i_); for (auto a : ants) { uint64_t q; memcpy(&q, a, 8); h = vc::mix(h, q); } memcpy(c, &h, 8); f->set_value(fH, 1); } };
struct MM : FeatureFunction { MM() : FeatureFunction(3) {} void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const vector<const void*>& ants, SparseVector<double>*, SparseVector<double>*, void* c) const { int n = 0; for (WordID w : e.rule_->e_) if (w > 0) ++n; for (auto a : ants) n += ((const unsigned char*)a)[1]; ((unsigned char*)c)[1] = n % 3; } void FinalTraversalFeatures(const void* s, SparseVector<double>* f) const { f->set_value(fMF, ((const unsigned char*)s)[1] == 0); } };
struct MI : FeatureFunction {   // state: first word; ignored: best score (sum of W) of the representative
  MI() : FeatureFunction(12, 8) {}
  void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>*, void* c) const {
    double v = 1000, s = 0; int first = 0; static const int kW = FD::Convert("W"); v += e.feature_values_.value(kW); for (auto a : ants) { double q; memcpy(&q, (const char*)a + 4, 8); if (q < 10) broken = "side data lost"; v += q - 1000; s += q - 1000; }
    for (WordID w : e.rule_->e_) { if (w > 0) first = wn(w); else memcpy(&first, ants[-w], 4); break; } memcpy(c, &first, 4); memcpy((char*)c + 4, &v, 8); f->set_value(fS, s); f->set_value(fI, 0.5 * first);
  }
};
static MA mA; static MB mB; static MC mC; static MH mH; static MM mM; static MI mI;
struct Set { string name; vector<const FeatureFunction*> m; };
static vector<Set> sets;
static vector<double> weights;
static string fs(map<string, double> m) { ostringstream o; o.precision(6); for (auto& kv : m) if (fabs(kv.second) > 1e-7 && kv.first != "Side") o << kv.first << '=' << kv.second << ' '; return o.str(); }
struct Want { string feats; double lp; };
static void expected(const AHG& h, const Set& s, const Deriv& d, Want* w) {
  map<string, double> f; double lp = 0; for (int i : d.edges) { f["W"] += h.e[i].lp; f["G"] += h.e[i].feat; f["E" + to_string(i)] += 1; }
  auto num = [](const string& q) { return q == "a" ? 1 : q == "b" ? 2 : 3; };
  auto first = [&](int v) { return v; }; (void)first;
  for (auto m : s.m) {
    if (m == &mA) for (auto& q : d.yield) f["A"] += q == "a";
    if (m == &mB) { double t = 0; for (size_t i = 1; i < d.yield.size(); ++i) t += bg(num(d.yield[i - 1]), num(d.yield[i])); f["B"] += t; f["BF"] += bg(0, num(d.yield[0])) + bg(num(d.yield.back()), 0); }
    if (m == &mC) for (int i : d.edges) f["C"] += h.e[i].tails.size();
    if (m == &mH) f["H"] += d.edges.size();
    if (m == &mM) f["MF"] += d.yield.size() % 3 == 0;
    if (m == &mI) { // first words of every sub-derivation
      vector<int> st; for (int i : d.edges) { const AEdge& e = h.e[i]; int k = e.tails.size(); vector<int> ks(st.end() - k, st.end()); st.resize(st.size() - k); auto p = epattern(e); int fw = p[0][0] == '[' ? ks[p[0][1] - '1'] : num(p[0]); f["I"] += 0.5 * fw; st.push_back(fw); } }
  }
  for (auto& kv : f) { int id = FD::Convert(kv.first); if (id < (int)weights.size()) lp += kv.second * weights[id]; }
  w->feats = fs(f); w->lp = lp;
}
static void one(vc::X& x, const AHG& h, const vector<vector<Deriv>>& D, const Hypergraph& in, const Set& s, int alg, int pop) {
  if (!x.take()) return;
  static const char* AN[] = {"full", "cube", "fast cube", "fast cube 2"};
  x.desc([=] { ostringstream o; o << h.str() << "\n"; for (auto& e : h.e) o << "  e" << e.id << " " << rule_text(e) << "\n"; o << AN[alg] << " pop limit " << pop << " models " << s.name; return o.str(); });
  const int ne = h.e.size(); const auto& G = D.back();
  map<vector<int>, Want> want; for (auto& d : G) expected(h, s, d, &want[d.edges]);
  Lattice l; SentenceMetadata sm(0, l); Hypergraph out; broken.clear();
  ModelSet ms(weights, s.m); ApplyModelSet(in, sm, ms, IntersectionConfiguration(alg, pop), &out); x.step();
  x.check(broken.empty(), "model-args", [&] { return broken; });
  string bad = HGReal::sound(out); if (!x.check(bad.empty(), "unsound", [&] { return "rescored forest is inconsistent: " + bad; })) return;
  if (!x.check(!out.edges_.empty(), "empty", "no translation left")) return;
  vector<RDeriv> R; HGReal::goal_derivs(out, &R, 20000, true); set<vector<int>> got; vector<double> sc;
  for (auto& r : R) {
    vector<int> ids; for (int e : r.edges) { int id = HGSpace::eid(out.edges_[e], ne); if (id >= 0) ids.push_back(id); }
    auto it = want.find(ids); if (!x.check(it != want.end(), "invented", [&] { return "the rescored forest has a derivation the original lacks: edges " + vc::str(ids); })) return;
    x.check(got.insert(ids).second, "repeated", "a derivation occurs twice");
    map<string, double> f; for (auto& kv : r.feats) f[FD::Convert(kv.first)] = kv.second;
    x.check(fs(f) == it->second.feats, "features", [&] { return "edges " + vc::str(ids) + " has features " + fs(f) + "\n expected " + it->second.feats; });
    x.check(vc::close(r.lp, it->second.lp, 1e-6), "score", [&] { ostringstream o; o << "edges " << vc::str(ids) << " scored " << r.lp << " expected " << it->second.lp; return o.str(); });
    sc.push_back(r.lp); x.state(vc::mix(vc::hstr(it->second.feats), vc::hdbl(r.lp)));
  }
  x.check(!got.empty(), "none", "no derivation left"); x.step(got.size());
  const bool exhaustive = alg == 0 || pop >= 1000 || (s.m.size() == 1 && s.m[0] == &mA);
  sort(sc.rbegin(), sc.rend());
  if (exhaustive) x.check(got.size() == want.size(), "lost", [&] { return to_string(got.size()) + " of " + to_string(want.size()) + " derivations remain"; });
  else {
    const bool never_merge = s.name == "H" || s.name == "AH" || s.name == "CH";
    vector<double> all; for (auto& kv : want) all.push_back(kv.second.lp); sort(all.rbegin(), all.rend());
    if (never_merge) { bool ok = sc.size() == min<size_t>(pop, all.size()); for (size_t i = 0; ok && i < sc.size(); ++i) ok = vc::close(sc[i], all[i], 1e-6); x.check(ok, "kbest", [&] { return "with unshared states the scores should be the " + to_string(pop) + " best " + vc::str(all) + " but are " + vc::str(sc); }); }
    if (s.name == "C" || s.name == "AC") {   // a single state per node: the pop limit keeps the best incoming edges of each node
      vector<double> vit(h.n, -1e300); vector<vector<double>> ev(h.n); vector<double> es(ne); vector<char> keep(ne, 1); bool tie = false;
      for (int v = 0; v < h.n; ++v) { vector<pair<double, int>> q; for (int i = 0; i < ne; ++i) if (h.e[i].head == v) { const AEdge& e = h.e[i]; double t = e.lp * weights[FD::Convert("W")] + e.feat * weights[FD::Convert("G")] + e.tails.size() * weights[fC]; if (s.name == "AC") for (auto& w : epattern(e)) t += (w == "a") * weights[fA]; for (int k : e.tails) t += vit[k]; q.push_back({t, i}); }
        sort(q.rbegin(), q.rend()); for (size_t k = pop; k < q.size(); ++k) { keep[q[k].second] = 0; if (fabs(q[k].first - q[pop - 1].first) < 1e-9) tie = true; } vit[v] = q[0].first; }
      set<vector<int>> exp; for (auto& d : G) { bool ok = true; for (int i : d.edges) ok = ok && keep[i]; if (ok) exp.insert(d.edges); }
      if (tie) x.stat("ties at the pop limit"); else x.check(exp == got, "pops", [&] { return "with a single state per node exactly the derivations from the best " + to_string(pop) + " edges of each node should remain: " + to_string(exp.size()) + ", found " + to_string(got.size()); }); }
    if (!sc.empty()) { // the pop limit bounds the edges made for a node
      map<int, int> per; for (auto& e : out.edges_) { int id = HGSpace::eid(e, ne); if (id >= 0) per[h.e[id].head]++; } for (auto& kv : per) x.check(kv.second <= pop, "limit", "more edges than the pop limit at a node"); }
  }
  // node identities, categories, spans, rules, states
  map<int, set<int>> nodes_of; set<size_t> hs; bool uniq = true;
  for (auto& nd : out.nodes_) uniq = hs.insert(nd.node_hash).second && uniq; x.check(uniq, "node-hash", "two nodes have the same identity hash");
  for (auto& e : out.edges_) { int id = HGSpace::eid(e, ne); if (id < 0) { x.check(e.rule_ == in.edges_.back().rule_, "rule", "rule of the goal edge"); continue; } nodes_of[h.e[id].head].insert(e.head_node_);
    x.check(e.rule_.get() == HGSpace::rule(h.e[id]).get() && e.i_ == h.e[id].head && e.j_ == h.e[id].head + 1 && e.prev_i_ == id && e.prev_j_ == id + 3, "attributes", "rule or spans of an edge were changed");
    x.check(out.nodes_[e.head_node_].cat_ == in.nodes_[h.e[id].head].cat_, "category", "category of a node was changed"); }
  if (exhaustive && s.m.size() == 1) for (int v = 0; v < h.n; ++v) { set<string> st; for (auto& d : D[v]) { auto num = [](const string& q) { return q == "a" ? 1 : q == "b" ? 2 : 3; }; if (s.name == "B") st.insert(to_string(num(d.yield[0])) + "," + to_string(num(d.yield.back()))); else if (s.name == "C" || s.name == "A") st.insert("c"); else if (s.name == "H") st.insert(vc::str(d.edges)); else if (s.name == "M") st.insert(to_string(d.yield.size() % 3)); else if (s.name == "I") { if (alg) st.insert(to_string(num(d.yield[0]))); else st.clear(); } }
      if (!nodes_of.count(v) || st.empty()) continue; x.check(nodes_of[v].size() == st.size(), "states", [&] { return "node " + to_string(v) + " was split into " + to_string(nodes_of[v].size()) + " nodes but has " + to_string(st.size()) + " distinct model states"; }); }
  if (exhaustive && alg && s.name == "I") { // the side data a parent sees is that of the best derivation of the node
    vector<double> vit(out.nodes_.size(), -1e300), vw(out.nodes_.size()); bool tie = false; for (size_t v = 0; v < out.nodes_.size(); ++v) for (int ei : out.nodes_[v].in_edges_) { auto& e = out.edges_[ei]; double t = log(e.edge_prob_), w = e.feature_values_.value(FD::Convert("W")), want_s = 0; for (unsigned k : e.tail_nodes_) { t += vit[k]; w += vw[k]; want_s += vw[k]; } if (fabs(t - vit[v]) < 1e-9) tie = true; if (t > vit[v]) vit[v] = t, vw[v] = w;
        if (HGSpace::eid(e, ne) >= 0 && !tie) x.check(vc::close(e.feature_values_.value(fS), want_s, 1e-6), "side", "the ignored state bytes seen by a parent are not those of the node's best derivation"); } }
  if (want.size() > 1) x.nontrivial();
}
static void run(vc::X& x) {
  SetSilent(true); static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  fA = FD::Convert("A"); fB = FD::Convert("B"); fC = FD::Convert("C"); fH = FD::Convert("H"); fM = FD::Convert("M"); fI = FD::Convert("I"); fBF = FD::Convert("BF"); fMF = FD::Convert("MF"); fS = FD::Convert("Side"); int w = FD::Convert("W"), g = FD::Convert("G");
  weights.resize(40); weights[fA] = -.3; weights[fB] = 1.1; weights[fC] = .37; weights[fH] = -.21; weights[fI] = 0; weights[fBF] = .9; weights[fMF] = .6; weights[fS] = 0; weights[w] = 1; weights[g] = .13;
  sets = {{"A", {&mA}}, {"B", {&mB}}, {"C", {&mC}}, {"H", {&mH}}, {"M", {&mM}}, {"I", {&mI}}, {"AH", {&mA, &mH}}, {"CH", {&mC, &mH}}, {"AC", {&mA, &mC}}, {"AB", {&mA, &mB}}, {"BAM", {&mB, &mA, &mM}}, {"MBC", {&mM, &mB, &mC}}, {"BI", {&mB, &mI}}, {"IMB", {&mI, &mM, &mB}}, {"CBH", {&mC, &mB, &mH}}};
  uint64_t n = 0;
  auto go = [&](const AHG& h0) {
    AHG h = h0; for (size_t i = 0; i < h.e.size(); ++i) { h.e[i].word = h0.e[i].word * 5 + n % 4; } HGSpace::weigh(&h, n % 3 == 2 ? 1 : n % 3 == 1 ? 3 : 0);
    for (auto& e : h.e) for (auto& f : h.e) if (&e < &f && e.head == f.head && HGSpace::rule(e) == HGSpace::rule(f) && e.tails == f.tails) { f.word += 4; }
    vector<vector<Deriv>> D; if (!HGSpace::derivs(h, &D, 400)) return;
    vector<char> used(h.n); for (auto& e : h.e) for (int t : e.tails) used[t] = 1; used[h.n - 1] = 1; for (int v = 0; v < h.n; ++v) if (!used[v]) return;
    Hypergraph in; HGSpace::build(h, &in, false); static TRulePtr gr(new TRule("[Goal] ||| [X,1] ||| [1]")); Hypergraph::TailNodeVector t(1, h.n - 1); static const int kG = TD::Convert("Goal"); in.AddNode(-kG)->node_hash = 99; HG::Edge* e = in.AddEdge(gr, t); e->i_ = 0; e->j_ = 1; in.ConnectEdgeToHeadNode(e->id_, h.n);
    size_t k = 0; for (auto& s : sets) for (int alg = 0; alg < 4; ++alg) for (int pop : {1, 2, 3, 6, 1000}) { if (alg == 0 && pop != 1) continue; if (alg && s.name == "A" && pop != 2) continue; ++k; if (!x.thorough && (k + n) % 3) continue; one(x, h, D, in, s, alg, pop); }
    ++n;
  };
  HGSpace::each(1, {3}, {0}, go); HGSpace::each(2, {2, 3}, {0, 3}, go); HGSpace::each(3, {2, 2, 2}, {0, 2, 2}, go); HGSpace::each(3, {1, 2, 2}, {0, 1, 3}, go);
  if (x.thorough) { HGSpace::each(3, {3, 3, 2}, {0, 2, 2}, go); HGSpace::each(4, {1, 2, 2, 2}, {0, 1, 2, 2}, go); } else HGSpace::each(4, {2, 2, 1, 1}, {0, 1, 2, 2}, go);
}
VC_MAIN(run)
