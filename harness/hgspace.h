// Space of small acyclic hypergraphs, with an independent brute-force semantics (list of derivations).
#ifndef HGSPACE_H_
#define HGSPACE_H_
#include "vc.h"
#include "hg.h"
#include "trule.h"
#include "tdict.h"
#include "fdict.h"

struct AEdge { int head; std::vector<int> tails; int id; int word; double lp; double feat; };
struct AHG {
  int n = 0;
  std::vector<AEdge> e;
  std::string str() const {
    std::ostringstream o; o << "nodes=" << n;
    for (auto& x : e) { o << " e" << x.id << ":" << x.head << "<-("; for (int t : x.tails) o << t << ' '; o << ")w" << x.word << " lp=" << x.lp; }
    return o.str();
  }
};
struct Deriv {
  std::vector<int> edges;          // edge ids in post-order (children left to right, then the edge)
  double lp = 0;
  std::vector<std::string> yield;  // target words
  std::vector<std::string> fyield;
  std::string ystr() const { std::string s; for (auto& w : yield) { if (s.size()) s += ' '; s += w; } return s; }
};

// target-side patterns; nonterminal k is written as -(k)
inline std::vector<std::string> epattern(const AEdge& e) {
  static const char* W[] = {"a", "b", "c", "a"};
  std::string w = W[e.word % 4];
  std::vector<std::string> r;
  int k = e.tails.size();
  if (k == 0) r = {w};
  else if (k == 1) { if (e.word % 3 == 0) r = {"[1]"}; else if (e.word % 3 == 1) r = {"[1]", w}; else r = {w, "[1]"}; }
  else if (k == 2) { if (e.word % 3 == 0) r = {"[1]", "[2]"}; else if (e.word % 3 == 1) r = {"[2]", w, "[1]"}; else r = {w, "[2]", "[1]"}; }
  else if (k == 3) { if (e.word % 3 == 0) r = {"[2]", "[3]", "[1]"}; else if (e.word % 3 == 1) r = {"[3]", w, "[1]", "[2]"}; else r = {"[1]", "[3]", w, "[2]"}; }
  return r;
}
inline std::vector<std::string> fpattern(const AEdge& e) {
  std::vector<std::string> r; r.push_back("f" + std::to_string(e.word % 5));
  for (size_t i = 0; i < e.tails.size(); ++i) r.push_back("[X," + std::to_string(i + 1) + "]");
  return r;
}
inline std::string rule_text(const AEdge& e, const std::string& lhs = "X") {
  std::string s = "[" + lhs + "] |||";
  for (auto& f : fpattern(e)) s += " " + f;
  s += " |||";
  for (auto& w : epattern(e)) s += " " + w;
  return s;
}

struct HGSpace {
  // derivations of each node
  static bool derivs(const AHG& h, std::vector<std::vector<Deriv>>* out, size_t cap = 4000) {
    out->assign(h.n, std::vector<Deriv>());
    for (int v = 0; v < h.n; ++v) {
      for (auto& e : h.e) if (e.head == v) {
        std::vector<Deriv> cur(1);
        std::vector<std::vector<const Deriv*>> kids(1);
        // cross product
        std::vector<size_t> ix(e.tails.size(), 0);
        bool empty = false; for (int t : e.tails) if ((*out)[t].empty()) empty = true;
        if (empty) continue;
        while (true) {
          Deriv d; d.lp = e.lp;
          for (size_t k = 0; k < ix.size(); ++k) { const Deriv& a = (*out)[e.tails[k]][ix[k]]; d.lp += a.lp; d.edges.insert(d.edges.end(), a.edges.begin(), a.edges.end()); }
          d.edges.push_back(e.id);
          for (auto& w : epattern(e)) {
            if (w[0] == '[') { auto& a = (*out)[e.tails[w[1] - '1']][ix[w[1] - '1']]; d.yield.insert(d.yield.end(), a.yield.begin(), a.yield.end()); }
            else d.yield.push_back(w);
          }
          int c = 0;
          for (auto& w : fpattern(e)) {
            if (w[0] == '[') { auto& a = (*out)[e.tails[c]][ix[c]]; ++c; d.fyield.insert(d.fyield.end(), a.fyield.begin(), a.fyield.end()); }
            else d.fyield.push_back(w);
          }
          (*out)[v].push_back(d);
          if ((*out)[v].size() > cap) return false;
          size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < (*out)[e.tails[k]].size()) break; ix[k] = 0; }
          if (k == ix.size()) break;
        }
      }
    }
    return true;
  }
  static TRulePtr rule(const AEdge& e, const std::string& lhs = "X") {
    static std::map<std::string, std::vector<TRulePtr>> cache;
    std::vector<TRulePtr>& c = cache[lhs];
    if (c.empty()) c.resize(60 * 4);   // the text depends on the word modulo 3, 4, 5 and on the arity
    TRulePtr& r = c[(e.word % 60) * 4 + e.tails.size()];
    if (!r) r.reset(new TRule(rule_text(e, lhs)));
    return r;
  }
  // build the real object. order: permutation of edge insertion (nullptr = natural)
  static void build(const AHG& h, Hypergraph* hg, bool reversed = false) {
    hg->clear();
    hg->is_linear_chain_ = false;
    hg->edges_topo_ = true;
    static const int kX = TD::Convert("X"), kW = FD::Convert("W"), kG = FD::Convert("G");
    hg->ReserveNodes(h.n, h.e.size());
    for (int i = 0; i < h.n; ++i) { Hypergraph::Node* n = hg->AddNode(-kX); n->node_hash = 1000 + i * 7919; }
    int ne = h.e.size();
    for (int q = 0; q < ne; ++q) {
      const AEdge& e = h.e[reversed ? ne - 1 - q : q];
      Hypergraph::TailNodeVector t;
      for (int x : e.tails) t.push_back(x);
      Hypergraph::Edge* ed = hg->AddEdge(rule(e), t);
      ed->feature_values_.set_value(kW, e.lp);
      if (e.feat != 0) ed->feature_values_.set_value(kG, e.feat);
      ed->feature_values_.set_value(fid(e.id), 1.0);
      ed->i_ = e.head; ed->j_ = e.head + 1; ed->prev_i_ = e.id; ed->prev_j_ = e.id + 3;
      ed->edge_prob_.logeq(e.lp);
      hg->ConnectEdgeToHeadNode(ed->id_, e.head);
    }
  }
  static int fid(int e) { static std::vector<int> v; while ((int)v.size() <= e) v.push_back(FD::Convert("E" + std::to_string(v.size()))); return v[e]; }
  // which abstract edge is this real edge?
  static int eid(const HG::Edge& e, int ne) { for (int i = 0; i < ne; ++i) if (e.feature_values_.value(fid(i)) != 0) return i; return -1; }

  // weight patterns
  static void weigh(AHG* h, int pat) {
    static const double L[] = {-0.31, -1.7, 0.4, -0.05, -2.3, -0.9, -1.1, 0.2, -3.1, -0.6, -0.77, -1.9, -0.13, -2.7};
    static const double F[] = {1, 0, -2, 0.5, 0, 3, -1, 0, 0.25, 1, 0, -0.5, 2, 0};
    for (size_t i = 0; i < h->e.size(); ++i) {
      AEdge& e = h->e[i];
      e.feat = F[i % 14];
      switch (pat) {
        case 0: e.lp = L[i % 14]; break;
        case 1: e.lp = -0.5; break;                                  // many ties
        case 2: e.lp = (i % 3 == 0) ? -30 : (i % 3 == 1) ? 12 : -0.7; break;  // spread, positive logs
        case 3: e.lp = -0.25 * ((i * 5) % 7); break;
        case 4: e.lp = -400.0 + 3 * (i % 5); break;                  // underflows double when exponentiated
      }
    }
  }

  typedef std::vector<std::vector<int>> Menu;
  static Menu menu(int v, int max_arity) {
    Menu m; m.push_back({});
    for (int a = 0; a < v; ++a) m.push_back({a});
    if (max_arity >= 2) for (int a = 0; a < v; ++a) for (int b = 0; b < v; ++b) m.push_back({a, b});
    if (max_arity >= 3) for (int a = 0; a < v; ++a) for (int b = 0; b < v; ++b) for (int c = 0; c < v; ++c) m.push_back({a, b, c});
    return m;
  }
  // enumerate structures: node v takes a multiset of size 1..maxin[v] from its menu
  template <class F> static void each(int n, const std::vector<int>& maxin, const std::vector<int>& arity, F f) {
    AHG h; h.n = n;
    rec(h, 0, maxin, arity, f);
  }
  template <class F> static void rec(AHG& h, int v, const std::vector<int>& maxin, const std::vector<int>& arity, F& f) {
    if (v == h.n) { f(h); return; }
    Menu m = menu(v, arity[v]);
    std::vector<int> pick;
    rec2(h, v, m, 0, pick, maxin, arity, f);
  }
  template <class F> static void rec2(AHG& h, int v, const Menu& m, int from, std::vector<int>& pick, const std::vector<int>& maxin, const std::vector<int>& arity, F& f) {
    if (!pick.empty()) {
      size_t base = h.e.size();
      for (size_t i = 0; i < pick.size(); ++i) {
        AEdge e; e.head = v; e.tails = m[pick[i]]; e.id = base + i; e.word = base + i; e.lp = 0; e.feat = 0; h.e.push_back(e);
      }
      rec(h, v + 1, maxin, arity, f);
      h.e.resize(base);
    }
    if ((int)pick.size() == maxin[v]) return;
    for (int i = from; i < (int)m.size(); ++i) { pick.push_back(i); rec2(h, v, m, i, pick, maxin, arity, f); pick.pop_back(); }
  }
  // the standard space. level 0: small, 1: standard, 2: deep
  template <class F> static void standard(int level, F f) {
    each(1, {3}, {0}, f);
    each(2, {2, 3}, {0, 3}, f);
    if (level >= 1) each(3, {2, 3, 3}, {0, 2, 2}, f); else each(3, {2, 2, 2}, {0, 2, 2}, f);
    each(3, {1, 2, 2}, {0, 1, 3}, f);
    if (level >= 1) each(4, {2, 2, 2, 2}, {0, 1, 2, 2}, f); else each(4, {1, 2, 2, 1}, {0, 1, 2, 2}, f);
    if (level >= 2) { each(4, {2, 2, 3, 2}, {0, 2, 2, 2}, f); each(5, {1, 2, 2, 2, 1}, {0, 1, 2, 2, 2}, f); each(3, {2, 2, 2}, {0, 3, 3}, f); }
  }
};
#endif
