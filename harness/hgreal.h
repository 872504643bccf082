// Independent reading of a real Hypergraph object: structural soundness and its explicit list of derivations.
#ifndef HGREAL_H_
#define HGREAL_H_
#include "vc.h"
#include "hg.h"
#include "tdict.h"
#include "fdict.h"
#include "trule.h"
struct RDeriv {
  std::vector<int> edges;                 // real edge indices, post-order
  std::map<int, double> feats;
  double lp = 0;
  std::vector<WordID> e, f;
  std::string tree;                       // rules applied, bracketed
  std::string estr() const { return TD::GetString(e); }
  std::string fstr() const { return TD::GetString(f); }
  std::string featstr() const {           // deterministic text form of the feature vector
    std::map<std::string, double> m; for (auto& kv : feats) if (std::fabs(kv.second) > 1e-7) m[FD::Convert(kv.first)] = kv.second;
    std::ostringstream o; o.precision(6); bool first = true; for (auto& kv : m) { o << (first ? "" : " ") << kv.first << '=' << kv.second; first = false; }
    return o.str();
  }
};
struct HGReal {
  // "" if every index in the object is consistent
  static std::string sound(const Hypergraph& g, bool topo = true, bool derivable = true) {
    std::ostringstream o;
    const int n = g.nodes_.size(), m = g.edges_.size();
    std::map<std::pair<int, int>, int> out, in;
    for (int i = 0; i < m; ++i) {
      const HG::Edge& e = g.edges_[i];
      if (e.id_ != i) { o << "edge " << i << " has id " << e.id_; return o.str(); }
      if (e.head_node_ < 0 || e.head_node_ >= n) { o << "edge " << i << " has head " << e.head_node_; return o.str(); }
      in[{e.head_node_, i}]++;
      for (unsigned t : e.tail_nodes_) {
        if ((int)t >= n) { o << "edge " << i << " has tail " << (int)t; return o.str(); }
        if (topo && (int)t >= e.head_node_) { o << "edge " << i << " tail " << t << " not before head " << e.head_node_; return o.str(); }
        out[{(int)t, i}]++;
      }
      if (e.rule_ && e.rule_->Arity() != e.Arity()) { o << "edge " << i << " has " << e.Arity() << " tails but its rule has arity " << e.rule_->Arity(); return o.str(); }
    }
    std::map<std::pair<int, int>, int> out2, in2;
    for (int v = 0; v < n; ++v) {
      if (g.nodes_[v].id_ != v) { o << "node " << v << " has id " << g.nodes_[v].id_; return o.str(); }
      for (int e : g.nodes_[v].in_edges_) in2[{v, e}]++;
      for (int e : g.nodes_[v].out_edges_) out2[{v, e}]++;
    }
    if (in != in2) return "in_edges do not match the edges' heads";
    if (out != out2) return "out_edges do not match the edges' tails";
    if (derivable) for (int v = 0; v < n; ++v) if (g.nodes_[v].in_edges_.empty()) { o << "node " << v << " has no derivation"; return o.str(); }
    if (derivable) for (int v = 0; v + 1 < n; ++v) if (g.nodes_[v].out_edges_.empty()) { o << "node " << v << " is not used and is not the goal"; return o.str(); }
    return "";
  }
  // derivations of every node; false if more than cap at some node (or cyclic)
  static bool derivs(const Hypergraph& g, std::vector<std::vector<RDeriv>>* D, size_t cap = 5000, bool words = true) {
    D->assign(g.nodes_.size(), {});
    std::vector<int> color(g.nodes_.size(), 0);
    for (size_t v = 0; v < g.nodes_.size(); ++v) if (!visit(g, v, D, &color, cap, words)) return false;
    return true;
  }
  static bool goal_derivs(const Hypergraph& g, std::vector<RDeriv>* R, size_t cap = 5000, bool words = true) {
    R->clear();
    if (g.nodes_.empty()) return true;
    std::vector<std::vector<RDeriv>> D(g.nodes_.size()); std::vector<int> color(g.nodes_.size(), 0);
    if (!visit(g, g.nodes_.size() - 1, &D, &color, cap, words)) return false;
    R->swap(D.back());
    return true;
  }
  static bool visit(const Hypergraph& g, int v, std::vector<std::vector<RDeriv>>* D, std::vector<int>* color, size_t cap, bool words) {
    if ((*color)[v] == 2) return true;
    if ((*color)[v] == 1) return false;
    (*color)[v] = 1;
    for (int ei : g.nodes_[v].in_edges_) {
      const HG::Edge& e = g.edges_[ei];
      for (unsigned t : e.tail_nodes_) if (!visit(g, t, D, color, cap, words)) return false;
      bool empty = false; for (unsigned t : e.tail_nodes_) if ((*D)[t].empty()) empty = true;
      if (empty) continue;
      std::vector<size_t> ix(e.tail_nodes_.size(), 0);
      while (true) {
        RDeriv d; std::vector<const RDeriv*> kid;
        for (size_t k = 0; k < ix.size(); ++k) kid.push_back(&(*D)[e.tail_nodes_[k]][ix[k]]);
        d.lp = log(e.edge_prob_);
        for (SparseVector<double>::const_iterator it = e.feature_values_.begin(); it != e.feature_values_.end(); ++it) d.feats[it->first] += it->second;
        for (auto k : kid) { d.lp += k->lp; for (auto& kv : k->feats) d.feats[kv.first] += kv.second; d.edges.insert(d.edges.end(), k->edges.begin(), k->edges.end()); }
        d.edges.push_back(ei);
        if (words && e.rule_) {
          d.tree = "(" + e.rule_->AsString(false);
          for (auto k : kid) d.tree += " " + k->tree;
          d.tree += ")";
          for (WordID w : e.rule_->e_) { if (w <= 0) { if (-w >= (int)kid.size()) return false; auto& k = kid[-w]->e; d.e.insert(d.e.end(), k.begin(), k.end()); } else d.e.push_back(w); }
          size_t c = 0; for (WordID w : e.rule_->f_) { if (w < 0) { if (c >= kid.size()) return false; auto& k = kid[c++]->f; d.f.insert(d.f.end(), k.begin(), k.end()); } else d.f.push_back(w); }
        }
        (*D)[v].push_back(d);
        if ((*D)[v].size() > cap) return false;
        size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < (*D)[e.tail_nodes_[k]].size()) break; ix[k] = 0; }
        if (k == ix.size()) break;
      }
    }
    (*color)[v] = 2;
    return true;
  }
};
#endif
