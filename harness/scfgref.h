// The derivations a synchronous grammar licenses for a sentence or lattice, enumerated from the definition.
#ifndef SCFGREF_H_
#define SCFGREF_H_
#include "vc.h"
#include <tuple>
#include <cstring>
using namespace std;
// ---- reference
struct Sym { bool nt; string s; int ix; };
struct Rule { string lhs; vector<Sym> f, e; map<string, double> ft; string text; int kind; };   // kind 0 grammar 1 glue 2 pass-through 3 goal
static vector<Sym> side(const string& t) {
  vector<Sym> r; istringstream in(t); string w; int k = 0;
  while (in >> w) { if (w[0] == '[') { string b = w.substr(1, w.size() - 2); size_t c = b.find(','); Sym s{true, b.substr(0, c), k}; if (c == string::npos && isdigit(b[0])) { s.s = ""; s.ix = atoi(b.c_str()) - 1; } else if (c != string::npos) s.ix = atoi(b.c_str() + c + 1) - 1; ++k; r.push_back(s); } else r.push_back(Sym{false, w, 0}); }
  return r;
}
static Rule mk(const string& text, int kind) {
  Rule r; r.text = text; r.kind = kind; vector<string> p; size_t a = 0; while (true) { size_t b = text.find(" ||| ", a); p.push_back(text.substr(a, b - a)); if (b == string::npos) break; a = b + 5; }
  r.lhs = p[0].substr(1, p[0].size() - 2); r.f = side(p[1]); r.e = side(p[2]);
  if (p.size() > 3) { istringstream in(p[3]); string w; while (in >> w) { size_t q = w.find('='); r.ft[w.substr(0, q)] = atof(w.c_str() + q + 1); } }
  return r;
}
struct Arc { string w; int to; vector<double> cost; };
typedef vector<vector<Arc>> Lat;
struct D { string tree, f, e; map<string, double> ft; };
static void addf(map<string, double>& a, const map<string, double>& b) { for (auto& kv : b) a[kv.first] += kv.second; }
static string fstr(const map<string, double>& m) { ostringstream o; o.precision(6); for (auto& kv : m) if (fabs(kv.second) > 1e-7) o << ' ' << kv.first << '=' << kv.second; return o.str(); }
struct Ref {
  const vector<Rule>& rules; const Lat& in; int n, span; vector<vector<int>> dist; string goal; size_t cap; bool over = false, whole = false;   // whole: every state in what a rule covers has to be within the span limit, not only its end
 
  map<tuple<string, int, int>, vector<D>> memo;
  Ref(const vector<Rule>& r, const Lat& l, int sp, size_t c) : rules(r), in(l), n(l.size()), span(sp), goal("S"), cap(c) {
    dist.assign(n + 1, vector<int>(n + 1, 1000)); for (int i = 0; i < n; ++i) for (auto& a : l[i]) dist[i][a.to] = 1;
    for (int k = 0; k <= n; ++k) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) dist[i][j] = min(dist[i][j], dist[i][k] + dist[k][j]);
  }
  bool allowed(const Rule& r, int i, int j) { if (r.kind == 1) return i == 0; if (r.kind == 2) return dist[i][j] < 4; if (r.kind == 3) return true; return dist[i][j] <= span; }
  bool near(const Rule& r, int i, int j) { if (whole) for (int k = i + 1; k <= j; ++k) if (dist[i][k] < 1000 && !allowed(r, i, k)) return false; return true; }
  const vector<D>& get(const string& cat, int i, int j) {
    auto key = make_tuple(cat, i, j); auto it = memo.find(key); if (it != memo.end()) return it->second;
    vector<D> out;
    for (auto& r : rules) if (r.lhs == cat) {
      bool unary = r.f.size() == 1 && r.f[0].nt;
      if (unary && r.kind != 3 && r.f[0].s == goal) continue;          // the parser never rewrites the goal category again
      if (!unary && (!allowed(r, i, j) || !near(r, i, j))) continue;
      vector<D> kids; match(r, 0, i, j, map<string, double>(), vector<D>(), unary, i, j, &out);
      if (out.size() > cap) { over = true; break; }
    }
    return memo[key] = out;
  }
  void match(const Rule& r, size_t pos, int at, int j, map<string, double> lf, vector<D> kids, bool unary, int i0, int j0, vector<D>* out) {
    if (over) return;
    if (at == j && pos == r.f.size()) {
      D d; d.ft = r.ft; addf(d.ft, lf); ostringstream o; o << '(' << r.lhs << " ->"; for (auto& s : r.f) o << ' ' << (s.nt ? "[" + s.s + "]" : s.s); o << " |"; for (auto& s : r.e) { if (s.nt) o << " <" << s.ix << '>'; else o << ' ' << s.s; } o << " @" << i0 << '-' << j0 << fstr(d.ft);
      for (auto& k : kids) { o << ' ' << k.tree; addf(d.ft, k.ft); } o << ')'; d.tree = o.str();
      int c = 0; for (auto& s : r.f) if (s.nt) d.f += kids[c++].f; else d.f += s.s + ' ';
      for (auto& s : r.e) if (s.nt) d.e += kids[s.ix].e; else d.e += s.s + ' ';
      out->push_back(d); if (out->size() > cap) over = true;
    }
    if (!unary && at < j) for (auto& a : in[at]) if (a.to <= j) {
      bool eps = a.w == "*EPS*"; bool word = pos < r.f.size() && !r.f[pos].nt && r.f[pos].s == a.w;
      if (!eps && !word) continue;
      map<string, double> l2 = lf; for (size_t k = 0; k < a.cost.size(); ++k) l2["LatticeCost_" + to_string(k)] += a.cost[k];
      match(r, eps ? pos : pos + 1, a.to, j, l2, kids, unary, i0, j0, out);
    }
    if (pos < r.f.size() && r.f[pos].nt) {
      // every span the nonterminal may cover; a symbol to its left or right always covers at least one arc
      for (int k = at + 1; k <= j; ++k) { if (unary && k != j) continue; if (!unary && at == i0 && k == j0) continue;
        const vector<D>& s = get(r.f[pos].s, at, k); if (over) return;
        vector<D> c = s; for (auto& d : c) { auto k2 = kids; k2.push_back(d); match(r, pos + 1, k, j, lf, k2, unary, i0, j0, out); if (over) return; } }
    }
  }
};
static const Rule& goal_rule() { static Rule r = mk("[Goal] ||| [S,1] ||| [1]", 3); return r; }
#endif
