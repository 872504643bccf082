// Independent definition of hierarchical rule extraction, by brute force over all spans.
#ifndef EXTREF_H_
#define EXTREF_H_
#include "corpus.h"
struct XCfg { int span, gap, nts, syms; bool tight; std::string str() const { std::ostringstream o; o << "span " << span << " gap " << gap << " nonterminals " << nts << " symbols " << syms << (tight ? " tight" : " loose"); return o.str(); } };
typedef std::vector<std::pair<int, int>> Links;
struct XRule { std::string src, tgt; std::set<std::pair<int, int>> al; bool outer; bool operator<(const XRule& o) const { return std::tie(src, tgt, al) < std::tie(o.src, o.tgt, o.al); } };
// chunks: [begin,end) of the terminal chunks of the occurrence within the sentence
inline std::set<XRule> ref_extract(const std::vector<std::string>& f, const std::vector<std::string>& e, const Links& L, const std::vector<std::pair<int, int>>& ch, const XCfg& c) {
  std::set<XRule> out; const int n = f.size(), m = e.size(); std::vector<std::vector<char>> A(n, std::vector<char>(m, 0)); std::vector<char> fa(n, 0), ea(m, 0); for (auto& l : L) { A[l.first][l.second] = 1; fa[l.first] = ea[l.second] = 1; }
  int terms = 0; bool anyal = false; for (auto& k : ch) { terms += k.second - k.first; for (int i = k.first; i < k.second; ++i) anyal |= fa[i]; } if (!anyal) return out;
  auto consistent = [&](int a, int b, int t, int u) { bool any = false; for (auto& l : L) { bool i = l.first >= a && l.first < b, j = l.second >= t && l.second < u; if (i != j) return false; any |= i; } return any; };
  const int s = ch[0].first, z = ch.back().second;
  for (int lead = -1; lead < s; ++lead) for (int trail = n + 1; trail > z; --trail) {  // -1 / n+1: none
    bool hl = lead >= 0, ht = trail <= n; int a = hl ? lead : s, b = ht ? trail : z; if ((hl && s - lead < c.gap) || (ht && trail - z < c.gap)) continue;
    std::vector<std::pair<int, int>> G; if (hl) G.push_back({a, s}); bool ok = true; for (size_t i = 0; i + 1 < ch.size(); ++i) { G.push_back({ch[i].second, ch[i + 1].first}); if (ch[i + 1].first - ch[i].second < c.gap) ok = false; } if (ht) G.push_back({z, b});
    if (!ok || (int)G.size() > c.nts || terms + (int)G.size() > c.syms || b - a > c.span) continue;
    if (c.tight) { if (!fa[a] || !fa[b - 1]) continue; for (auto& g : G) if (!fa[g.first] || !fa[g.second - 1]) ok = false; if (!ok) continue; }
    for (int t = 0; t < m; ++t) for (int u = t + 1; u <= m; ++u) {
      if (u - t > c.span || !consistent(a, b, t, u)) continue; if (c.tight && (!ea[t] || !ea[u - 1])) continue;
      std::vector<std::pair<int, int>> T(G.size());
      std::function<void(size_t)> rec = [&](size_t i) {
        if (i == G.size()) {
          XRule r; r.outer = hl || ht; std::map<int, int> fi, ei; int k = 0;
          auto put = [&](std::string* o, const std::string& w) { if (!o->empty()) *o += ' '; *o += w; };
          for (int p = a; p < b;) { int g = -1; for (size_t q = 0; q < G.size(); ++q) if (G[q].first == p) g = q; if (g >= 0) { put(&r.src, "[X," + std::to_string(g + 1) + "]"); p = G[g].second; } else { put(&r.src, f[p]); fi[p] = k; ++p; } ++k; }
          k = 0; for (int p = t; p < u;) { int g = -1; for (size_t q = 0; q < G.size(); ++q) if (T[q].first == p) g = q; if (g >= 0) { put(&r.tgt, "[X," + std::to_string(g + 1) + "]"); p = T[g].second; } else { put(&r.tgt, e[p]); ei[p] = k; ++p; } ++k; }
          for (auto& l : L) if (fi.count(l.first) && ei.count(l.second)) r.al.insert({fi[l.first], ei[l.second]});
          out.insert(r); return;
        }
        for (int p = t; p < u; ++p) for (int q = p + 1; q <= u; ++q) { if (!consistent(G[i].first, G[i].second, p, q)) continue; if (c.tight && (!ea[p] || !ea[q - 1])) continue; bool clash = false; for (size_t j = 0; j < i; ++j) if (p < T[j].second && T[j].first < q) clash = true; if (clash) continue; T[i] = {p, q}; rec(i + 1); }
      };
      rec(0);
    }
  }
  return out;
}
// all patterns (chunks) of terminals in positions [0,n) with the configured gap and symbol limits and starting and ending in a terminal
inline void all_patterns(int n, const XCfg& c, const std::function<void(const std::vector<std::pair<int, int>>&)>& f) {
  std::vector<std::pair<int, int>> ch; std::function<void(int, int)> rec = [&](int from, int syms) { for (int a = from; a < n; ++a) { if (ch.empty() || a - ch.back().second >= c.gap) for (int b = a + 1; b <= n; ++b) { int sy = syms + (ch.empty() ? 0 : 1) + b - a; if (sy > c.syms || (int)ch.size() > c.nts) break; if (b - (ch.empty() ? a : ch[0].first) > c.span) break; ch.push_back({a, b}); f(ch); rec(b + c.gap, sy); ch.pop_back(); } } };
  rec(0, 0);
}
#endif
