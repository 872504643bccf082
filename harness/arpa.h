// A back-off language model held as plain maps: the definition the toolkit is compared with.
#ifndef ARPA_H_
#define ARPA_H_
#include "vc.h"
struct Arpa {
  typedef std::vector<std::string> G;
  int order = 0; std::map<G, std::pair<double, double>> t;   // log10 probability, log10 back-off
  void add(const G& g, double p, double b) { t[g] = {p, b}; if ((int)g.size() > order) order = g.size(); }
  bool has(const G& g) const { return t.count(g); }
  double unk_missing = -100;
  // log10 p(w | context); context oldest word first; words already mapped to <unk> when unknown.  *len: length of the n-gram used
  double score(const G& ctx, const std::string& w, int* len = 0) const {
    double back = 0; size_t n = std::min<size_t>(ctx.size(), order - 1);
    for (size_t k = n + 1; k-- > 0;) {   // k words of context
      G g(ctx.end() - k, ctx.end()); g.push_back(w); auto i = t.find(g);
      if (i != t.end()) { if (len) *len = k + 1; return back + i->second.first; }
      if (k) { G c(ctx.end() - k, ctx.end()); auto j = t.find(c); if (j != t.end()) back += j->second.second; }
    }
    if (len) *len = 0;
    return back + unk_missing;
  }
  std::string map(const std::string& w) const { return t.count(G(1, w)) ? w : "<unk>"; }
  // whole sentence with markers; oov: number of words without a unigram
  double sentence(const G& s, int* oov = 0, bool markers = true) const {
    G h; double p = 0; if (oov) *oov = 0; if (markers) h.push_back("<s>");
    for (auto& w : s) { std::string m = map(w); if (m == "<unk>" && oov) ++*oov; p += score(h, m); h.push_back(m); }
    if (markers) p += score(h, "</s>");
    return p;
  }
  std::string text() const {
    std::ostringstream o; o.precision(9); o << "\\data\\\n"; for (int n = 1; n <= order; ++n) { int c = 0; for (auto& kv : t) c += (int)kv.first.size() == n; o << "ngram " << n << '=' << c << '\n'; }
    for (int n = 1; n <= order; ++n) { o << "\n\\" << n << "-grams:\n"; for (auto& kv : t) if ((int)kv.first.size() == n) { o << kv.second.first << '\t'; for (size_t i = 0; i < kv.first.size(); ++i) o << (i ? " " : "") << kv.first[i]; if (n < order && kv.second.second != 0) o << '\t' << kv.second.second; o << '\n'; } }
    o << "\n\\end\\\n"; return o.str();
  }
  void write(const std::string& f) const { std::ofstream o(f.c_str()); o << text(); }
  std::string brief() const { std::ostringstream o; for (auto& kv : t) { for (size_t i = 0; i < kv.first.size(); ++i) o << (i ? " " : "") << kv.first[i]; o << ":" << kv.second.first; if (kv.second.second != 0) o << "/" << kv.second.second; o << "; "; } return o.str(); }
};
// deterministic but irregular scores
inline double arpa_p(int i) { return -0.1 - 0.1 * ((i * 7 + 3) % 23) - 0.001 * (i % 11); }
inline double arpa_b(int i) { return -0.05 - 0.07 * ((i * 5 + 2) % 13); }
// The family of small models: unigrams over <unk> <s> </s> a b (c unless dropped), a subset of bigrams and of trigrams and 4-grams whose contexts exist.
// unk: 0 absent, 1 present.  zero: back-offs of n-grams nothing extends are zero (as estimators write them), else every n-gram has one.
struct ArpaSpace {
  static std::vector<Arpa::G>& bigrams() { static std::vector<Arpa::G> b = {{"<s>", "a"}, {"a", "b"}, {"b", "a"}, {"b", "b"}, {"a", "</s>"}, {"a", "<unk>"}, {"<unk>", "b"}, {"b", "</s>"}}; return b; }
  static std::vector<Arpa::G>& trigrams() { static std::vector<Arpa::G> b = {{"<s>", "a", "b"}, {"a", "b", "a"}, {"b", "a", "b"}, {"b", "b", "b"}, {"a", "b", "</s>"}, {"a", "<unk>", "b"}, {"<s>", "a", "</s>"}}; return b; }
  static Arpa make(int bi, int tri, int four, bool unk, bool zero, int order, int seed = 0) {
    Arpa m; int k = seed; for (const char* w : {"<s>", "</s>", "a", "b"}) { m.add({w}, std::string(w) == "<s>" ? -99 : arpa_p(k), arpa_b(k)); ++k; } if (unk) m.add({"<unk>"}, -1.9, arpa_b(k++));
    for (size_t i = 0; i < bigrams().size(); ++i) if (bi >> i & 1) { bool ok = true; for (auto& w : bigrams()[i]) if (!m.has({w})) ok = false; if (ok) m.add(bigrams()[i], arpa_p(k), arpa_b(k)); ++k; }
    if (order >= 3) for (size_t i = 0; i < trigrams().size(); ++i) if (tri >> i & 1) { Arpa::G g = trigrams()[i]; Arpa::G c(g.begin(), g.end() - 1); if (m.has(c) && m.has({g[2]})) m.add(g, arpa_p(k), arpa_b(k)); ++k; }
    if (order >= 4) for (auto& g : std::vector<Arpa::G>{{"<s>", "a", "b", "a"}, {"a", "b", "a", "b"}, {"b", "b", "b", "b"}, {"a", "b", "a", "</s>"}}) { Arpa::G c(g.begin(), g.end() - 1); if ((four & 1) && m.has(c)) m.add(g, arpa_p(k), 0); ++k; four = four & 2 ? four >> 1 : four; }
    m.order = order;
    if (zero) for (auto& kv : m.t) { bool ext = false; for (auto& o : m.t) if (o.first.size() == kv.first.size() + 1 && std::equal(kv.first.begin(), kv.first.end(), o.first.begin())) ext = true; if (!ext) kv.second.second = 0; }
    for (auto& kv : m.t) if ((int)kv.first.size() == order || kv.first.back() == "</s>") kv.second.second = 0;
    return m;
  }
  // the hashed representation has room for the suffixes that were pruned away
  bool fits(const Arpa& m) { for (int n = 2; n < m.order; ++n) { int c = 0; std::set<Arpa::G> miss; for (auto& kv : m.t) { if ((int)kv.first.size() == n) ++c; if ((int)kv.first.size() > n) { Arpa::G s(kv.first.end() - n, kv.first.end()); if (!m.has(s)) miss.insert(s); } } if ((int)miss.size() + c + 1 > std::max(c + 1, (int)(1.5 * c))) return miss.empty(); } return true; }
  bool full_orders(const Arpa& m) { for (int n = 1; n <= m.order; ++n) { bool f = false; for (auto& kv : m.t) if ((int)kv.first.size() == n) f = true; if (!f) return false; } return true; }
};
#endif
