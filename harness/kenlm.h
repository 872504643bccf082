// Shared by the language model harnesses: small models of orders 2-6, their closure under suffixes, quantised references, model dispatch.
#ifndef KENLM_H_
#define KENLM_H_
#include "arpa.h"
#include "lm/model.hh"
#include "lm/enumerate_vocab.hh"
#include "lm/binary_format.hh"
#include "lm/lm_exception.hh"
#include "util/probing_hash_table.hh"
typedef Arpa::G G;
// all n-grams that are looked up: the stored ones and every suffix of one (their probability is the backed-off one, no back-off weight)
inline Arpa closure(const Arpa& m) {
  Arpa c = m; for (auto& kv : m.t) for (size_t k = 2; k < kv.first.size(); ++k) { G s(kv.first.end() - k, kv.first.end()); if (c.has(s)) continue; G ctx(s.begin(), s.end() - 1); double p = m.score(ctx, s.back()); c.t[s] = {p, 0}; }
  return c;
}
// a model from explicit lists: contexts have to be there; suffixes need not
inline const std::vector<G>& pool() { static std::vector<G> v = {
  {"<s>", "a"}, {"a", "b"}, {"b", "a"}, {"b", "b"}, {"a", "</s>"}, {"a", "<unk>"}, {"<unk>", "b"}, {"b", "</s>"},
  {"<s>", "a", "b"}, {"a", "b", "a"}, {"b", "a", "b"}, {"b", "b", "b"}, {"a", "b", "</s>"}, {"a", "<unk>", "b"}, {"<s>", "a", "</s>"},
  {"<s>", "a", "b", "a"}, {"a", "b", "a", "b"}, {"b", "b", "b", "b"}, {"b", "a", "b", "b"}, {"a", "b", "a", "</s>"},
  {"<s>", "a", "b", "a", "b"}, {"a", "b", "a", "b", "b"}, {"b", "b", "b", "b", "a"},
  {"<s>", "a", "b", "a", "b", "b"}, {"b", "b", "b", "b", "a", "b"}}; return v; }
// mask over pool(); members whose context is missing are left out
inline Arpa from_mask(unsigned mask, bool unk, bool zero, int order, int seed = 0, bool fixup = false) {
  Arpa m; int k = seed; for (const char* w : {"<s>", "</s>", "a", "b"}) { m.add({w}, std::string(w) == "<s>" ? -99 : arpa_p(k), arpa_b(k)); ++k; } if (unk) m.add({"<unk>"}, -1.9, arpa_b(k++));
  for (size_t i = 0; i < pool().size(); ++i) { const G& g = pool()[i]; if (mask >> i & 1 && (int)g.size() <= order) { G c(g.begin(), g.end() - 1); bool ok = m.has(c); for (auto& w : g) ok = ok && m.has({w}); if (fixup) for (size_t j = 2; j < g.size(); ++j) ok = ok && m.has(G(g.end() - j, g.end())); if (ok) m.add(g, arpa_p(k) - 0.0007 * (k % 7), arpa_b(k)); } ++k; }
  m.order = order;
  if (zero) for (auto& kv : m.t) { bool ext = false; for (auto& o : m.t) if (o.first.size() == kv.first.size() + 1 && std::equal(kv.first.begin(), kv.first.end(), o.first.begin())) ext = true; if (!ext) kv.second.second = 0; }
  for (auto& kv : m.t) if ((int)kv.first.size() == order || kv.first.back() == "</s>") kv.second.second = 0;
  return m;
}
inline bool all_orders(const Arpa& m) { std::set<size_t> s; for (auto& kv : m.t) s.insert(kv.first.size()); return (int)s.size() == m.order; }
inline int need_blanks(const Arpa& m) { return closure(m).t.size() - m.t.size(); }
// what quantisation into bins of equal size makes of a model
struct Binned { std::vector<float> c; bool tie = false;
  Binned(std::vector<float> v, size_t bins) { std::sort(v.begin(), v.end()); size_t s = 0; for (size_t i = 0; i < bins; ++i) { size_t f = v.size() * (uint64_t)(i + 1) / bins; if (f == s) continue; double a = 0; for (size_t j = s; j < f; ++j) a += v[j]; c.push_back(a / (f - s)); s = f; } }
  double near(double v) { double b = 1e9, r = v, b2 = 1e9; for (float x : c) { double d = fabs(x - v); if (d < b) { if (x != r) b2 = b; b = d; r = x; } else if (x != r && d < b2) b2 = d; } if (b2 - b < 1e-5) tie = true; return r; } };
inline bool quantised(const Arpa& m, int pb, int bb, Arpa& q) {
  q = closure(m); bool tie = false;
  for (int n = 2; n <= m.order; ++n) { std::vector<float> p, b; for (auto& kv : q.t) if ((int)kv.first.size() == n) { p.push_back(kv.second.first); if (kv.second.second != 0) b.push_back(kv.second.second); } if (p.empty()) continue;
    Binned P(p, 1u << pb), B(b, b.empty() ? 1 : (1u << bb) - 2); for (auto& kv : q.t) if ((int)kv.first.size() == n) { kv.second.first = P.near(kv.second.first); if (kv.second.second != 0 && n < m.order) kv.second.second = B.near(kv.second.second); } tie = tie || P.tie || B.tie; }
  return !tie;
}
enum Rep { PROB, REST, TRIE_, QTRIE, ATRIE, QATRIE, NREP };
static const char* REPN[] = {"probing", "rest probing", "trie", "quantised trie", "array trie", "quantised array trie"};
template <class T_> struct Tag { typedef T_ T; };
template <class F> void dispatch(int rep, F&& f) { using namespace lm::ngram; switch (rep) { case PROB: f(Tag<ProbingModel>()); break; case REST: f(Tag<RestProbingModel>()); break; case TRIE_: f(Tag<TrieModel>()); break; case QTRIE: f(Tag<QuantTrieModel>()); break; case ATRIE: f(Tag<ArrayTrieModel>()); break; default: f(Tag<QuantArrayTrieModel>()); } }
struct Words : lm::EnumerateVocab { std::vector<std::string> w; bool bad = false; void Add(lm::WordIndex i, const StringPiece& s) { if (i != w.size()) bad = true; w.push_back(std::string(s.data(), s.size())); } };
inline lm::ngram::Config quiet() { lm::ngram::Config c; c.show_progress = false; c.messages = 0; c.unknown_missing = lm::SILENT; c.building_memory = 1 << 20; return c; }
#endif
