// C14: extracted rules, their alignments and scores against the brute force definition.
#include "extref.h"
#include "extractor/alignment.h"
#include "phrase.h"
#include "phrase_builder.h"
#include "rule.h"
#include "rule_extractor.h"
#include "extractor/scorer.h"
#include "extractor/grammar.h"
#include "grammar_extractor.h"
#include "precomputation.h"
#include "phrase_location_sampler.h"
#include "translation_table.h"
#include "features/count_source_target.h"
#include "features/feature.h"
#include "features/is_source_singleton.h"
#include "features/is_source_target_singleton.h"
#include "features/max_lex_source_given_target.h"
#include "features/max_lex_target_given_source.h"
#include "features/sample_source_count.h"
#include "features/target_given_source_coherent.h"
#include <unordered_set>
using namespace std;
using namespace extractor;
typedef Corpus::Sents Sents;
static string ltext(const Links& l) { string o; for (auto& p : l) o += (o.empty() ? "" : " ") + to_string(p.first) + "-" + to_string(p.second); return o; }
static string atext(const set<pair<int, int>>& l) { return ltext(Links(l.begin(), l.end())); }
static string pstr(const Phrase& p) { ostringstream o; o << p; return o.str(); }
struct Bi { Sents f, e; vector<Links> al; shared_ptr<DataArray> fd, ed; shared_ptr<SuffixArray> sa; shared_ptr<Alignment> a;
  string text() const { string o; for (size_t i = 0; i < f.size(); ++i) { for (auto& w : f[i]) o += w + " "; o += "||| "; for (auto& w : e[i]) o += w + " "; o += "||| " + ltext(al[i]) + "\n"; } return o; }
  void load(const string& dir) { fd = Corpus::data(dir, f, "f"); ed = Corpus::data(dir, e, "e"); string t; for (auto& l : al) t += ltext(l) + "\n"; a.reset(new Alignment(Corpus::put(dir + "/a", t))); sa.reset(new SuffixArray(fd)); } };
// one sentence pair with distinct words: every occurrence of every pattern
static void single(vc::X& x, int n, int m, uint64_t mask, const vector<XCfg>& cfgs) {
  if (!x.take()) return;
  Bi b; b.f.resize(1); b.e.resize(1); for (int i = 0; i < n; ++i) b.f[0].push_back(string(1, 'a' + i)); for (int j = 0; j < m; ++j) b.e[0].push_back(string(1, 'A' + j)); Links l; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (mask >> (i * m + j) & 1) l.push_back({i, j}); b.al.push_back(l);
  x.desc([=] { string t = b.text(); for (auto& c : cfgs) t += "  " + c.str() + "\n"; return t; });
  b.load(x.dir); shared_ptr<Vocabulary> vo(new Vocabulary); shared_ptr<PhraseBuilder> pb(new PhraseBuilder(vo)); shared_ptr<Scorer> sc(new Scorer(vector<shared_ptr<features::Feature>>()));
  for (auto& c : cfgs) {
    RuleExtractor re(b.fd, b.ed, b.a, pb, sc, vo, c.span, c.gap, c.nts, c.syms, true, false, c.tight);
    all_patterns(n, c, [&](const vector<pair<int, int>>& ch) {
      set<XRule> want = ref_extract(b.f[0], b.e[0], l, ch, c), got; vector<int> sy, pos; for (size_t i = 0; i < ch.size(); ++i) { if (i) sy.push_back(vo->GetNonterminalIndex(i)); pos.push_back(ch[i].first); for (int p = ch[i].first; p < ch[i].second; ++p) sy.push_back(vo->GetTerminalIndex(b.f[0][p])); }
      Phrase ph = pb->Build(sy); vector<Rule> rs = re.ExtractRules(ph, PhraseLocation(pos, ch.size())); x.step();
      for (auto& r : rs) { XRule q; q.src = pstr(r.source_phrase); q.tgt = pstr(r.target_phrase); q.al.insert(r.alignment.begin(), r.alignment.end()); q.outer = q.src[0] == '[' || q.src.back() == ']'; x.check(got.insert(q).second && q.al.size() == r.alignment.size(), "twice", [&] { return "rule " + q.src + " / " + q.tgt + " or a link is returned twice"; }); }
      for (auto& r : got) x.check(want.count(r), "inconsistent", [&] { return c.str() + ": from " + pstr(ph) + " the rule " + r.src + " ||| " + r.tgt + " ||| " + atext(r.al) + " is extracted, which the alignment and limits do not allow"; });
      for (auto& r : want) if (c.tight || !r.outer) { x.check(got.count(r), "missing", [&] { return c.str() + ": from " + pstr(ph) + " the rule " + r.src + " ||| " + r.tgt + " ||| " + atext(r.al) + " is not extracted"; }); }
      if (!want.empty()) x.state(vc::mix(vc::hstr(pstr(ph) + c.str()), vc::mix(mask, n * 8 + m))); if (want.size() > 1) x.nontrivial();
    });
  }
}
static map<string, map<string, double>> lex(const Bi& b, bool st) { map<string, map<string, double>> c; map<string, double> t; auto add = [&](const string& f, const string& e) { string k = st ? e : f, v = st ? f : e; c[k][v]++; t[k]++; }; for (size_t i = 0; i < b.f.size(); ++i) { vector<char> fa(b.f[i].size()), ea(b.e[i].size()); for (auto& l : b.al[i]) { fa[l.first] = ea[l.second] = 1; add(b.f[i][l.first], b.e[i][l.second]); } for (size_t p = 0; p < fa.size(); ++p) if (!fa[p]) add(b.f[i][p], "__NULL__"); for (size_t p = 0; p < ea.size(); ++p) if (!ea[p]) add("__NULL__", b.e[i][p]); } for (auto& k : c) for (auto& v : k.second) v.second /= t[k.first]; return c; }
// a small corpus: whole grammars for input sentences with all scores
static void multi(vc::X& x, Bi b, const vector<string>& input, const XCfg& c, int samples, int black, int pre) {
  if (!x.take()) return;
  x.desc([=] { string t = b.text() + "input: "; for (auto& w : input) t += w + " "; return t + "\n" + c.str() + " samples " + to_string(samples) + " excluded mask " + to_string(black) + " precomputation " + to_string(pre); });
  b.load(x.dir); shared_ptr<Vocabulary> vo(new Vocabulary); static const int P[3][4] = {{0, 0, 1, 1}, {100, 10, 2, 2}, {100, 100, 3, 1}}; const int* pp = P[pre];
  shared_ptr<Precomputation> pc(new Precomputation(vo, b.sa, pp[0], pp[1], c.span, c.syms, c.gap, pp[2], pp[3]));
  shared_ptr<TranslationTable> tt(new TranslationTable(b.fd, b.ed, b.a)); using namespace features;
  vector<shared_ptr<Feature>> fs = {make_shared<TargetGivenSourceCoherent>(), make_shared<SampleSourceCount>(), make_shared<CountSourceTarget>(), make_shared<MaxLexSourceGivenTarget>(tt), make_shared<MaxLexTargetGivenSource>(tt), make_shared<IsSourceSingleton>(), make_shared<IsSourceTargetSingleton>()};
  shared_ptr<Scorer> sc(new Scorer(fs)); GrammarExtractor ge(b.sa, b.ed, b.a, pc, sc, vo, c.gap, c.span, c.nts, c.syms, samples, c.tight);
  unordered_set<int> bl; for (int i = 0; i < 4; ++i) if (black >> i & 1) bl.insert(i); string in; for (auto& w : input) in += w + " ";
  extractor::Grammar g = ge.GetGrammar(in, bl); x.step();
  // reference
  auto pfe = lex(b, true), pef = lex(b, false); PhraseLocationSampler ps(b.sa, samples);
  struct R { double scores[7]; map<set<pair<int, int>>, int> al; }; map<pair<string, string>, R> want; set<vector<vector<string>>> seen; vector<string> full = {"<s>"}; full.insert(full.end(), input.begin(), input.end()); full.push_back("</s>");
  vector<pair<int, vector<int>>> dummy;
  all_patterns(full.size(), c, [&](const vector<pair<int, int>>& ch) {
    vector<vector<string>> pat; for (auto& k : ch) pat.push_back(vector<string>(full.begin() + k.first, full.begin() + k.second)); if (!seen.insert(pat).second) return;
    // occurrences in the order the extractor keeps them is immaterial unless sampled: then only fully sampled ones are compared
    vector<pair<int, vector<pair<int, int>>>> occ; for (size_t i = 0; i < b.f.size(); ++i) { const auto& f = b.f[i]; vector<pair<int, int>> at(pat.size()); function<void(size_t, int)> rec = [&](size_t k, int from) { if (k == pat.size()) { if (at.back().second - at[0].first <= c.span) occ.push_back({(int)i, at}); return; } for (int p = from; p + pat[k].size() <= f.size(); ++p) if (equal(pat[k].begin(), pat[k].end(), f.begin() + p)) { at[k] = {p, p + (int)pat[k].size()}; rec(k + 1, at[k].second + c.gap); } }; rec(0, 0); }
    if ((int)occ.size() > samples) { want[{"?", pat.size() ? "" : ""}]; return; }
    int ns = 0; map<string, int> scount; map<pair<string, string>, int> pcount; map<pair<string, string>, map<set<pair<int, int>>, int>> als;
    for (auto& o : occ) { if (bl.count(o.first)) continue; ++ns; set<XRule> rs = ref_extract(b.f[o.first], b.e[o.first], b.al[o.first], o.second, c); set<string> ss; for (auto& r : rs) { ss.insert(r.src); pcount[{r.src, r.tgt}]++; als[{r.src, r.tgt}][r.al]++; } for (auto& q : ss) scount[q]++; }
    for (auto& k : pcount) { R r; r.al = als[k.first]; vector<string> fw, ew; istringstream a(k.first.first), e(k.first.second); string w; while (a >> w) if (w[0] != '[') fw.push_back(w); while (e >> w) if (w[0] != '[') ew.push_back(w);
      r.scores[0] = -log10((double)k.second / ns); r.scores[1] = log10(1 + ns); r.scores[2] = log10(1 + k.second);
      double s3 = 0; for (auto& f : fw) { double m = 0; vector<string> t = ew; t.push_back("__NULL__"); for (auto& e2 : t) if (pfe.count(e2) && pfe[e2].count(f)) m = max(m, pfe[e2][f]); s3 += m > 0 ? -log10(m) : 99; } r.scores[3] = s3;
      double s4 = 0; for (auto& e2 : ew) { double m = 0; vector<string> t = fw; t.push_back("__NULL__"); for (auto& f : t) if (pef.count(f) && pef[f].count(e2)) m = max(m, pef[f][e2]); s4 += m > 0 ? -log10(m) : 99; } r.scores[4] = s4;
      r.scores[5] = scount[k.first.first] == 1; r.scores[6] = k.second == 1; want[k.first] = r; }
  });
  bool partial = want.count({"?", ""}); want.erase({"?", ""}); set<pair<string, string>> got; static const char* N[7] = {"EgivenFCoherent", "SampleCountF", "CountEF", "MaxLexFgivenE", "MaxLexEgivenF", "IsSingletonF", "IsSingletonFE"};
  vector<string> names = g.GetFeatureNames(); bool nm = names.size() == 7; for (int i = 0; nm && i < 7; ++i) nm = names[i] == N[i]; x.check(nm, "names", "feature names changed");
  for (auto& r : g.GetRules()) { pair<string, string> k(pstr(r.source_phrase), pstr(r.target_phrase)); x.check(got.insert(k).second, "rule-twice", [&] { return "rule " + k.first + " ||| " + k.second + " appears twice in the grammar"; });
    auto it = want.find(k); if (it == want.end()) { if (!partial) x.fail("rule-extra", "rule " + k.first + " ||| " + k.second + " is in the grammar but no occurrence allows it"); continue; }
    for (int i = 0; i < 7; ++i) x.check(i < (int)r.scores.size() && fabs(r.scores[i] - it->second.scores[i]) < 1e-9, string("score-") + N[i], [&] { ostringstream o; o << "rule " << k.first << " ||| " << k.second << ": " << N[i] << "=" << r.scores[i] << " instead of " << it->second.scores[i]; return o.str(); });
    int best = 0; for (auto& a : it->second.al) best = max(best, a.second); set<pair<int, int>> al(r.alignment.begin(), r.alignment.end()); x.check(it->second.al.count(al) && it->second.al[al] == best, "alignment", [&] { return "rule " + k.first + " ||| " + k.second + ": alignment " + atext(al) + " is not its most frequent one"; }); }
  for (auto& k : want) x.check(got.count(k.first), "rule-missing", [&] { return "rule " + k.first.first + " ||| " + k.first.second + " is not in the grammar"; });
  x.state(vc::hstr(b.text() + c.str())); for (auto& k : got) x.state(vc::hstr(k.first + k.second)); if (got.size() > 1) x.nontrivial(); x.stat("rules", got.size());
}
static void run(vc::X& x) {
  static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf()); int T = x.thorough;
  vector<XCfg> all; for (int tight = 1; tight >= 0; --tight) for (int nts : {2, 3, 1}) for (int gap : {1, 2}) for (int syms : {5, 7, 3}) for (int span : {10, 3, 4}) if (syms <= span || span == 10) all.push_back(XCfg{span, gap, nts, syms, (bool)tight});
  uint64_t k = 0; auto some = [&](int m) { vector<XCfg> v; for (size_t i = k % m; i < all.size(); i += m) v.push_back(all[i]); ++k; return v; };
  for (int n = 1; n <= 3; ++n) for (int m = 1; m <= 3; ++m) for (uint64_t a = 0; a < 1ull << (n * m); ++a) single(x, n, m, a, some(T ? 1 : 5));
  for (auto nm : {make_pair(4, 3), make_pair(3, 4), make_pair(5, 2), make_pair(2, 5), make_pair(6, 2)}) for (uint64_t a = 0; a < 1ull << (nm.first * nm.second); ++a) single(x, nm.first, nm.second, a, some(T ? 7 : 23));
  // longer sentences: functional alignments (each source word to at most one target word, or the reverse) and permutations
  for (int n : {5, 7}) for (int m : {4, 3, 5}) { uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= m + 1; uint64_t step = n == 7 ? (T ? 3 : 29) : (T ? 1 : 2); for (uint64_t q = 0; q < tot; q += step) { uint64_t v = q, mask = 0, mask2 = 0; for (int i = 0; i < n; ++i) { int j = v % (m + 1); v /= m + 1; if (j < m) { mask |= 1ull << (i * m + j); mask2 |= 1ull << (j * n + i); } } single(x, n, m, mask, some(n == 7 ? 53 : 31)); if (n == 5) single(x, m, n, mask2, some(31)); } }
  { vector<int> p = {0, 1, 2, 3, 4, 5, 6}; do { if (p[0] < p[6] || T) { uint64_t m = 0; for (int i = 0; i < 7; ++i) m |= 1ull << (i * 7 + p[i]); XCfg c{10, 1, 3, 7, true}; single(x, 7, 7, m, {c}); } } while (next_permutation(p.begin(), p.end())); }
  if (T) for (uint64_t a = 0; a < 65536; ++a) single(x, 4, 4, a, some(23));
  // corpora
  vector<Links> als; for (int i = 0; i < 16; ++i) { Links l; for (int b = 0; b < 4; ++b) if (i >> b & 1) l.push_back({b / 2, b % 2}); als.push_back(l); }
  vector<Links> al3 = {{{0, 0}, {1, 1}, {2, 2}}, {{0, 2}, {1, 1}, {2, 0}}, {{0, 0}, {1, 2}, {2, 1}}, {{0, 1}, {2, 0}}, {{0, 0}, {0, 1}, {1, 2}, {2, 2}}, {{1, 1}}, {{0, 0}, {2, 2}}};
  vector<vector<string>> in = {{"a"}, {"a", "b"}, {"a", "b", "a"}, {"b", "a", "a", "b"}, {"a", "zz", "b"}, {"c", "a", "b", "c", "a"}};
  vector<XCfg> mc = {{10, 1, 2, 5, true}, {10, 1, 3, 5, true}, {10, 2, 2, 5, true}, {5, 1, 1, 3, true}, {5, 1, 2, 4, true}};
  uint64_t r = 0;
  auto W = [](int n, int code, const char* A) { vector<string> v; for (int i = 0; i < n; ++i) v.push_back(string(1, A[(code >> i) & 1])); return v; };
  for (int f1 = 0; f1 < 4; ++f1) for (int f2 = 0; f2 < 8; ++f2) for (int e = 0; e < 4; ++e) for (auto& l1 : als) for (auto& l2 : al3) { ++r; if (!T && r % 5) continue; Bi b; b.f = {W(2, f1, "ab"), W(3, f2, "ab")}; b.e = {W(2, e, "AB"), W(3, (f2 + e) & 7, "AB")}; b.al = {l1, l2}; if (r % 2) { b.f.push_back({"c", "a", "b", "c", "a"}); b.e.push_back({"C", "A", "B", "A"}); b.al.push_back(al3[r % al3.size()]); b.al.back().push_back({4, 3}); b.al.back().push_back({3, 3}); }
    multi(x, b, in[r / 5 % in.size()], mc[r / 7 % mc.size()], r % 11 == 0 ? 1 : r % 13 == 0 ? 2 : 300, r % 3 == 0 ? r / 3 % 4 : 0, r % 3); }
}
VC_MAIN(run)
