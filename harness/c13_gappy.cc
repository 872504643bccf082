// C13: occurrences of gappy patterns, with and without precomputed collocations.
#include "corpus.h"
#include "fast_intersector.h"
#include "precomputation.h"
#include "phrase_builder.h"
#include "phrase.h"
using namespace std;
using namespace extractor;
typedef Corpus::Sents Sents;
typedef vector<vector<string>> Pat;  // chunks
static string ps(const Pat& p) { string o; for (size_t i = 0; i < p.size(); ++i) { if (i) o += "X "; for (auto& w : p[i]) o += w + " "; } return o; }
struct Cfg { int span, gap, syms, freq, super, plen, minf; string str() const { ostringstream o; o << "max span " << span << ", min gap " << gap << ", max symbols " << syms << ", " << freq << " frequent (" << super << " super) patterns of up to " << plen << " words occurring " << minf << " times"; return o.str(); } };
static void one(vc::X& x, const Sents& s, const vector<Cfg>& cfgs, const vector<string>& voc, int maxchunk) {
  if (!x.take()) return;
  Cfg cur; x.desc([=] { string t = "corpus:\n" + Corpus::text(s); for (auto& c : cfgs) t += "  " + c.str() + "\n"; return t; });
  vector<string> f = Corpus::flat(s); const int n = f.size(); auto da = Corpus::data(x.dir, s); shared_ptr<SuffixArray> sa(new SuffixArray(da));
  vector<vector<string>> chunks; for (int l = 1; l <= maxchunk; ++l) { uint64_t tot = 1; for (int i = 0; i < l; ++i) tot *= voc.size(); for (uint64_t m = 0; m < tot; ++m) { vector<string> c; uint64_t q = m; for (int i = 0; i < l; ++i) { c.push_back(voc[q % voc.size()]); q /= voc.size(); } bool occ = false; for (int i = 0; i + l <= n && !occ; ++i) occ = equal(c.begin(), c.end(), f.begin() + i); if (occ || l == 1) chunks.push_back(c); } }
  auto at = [&](int p, const vector<string>& c) { return p >= 0 && p + (int)c.size() <= n && equal(c.begin(), c.end(), f.begin() + p); };
  for (auto& c : cfgs) {
    shared_ptr<Vocabulary> vo(new Vocabulary); shared_ptr<Precomputation> pre(new Precomputation(vo, sa, c.freq, c.super, c.span, c.syms, c.gap, c.plen, c.minf));
    FastIntersector fi(sa, pre, vo, c.span, c.gap); PhraseBuilder pb(vo); MatchingsFinder mf(sa); map<Pat, PhraseLocation> memo;
    function<PhraseLocation(const Pat&)> loc = [&](const Pat& p) -> PhraseLocation {
      auto it = memo.find(p); if (it != memo.end()) return it->second;
      PhraseLocation r;
      if (p.size() == 1) { PhraseLocation cur; for (size_t i = 0; i < p[0].size(); ++i) { PhraseLocation in = cur; cur = mf.Find(in, p[0][i], i); if (cur.IsEmpty()) break; } r = cur; }
      else {
        Pat pre_p = p, suf_p = p; pre_p.back().pop_back(); if (pre_p.back().empty()) pre_p.pop_back(); suf_p[0].erase(suf_p[0].begin()); if (suf_p[0].empty()) suf_p.erase(suf_p.begin());
        PhraseLocation a = loc(pre_p), b = loc(suf_p);
        if (a.IsEmpty() || b.IsEmpty()) r = PhraseLocation(0, 0);
        else { vector<int> sy; int k = 0; for (auto& ch : p) { if (k) sy.push_back(vo->GetNonterminalIndex(k)); for (auto& w : ch) sy.push_back(vo->GetTerminalIndex(w)); ++k; } Phrase ph = pb.Build(sy); r = fi.Intersect(a, b, ph); x.step(); }
      }
      return memo[p] = r;
    };
    auto test = [&](const Pat& p) -> bool {  // true when it occurs
      int sy = p.size() - 1; for (auto& ch : p) sy += ch.size(); if (sy > c.syms) return false;
      multiset<vector<int>> want, got; vector<int> st(p.size());
      function<void(size_t, int)> rec = [&](size_t i, int from) { if (i == p.size()) { if (st.back() + (int)p.back().size() - st[0] <= c.span) want.insert(st); return; }
        for (int q = from; q < n; ++q) { bool br = false; if (i) { for (int z = st[i - 1]; z < q; ++z) if (f[z] == "\n") br = true; } if (br) break; if (at(q, p[i])) { st[i] = q; rec(i + 1, q + p[i].size() + c.gap); } } };
      rec(0, 0);
      PhraseLocation l = loc(p);
      if (!l.IsEmpty()) { if (!x.check(l.matchings && l.num_subpatterns == (int)p.size() && l.matchings->size() % p.size() == 0, "shape", [&] { return "pattern " + ps(p) + ": malformed result (" + to_string(l.num_subpatterns) + " subpatterns)\n" + c.str(); })) return false;
        for (size_t i = 0; i < l.matchings->size(); i += p.size()) got.insert(vector<int>(l.matchings->begin() + i, l.matchings->begin() + i + p.size())); }
      x.check(got == want, got.size() < want.size() ? "missing" : "extra", [&] { string a; for (auto& v : got) a += vc::str(v); a += " instead of "; for (auto& v : want) a += vc::str(v); return "pattern " + ps(p) + "found at " + a + "\nwith " + c.str(); });
      if (want.size() > 1) x.nontrivial(); x.state(vc::hstr(ps(p) + c.str() + Corpus::text(s))); return !want.empty();
    };
    for (auto& a : chunks) for (auto& b : chunks) { if (!test(Pat{a, b})) continue; for (auto& d : chunks) test(Pat{a, b, d}); }
  }
}
static void run(vc::X& x) {
  static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf()); int T = x.thorough;
  // frequent-pattern settings: none, few, many
  vector<Cfg> all; for (int span : {3, 4, 6, 15}) for (int gap : {1, 2}) for (int syms : {3, 5, 7}) for (int pr = 0; pr < 5; ++pr) { static const int P[5][4] = {{0, 0, 1, 1}, {3, 1, 2, 2}, {100, 10, 1, 2}, {100, 100, 3, 2}, {100, 2, 2, 1}}; all.push_back(Cfg{span, gap, syms, P[pr][0], P[pr][1], P[pr][2], P[pr][3]}); }
  auto some = [&](uint64_t k, int m) { vector<Cfg> v; for (size_t i = k % m; i < all.size(); i += m) v.push_back(all[i]); return v; };
  uint64_t k = 0;
  for (int n = 3; n <= 6 + T; ++n) Corpus::each(n, 2, [&](const Sents& s) { one(x, s, some(k++, T ? 3 : 7), {"a", "b", "zz"}, 2); });
  for (int n = 7 + T; n <= 8 + T; ++n) Corpus::each(n, 2, [&](const Sents& s) { one(x, s, some(k++, T ? 11 : 29), {"a", "b"}, 3); });
  for (int n = 5; n <= 6 + T; ++n) Corpus::each(n, 3, [&](const Sents& s) { one(x, s, some(k++, 23), {"a", "b", "c"}, 2); });
  for (int n = 2; n <= 14; ++n) Corpus::each(n, 1, [&](const Sents& s) { int br = s.size(); if (br <= 2) one(x, s, some(k++, T ? 1 : 3), {"a"}, 3); });
  // longer texts with many repetitions
  for (int m = 0; m < (T ? 512 : 128); ++m) { Sents s(2); for (int i = 0; i < 9; ++i) s[0].push_back(m >> i & 1 ? "a" : i % 3 == 2 ? "c" : "b"); for (int i = 0; i < 9; ++i) s[1].push_back(m >> (i * 5 % 9) & 1 ? "b" : "a"); one(x, s, some(k++, 29), {"a", "b", "c"}, 3); }
}
VC_MAIN(run)
