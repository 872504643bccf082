// C12: suffix array order, longest common prefixes, lookup; occurrence sampling.
#include "corpus.h"
#include "phrase_location_sampler.h"
#include <unordered_set>
using namespace std;
using namespace extractor;
extern "C" int rand() { return Choice::next(); }
typedef Corpus::Sents Sents;
// reference order: line breaks (1) before words in order of first appearance, the end of the corpus first
static vector<int> ids(const vector<string>& f) { map<string, int> m; vector<int> r; for (auto& w : f) { if (w == "\n") { r.push_back(1); continue; } if (!m.count(w)) { int k = m.size() + 2; m[w] = k; } r.push_back(m[w]); } return r; }
static void one(vc::X& x, const Sents& s, int pol, int devs, bool sampling) {
  if (!x.take()) return;
  x.desc([=] { return "corpus:\n" + Corpus::text(s) + "pivot policy " + to_string(pol); });
  vector<string> f = Corpus::flat(s); vector<int> id = ids(f); const int n = id.size();
  vector<int> ref(n + 1); for (int i = 0; i <= n; ++i) ref[i] = i;
  sort(ref.begin(), ref.end(), [&](int a, int b) { return lexicographical_compare(id.begin() + a, id.end(), id.begin() + b, id.end()); });
  auto da = Corpus::data(x.dir, s);
  // the data array itself
  if (!x.check(da->GetSize() == n && da->GetNumSentences() == (int)s.size(), "data-size", "the data array has another number of tokens or sentences")) return;
  { int p = 0; for (size_t i = 0; i < s.size(); ++i) { x.check(da->GetSentenceStart(i) == p && da->GetSentenceLength(i) == (int)s[i].size(), "data-sentence", "sentence start or length wrong"); for (size_t j = 0; j < s[i].size(); ++j, ++p) x.check(da->GetSentenceId(p) == (int)i && da->GetWordAtIndex(p) == s[i][j] && da->GetWord(da->GetWordId(s[i][j])) == s[i][j] && da->AtIndex(p) == da->GetWordId(s[i][j]), "data-word", "word or sentence id wrong"); x.check(da->AtIndex(p) == DataArray::END_OF_LINE && da->GetSentenceId(p) == (int)i, "data-eol", "end of line marker wrong"); ++p; } x.check(da->GetSentenceStart(s.size()) == n, "data-end", "end of the last sentence wrong"); }
  Choice::policy() = pol;
  auto verify = [&](SuffixArray& sa) -> bool {
    if (sa.GetSize() != n + 1) { x.fail("size", "suffix array has " + to_string(sa.GetSize()) + " entries for " + to_string(n) + " tokens"); return false; }
    vector<int> got(n + 1); for (int i = 0; i <= n; ++i) got[i] = sa.GetSuffix(i); x.step();
    return x.check(got == ref, "order", [&] { return "suffix array " + vc::str(got) + " instead of " + vc::str(ref); });
  };
  // pivot choices: the policy, then every single and (small corpora) every pair of deviations
  Choice::plan().clear(); Choice::at() = 0; shared_ptr<SuffixArray> sa(new SuffixArray(da)); int calls = Choice::at(); if (!verify(*sa)) return;
  if (devs >= 1) for (int i = 0; i < calls; ++i) for (int v = 0; v <= n; ++v) {
    Choice::plan().assign(i + 1, -1); Choice::plan()[i] = v; Choice::at() = 0; SuffixArray t(da); int c2 = Choice::at(); if (!verify(t)) return;
    if (devs >= 2) for (int j = i + 1; j < c2; ++j) for (int w = 0; w <= n; ++w) { Choice::plan().assign(j + 1, -1); Choice::plan()[i] = v; Choice::plan()[j] = w; Choice::at() = 0; SuffixArray u(da); if (!verify(u)) return; }
  }
  Choice::plan().clear();
  vector<int> lcp = sa->BuildLCPArray(), want(n + 1); want[0] = -1; for (int i = 1; i <= n; ++i) { int a = ref[i - 1], b = ref[i], k = 0; while (a + k < n && b + k < n && id[a + k] == id[b + k]) ++k; want[i] = k; }
  x.check(lcp == want, "lcp", [&] { return "longest common prefixes " + vc::str(lcp) + " instead of " + vc::str(want); });
  // lookups: every phrase over the vocabulary and an unknown word up to the longest sentence + 1, narrowing only while something matches
  MatchingsFinder mf(sa); vector<string> voc; { set<string> v; for (auto& l : s) for (auto& w : l) v.insert(w); voc.assign(v.begin(), v.end()); voc.push_back("zz"); }
  PhraseLocationSampler* smp = 0; (void)smp; bool nt = false;
  function<void(vector<string>&, PhraseLocation)> rec = [&](vector<string>& ph, PhraseLocation loc) {
    for (auto& w : voc) {
      ph.push_back(w); PhraseLocation from = loc, r = mf.Find(from, w, ph.size() - 1); x.step();
      set<int> occ, got; for (int i = 0; i + (int)ph.size() <= n; ++i) if (equal(ph.begin(), ph.end(), f.begin() + i)) occ.insert(i);
      bool rangeok = r.sa_low >= 0 && r.sa_high <= n + 1 && r.sa_low <= r.sa_high; x.check(rangeok, "range", "lookup returns an invalid range"); if (!rangeok) { ph.pop_back(); continue; }
      for (int i = r.sa_low; i < r.sa_high; ++i) got.insert(sa->GetSuffix(i));
      x.check(got == occ && (int)got.size() == r.GetSize(), "lookup", [&] { string p; for (auto& q : ph) p += q + " "; return "phrase '" + p + "' found at " + vc::str(vector<int>(got.begin(), got.end())) + " instead of " + vc::str(vector<int>(occ.begin(), occ.end())); });
      x.state(vc::hstr(Corpus::text(s), vc::mix(r.sa_low, r.sa_high)));
      if (occ.size() > 1 && ph.size() > 1) nt = true;
      if (sampling && !occ.empty()) {
        int ns = s.size(); for (int mx = 1; mx <= (int)occ.size() + 1; ++mx) for (int bl = 0; bl < (1 << min(ns, 4)); ++bl) {
          unordered_set<int> black; for (int b = 0; b < min(ns, 4); ++b) if (bl >> b & 1) black.insert(b);
          PhraseLocationSampler ps(sa, mx); PhraseLocation q = ps.Sample(r, black); x.step(); set<int> avail; for (int o : occ) if (!black.count(da->GetSentenceId(o))) avail.insert(o);
          vector<int> got2 = q.matchings ? *q.matchings : vector<int>(); set<int> gs(got2.begin(), got2.end()); bool sub = true; for (int g : gs) if (!avail.count(g)) sub = false;
          string what = "sampling " + to_string(mx) + " of " + vc::str(vector<int>(occ.begin(), occ.end())) + " without sentences mask " + to_string(bl) + " gives " + vc::str(got2);
          x.check(q.num_subpatterns == 1 && sub, "sample-wrong", what); x.check(gs.size() == got2.size(), "sample-twice", what); x.check((int)got2.size() <= mx, "sample-many", what);
          if ((int)occ.size() <= mx) x.check(gs == avail, "sample-all", what); if (!bl) x.check((int)gs.size() == min(mx, (int)occ.size()), "sample-few", what);
          // the same through a list of matchings
          PhraseLocation ml(vector<int>(occ.begin(), occ.end()), 1); PhraseLocation q2 = ps.Sample(ml, black); vector<int> g3 = *q2.matchings; set<int> g3s(g3.begin(), g3.end()); bool sub3 = true; for (int g : g3s) if (!avail.count(g)) sub3 = false;
          x.check(sub3 && g3s.size() == g3.size() && (int)g3.size() <= mx && ((int)occ.size() > mx || g3s == avail) && (bl || (int)g3.size() == min(mx, (int)occ.size())), "sample-list", what + " / " + vc::str(g3));
        }
      }
      if (!occ.empty() && ph.size() < 7) rec(ph, r);
      ph.pop_back();
    }
  };
  vector<string> ph; rec(ph, PhraseLocation()); if (nt) x.nontrivial();
}
static void run(vc::X& x) {
  static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  int T = x.thorough;
  for (int n = 1; n <= 6 + T; ++n) Corpus::each(n, 2, [&](const Sents& s) { one(x, s, 0, n <= 5 ? 2 : 1, true); });
  for (int n = 7 + T; n <= 8 + 2 * T; ++n) Corpus::each(n, 2, [&](const Sents& s) { one(x, s, x.next % 4, 1, x.next % 8 == 0); });
  for (int n = 1; n <= 6 + T; ++n) Corpus::each(n, 3, [&](const Sents& s) { one(x, s, x.next % 4, n <= 5, false); });
  for (int n = 1; n <= 5 + T; ++n) Corpus::each(n, 4, [&](const Sents& s) { one(x, s, x.next % 4, 0, false); });
  for (int n = 2; n <= 13 + 3 * T; ++n) Corpus::each(n, 1, [&](const Sents& s) { one(x, s, x.next % 4, n < 8, x.next % 64 == 0); });
  // long repetitive texts: u^k v with line breaks inside u
  for (int n = 1; n <= 4; ++n) Corpus::each(n + 1, 2, [&](const Sents& u) { for (int k : {4, 7, 16, 33}) for (int pol = 0; pol < 4; ++pol) { Sents s(1); for (int r = 0; r < k; ++r) for (size_t i = 0; i < u.size(); ++i) { if (i) s.push_back({}); for (auto& w : u[i]) s.back().push_back(w); } one(x, s, pol, 0, k == 16 && pol == 0); Sents t = s; t.back().push_back("b"); one(x, t, pol, 0, false); } });
  // Fibonacci words
  { vector<string> a{"a"}, b{"a", "b"}; for (int i = 0; i < 8; ++i) { vector<string> c = b; c.insert(c.end(), a.begin(), a.end()); a = b; b = c; for (int pol = 0; pol < 4; ++pol) { one(x, Sents{b}, pol, i < 3, i < 4); one(x, Sents{b, a}, pol, 0, false); } } }
}
VC_MAIN(run)
