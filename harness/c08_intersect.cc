// C08: intersecting a forest with a reference keeps exactly the derivations whose yield is a path of the reference.
#include "hgspace.h"
#include "hgreal.h"
#include "hg_intersect.h"
#include "decconf.h"
#include "lexalign.h"
#include "lextrans.h"
#include "sentence_metadata.h"
#include "tagger.h"
#include "lattice.h"
#include "verbose.h"
using namespace std;
struct Arc { string w; int to; double cost; };
typedef vector<vector<Arc>> Lat;
static string plf(const Lat& l) { ostringstream o; o << '('; for (size_t i = 0; i < l.size(); ++i) { o << '('; for (auto& a : l[i]) o << "('" << a.w << "'," << a.cost << "," << a.to - (int)i << "),"; o << "),"; } o << ')'; return o.str(); }
// costs of the paths of the lattice that spell the words
static void paths(const Lat& l, int at, const vector<string>& w, size_t i, double c, vector<double>* out) {
  if (at == (int)l.size()) { if (i == w.size()) out->push_back(c); return; }
  for (auto& a : l[at]) if (i < w.size() && a.w == w[i]) paths(l, a.to, w, i + 1, c + a.cost, out);
}
typedef map<string, int> Bag;
static string key(const vector<int>& edges, double cost, const string& feats) { ostringstream o; for (int e : edges) o << e << ' '; o << "| " << feats; return o.str(); }
static string fs(map<string, double> m) { ostringstream o; o.precision(6); for (auto& kv : m) if (fabs(kv.second) > 1e-7) o << kv.first << '=' << kv.second << ' '; return o.str(); }
static void one(vc::X& x, const AHG& h, const vector<vector<Deriv>>& D, const Hypergraph& hg0, const Lat& l, const string& text) {
  if (!x.take()) return;
  x.desc([=] { ostringstream o; o << h.str() << "\n"; for (auto& e : h.e) o << "  e" << e.id << " " << rule_text(e) << "\n"; o << "reference: " << text; return o.str(); });
  const int ne = h.e.size(); Bag want; set<int> used; 
  for (auto& d : D.back()) { vector<double> cs; paths(l, 0, d.yield, 0, 0, &cs); for (double c : cs) { map<string, double> f; for (int e : d.edges) { f["W"] += h.e[e].lp; f["G"] += h.e[e].feat; f["E" + to_string(e)] += 1; } f["LatticeCost_0"] += c; vector<int> srt = d.edges; sort(srt.begin(), srt.end()); want[key(srt, c, fs(f))]++; } }
  Lattice tl; LatticeTools::ConvertTextOrPLF(text, &tl);
  Hypergraph hg = hg0; bool ok = HG::Intersect(tl, &hg); x.step();
  if (want.empty()) { x.check(!ok, "claimed", "Intersect reports success although no derivation yields the reference"); x.state(vc::hstr(text)); return; }
  if (!x.check(ok, "failed", "Intersect reports failure although a derivation yields the reference")) return;
  string bad = HGReal::sound(hg); if (!x.check(bad.empty(), "unsound", [&] { return "intersected forest is inconsistent: " + bad; })) return;
  vector<RDeriv> R; HGReal::goal_derivs(hg, &R, 20000, true); Bag got;
  for (auto& r : R) { vector<int> ids; bool goal = false; map<string, double> f; for (auto& kv : r.feats) f[FD::Convert(kv.first)] = kv.second;
    for (int e : r.edges) { int id = HGSpace::eid(hg.edges_[e], ne); if (id < 0) { goal = true; continue; } ids.push_back(id);
      // the rule is the original one, turned round, with the original attached
      const HG::Edge& ed = hg.edges_[e]; const HG::Edge* o = 0; for (auto& q : hg0.edges_) if (HGSpace::eid(q, ne) == id) o = &q;
      x.check(ed.rule_->parent_rule_ && ed.rule_->parent_rule_.get() == o->rule_.get(), "parent", "the rule of the forest edge is lost"); x.check(ed.prev_i_ == o->i_ && ed.prev_j_ == o->j_, "prev-span", "the source span of the original edge is lost"); }
    (void)goal; sort(ids.begin(), ids.end()); got[key(ids, 0, fs(f))]++;
    // yields: target on the f side, source on the e side of the turned rules
    bool found = false; for (auto& d : D.back()) { auto s = d.edges; sort(s.begin(), s.end()); if (s != ids) continue; string ys, fsd; for (auto& w : d.yield) ys += (ys.empty() ? "" : " ") + w; for (auto& w : d.fyield) fsd += (fsd.empty() ? "" : " ") + w; if (r.fstr() == ys && r.estr() == fsd) found = true; }
    x.check(found, "yield", [&] { return "a derivation of the intersection yields '" + r.estr() + "' for '" + r.fstr() + "', unlike the derivation it was made from"; }); }
  x.check(got == want, "derivations", [&] { string s; for (auto& kv : want) if (!got.count(kv.first) || got[kv.first] != kv.second) s += "\n  expected " + to_string(kv.second) + "x, found " + to_string(got.count(kv.first) ? got[kv.first] : 0) + "x: edges " + kv.first; for (auto& kv : got) if (!want.count(kv.first)) s += "\n  unexpected: edges " + kv.first; return "the intersected forest has other derivations:" + s; });
  x.step(want.size()); x.state(vc::hstr(text, want.size())); for (auto& kv : want) x.state(vc::hstr(kv.first)); if (D.back().size() > 1) x.nontrivial();
}
// linear chains: the forests of the tagger, of lexical translation and of lexical alignment
typedef vector<string> Words;
static string txt(const Words& s) { string t; for (auto& w : s) t += (t.empty() ? "" : " ") + w; return t; }
static string named(const map<int, double>& m) { map<string, double> f; for (auto& k : m) f[FD::Convert(k.first)] = k.second; return fs(f); }
static string links(const Hypergraph& g, const RDeriv& r, bool turned) { set<string> o; for (int i : r.edges) { const HG::Edge& e = g.edges_[i]; if (!e.tail_nodes_.empty()) continue; string f = TD::GetString(e.rule_->f_), t = TD::GetString(e.rule_->e_); int a = e.i_, b = e.prev_i_, c = e.j_, d = e.prev_j_; if (turned) { swap(f, t); swap(a, b); swap(c, d); } o.insert(f + "@" + to_string(a) + "," + to_string(c) + ">" + t + "@" + to_string(b) + "," + to_string(d)); } string s; for (auto& k : o) s += k + " "; return s; }
static void chain(vc::X& x, Translator& T, const Words& src, const Words& made, const vector<Words>& targets) {
  Lattice ml; LatticeTools::ConvertTextToLattice(txt(made), &ml); SentenceMetadata sm(0, ml); Hypergraph h; T.ProcessMarkupHints(map<string, string>()); static vector<double> wt(10, 0.0); if (!x.check(T.Translate(txt(src), &sm, wt, &h), "chain-forest", "no forest for " + txt(src))) return; T.SentenceComplete();
  for (auto& e : h.edges_) if (e.tail_nodes_.empty()) e.feature_values_.set_value(FD::Convert("E" + to_string(e.id_ % 97)), 1 + e.id_); h.Reweight(wt); vector<RDeriv> O; HGReal::goal_derivs(h, &O, 20000); if (O.size() > 4000) return;
  for (auto& t : targets) { Bag want; for (auto& d : O) if (d.estr() == txt(t)) ++want[d.fstr() + " | " + named(d.feats) + " | " + links(h, d, false)]; Lattice tl; LatticeTools::ConvertTextToLattice(txt(t), &tl); Hypergraph g = h; bool ok = HG::Intersect(tl, &g); x.step(); string what = "'" + txt(src) + "' made for '" + txt(made) + "', reference '" + txt(t) + "'";
    if (want.empty()) { x.check(!ok, "chain-claimed", [&] { return what + ": reports success although no derivation yields the reference"; }); x.state(vc::hstr(what)); continue; }
    if (!x.check(ok, "chain-failed", [&] { return what + ": reports failure although a derivation yields the reference"; })) continue; string bad = HGReal::sound(g); if (!x.check(bad.empty(), "chain-unsound", [&] { return what + ": " + bad; })) continue; vector<RDeriv> R; HGReal::goal_derivs(g, &R, 20000); Bag got; for (auto& d : R) { ++got[d.estr() + " | " + named(d.feats) + " | " + links(g, d, true)]; x.check(d.fstr() == txt(t), "chain-yield", [&] { return what + ": a derivation of the result has '" + d.fstr() + "' for the reference"; }); }
    x.check(got == want, "chain", [&] { string s; for (auto& k : want) if (!got.count(k.first) || got[k.first] != k.second) s += "\n  expected " + k.first; for (auto& k : got) if (!want.count(k.first)) s += "\n  unexpected " + k.first; return what + ": other derivations:" + s; }); if (want.size() > 1) x.nontrivial(); for (auto& k : want) x.state(vc::hstr(k.first)); } }
static vector<Words> all_words(const Words& al, int lo, int hi) { vector<Words> r; for (int n = lo; n <= hi; ++n) { int c = 1; for (int i = 0; i < n; ++i) c *= al.size(); for (int b = 0; b < c; ++b) { Words w; for (int i = 0, q = b; i < n; ++i, q /= al.size()) w.push_back(al[q % al.size()]); r.push_back(w); } } return r; }
static void chains(vc::X& x) {
  int th = x.thorough; vector<Words> src = all_words({"a", "b"}, 1, 3), tags = all_words({"N", "V", "Z"}, 1, 4), tgt = all_words({"x", "y", "z"}, 1, 3); if (th) { for (auto& w : all_words({"a", "b"}, 4, 4)) src.push_back(w); for (auto& w : all_words({"x", "y", "z"}, 4, 4)) tgt.push_back(w); }
  for (auto& s : src) { if (!x.take()) continue; x.desc([=] { return "tagging '" + txt(s) + "', every reference of tags"; }); ofstream((x.dir + "/tags").c_str()) << "N V"; Tagger T(dec_conf({"-t", x.dir + "/tags"})); chain(x, T, s, s, tags); }
  const char* LT[] = {"a ||| x ||| P=1\na ||| y ||| P=2\nb ||| y ||| P=3\nb ||| z ||| P=4\n<eps> ||| x ||| P=5\n", "a ||| x ||| P=1\nb ||| x ||| P=3\n<eps> ||| y ||| P=6\n", "a ||| x ||| P=1\na ||| y ||| P=1\na ||| z ||| P=1\nb ||| z ||| P=3\n<eps> ||| z ||| P=6\n"};
  for (int g = 0; g < 3; ++g) for (int null = 0; null < 2; ++null) for (auto& s : src) { if (!x.take()) continue; x.desc([=] { return "lexical translation of '" + txt(s) + "'" + (null ? " with null" : "") + ", every reference, table\n" + LT[g]; }); ofstream((x.dir + "/lex").c_str()) << LT[g]; Words a = {"-g", x.dir + "/lex"}; if (null) a.push_back("--lextrans_use_null"); LexicalTrans T(dec_conf(a)); for (auto& m : tgt) { vector<Words> t; for (auto& w : tgt) if (w == m || (w.size() != m.size() ? m[0] == "x" && w.back() != "z" : w[0] == m[0])) t.push_back(w); chain(x, T, s, m, t); } }
  for (int null = 0; null < 2; ++null) for (auto& s : src) { if (!x.take()) continue; x.desc([=] { return "lexical alignment of '" + txt(s) + "'" + (null ? " with null" : ""); }); Words a; if (null) a.push_back("--lexcrf_use_null"); LexicalAlign T(dec_conf(a)); for (auto& m : tgt) { vector<Words> t = {m}; Words u = m; u.push_back("x"); t.push_back(u); u = m; u.pop_back(); if (!u.empty()) t.push_back(u); u = m; u[0] = "q"; t.push_back(u); chain(x, T, s, m, t); } }
}
static void run(vc::X& x) {
  SetSilent(true); static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  vector<vector<string>> strs; { const char* A[] = {"a", "b", "c"}; for (int n = 1; n <= (x.thorough ? 4 : 3); ++n) { int p = 1; for (int i = 0; i < n; ++i) p *= 3; for (int m = 0; m < p; ++m) { vector<string> s; int q = m; for (int i = 0; i < n; ++i) { s.push_back(A[q % 3]); q /= 3; } strs.push_back(s); } } }
  auto lin = [](const vector<string>& s) { Lat l(s.size()); for (size_t i = 0; i < s.size(); ++i) l[i].push_back(Arc{s[i], (int)i + 1, 0}); return l; };
  auto txt = [](const vector<string>& s) { string t; for (auto& w : s) t += (t.empty() ? "" : " ") + w; return t; };
  // branching references
  vector<Lat> lats; {
    for (int m = 0; m < 8; ++m) { Lat l(2); l[0] = {{"a", 1, .5}, {"b", 1, 0}}; l[1] = {{m & 1 ? "a" : "c", 2, 0}}; if (m & 2) l[1].push_back(Arc{m & 1 ? "c" : "b", 2, 1.5}); if (m & 4) l[0].push_back(Arc{"c", 2, 2}); lats.push_back(l); }
    for (int m = 0; m < 16; ++m) { Lat l(3); l[0] = {{"a", 1, 0}}; l[1] = {{"b", 2, 0}}; l[2] = {{m & 8 ? "a" : "c", 3, 0}}; if (m & 1) l[0].push_back(Arc{"b", 2, 1}); if (m & 2) l[1].push_back(Arc{"c", 3, -1}); if (m & 4) l[0].push_back(Arc{"a", 3, 3}); if (!(m & 7)) l[1].push_back(Arc{"b", 2, 4}); lats.push_back(l); }
    Lat l(4); for (int i = 0; i < 4; ++i) for (const char* w : {"a", "b", "c"}) l[i].push_back(Arc{w, i + 1, 0.25 * (w[0] - 'a')}); lats.push_back(l); for (int i = 0; i < 4; ++i) for (int j = i + 2; j <= 4; ++j) l[i].push_back(Arc{"a", j, 1}); lats.push_back(l);
  }
  uint64_t n = 0;
  auto go = [&](AHG h0, int words) {
    AHG h = h0; for (size_t i = 0; i < h.e.size(); ++i) { h.e[i].word = words == 0 ? h0.e[i].word : words == 1 ? h0.e[i].word * 5 + 1 : h0.e[i].word * 7 + 2; }
    HGSpace::weigh(&h, 0); vector<vector<Deriv>> D; if (!HGSpace::derivs(h, &D, 300)) return; Hypergraph hg; HGSpace::build(h, &hg, false);
    set<vector<string>> ys; for (auto& d : D.back()) ys.insert(d.yield);
    int c = 0; for (auto& y : ys) { if (c++ >= (x.thorough ? 40 : 6)) break; one(x, h, D, hg, lin(y), txt(y)); vector<string> z = y; z.pop_back(); if (!z.empty() && !ys.count(z)) one(x, h, D, hg, lin(z), txt(z)); z = y; z.push_back("b"); if (!ys.count(z) && c == 1) one(x, h, D, hg, lin(z), txt(z)); }
    size_t step = x.thorough ? 1 : 5; for (size_t i = n % step; i < strs.size(); i += step) if (!ys.count(strs[i])) one(x, h, D, hg, lin(strs[i]), txt(strs[i]));
    for (size_t i = n % step; i < lats.size(); i += step) one(x, h, D, hg, lats[i], plf(lats[i]));
    ++n;
  };
  chains(x);
  HGSpace::each(1, {3}, {0}, [&](AHG& h) { for (int w = 0; w < 3; ++w) go(h, w); });
  HGSpace::each(2, {2, 2}, {0, 3}, [&](AHG& h) { for (int w = 0; w < 3; ++w) go(h, w); });
  HGSpace::each(3, {2, 2, 2}, {0, 2, 2}, [&](AHG& h) { if (x.thorough) for (int w = 0; w < 3; ++w) go(h, w); else go(h, n % 3); });
  HGSpace::each(4, {1, 2, 1, 1}, {0, 1, 2, 2}, [&](AHG& h) { go(h, n % 3); });
  if (x.thorough) HGSpace::each(4, {2, 2, 2, 1}, {0, 1, 2, 2}, [&](AHG& h) { go(h, n % 3); });
}
VC_MAIN(run)
