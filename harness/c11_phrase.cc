// C11: phrase-based and finite-state decoders: the derivations of the forest are exactly the licensed ones.
#include "c11_trans.h"
#include "phrasebased_translator.h"
#include "hg_io.h"
struct Entry { vector<string> f, e; Fe s; int times = 1; };
static vector<Entry> universe() {
  auto E = [](const char* f, const char* e, const char* n, double v) { Entry r; r.f = split(f); r.e = split(e); r.s[n] = v; return r; };
  return {E("a", "x", "F1", 1), E("b", "x", "F2", 1), E("a b", "x y", "F3", .5), E("b a", "z", "F4", 1), E("a", "y", "F5", 2), E("a a", "w", "F6", 1), E("a b a", "v x v", "F7", -1), E("b c", "u", "F8", 1)};
}
typedef vector<Entry> Table;
static Table table(int mask) { auto u = universe(); Table t; for (size_t i = 0; i < u.size(); ++i) if (mask >> i & 1) t.push_back(u[i]); return t; }
static string text(const Table& t) { string s; for (auto& e : t) for (int i = 0; i < e.times; ++i) s += words(e.f) + " ||| " + words(e.e) + " ||| " + fstr(e.s) + "\n"; return s; }
static Table effective(const Table& t, const set<string>& in, bool pt) { Table r = t; if (pt) for (auto& w : in) { bool have = false; for (auto& e : t) if (e.f.size() == 1 && e.f[0] == w) have = true; if (!have) { Entry e; e.f = e.e = {w}; e.s["PassThrough"] = 1; r.push_back(e); } } return r; }
struct Arc { string w; int to; };
typedef vector<vector<Arc>> Lat;
static Lat lattice(const vector<string>& s) { Lat l(s.size()); for (size_t i = 0; i < s.size(); ++i) l[i].push_back({s[i], (int)i + 1}); return l; }
static string plf(const Lat& l) { string s = "("; for (size_t i = 0; i < l.size(); ++i) { s += "("; for (auto& a : l[i]) s += "('" + a.w + "',0.0," + to_string(a.to - (int)i) + "),"; s += "),"; } return s + ")"; }
static void matches(const Lat& l, int at, size_t k, const Entry& e, vector<int>* ends) { if (k == e.f.size()) { ends->push_back(at); return; } if (at >= (int)l.size()) return; for (auto& a : l[at]) if (a.w == e.f[k]) matches(l, a.to, k + 1, e, ends); }
static void pb(const Lat& l, const Table& t, int D, vector<bool>& cov, vector<string>& e, const Fe& f, const string& pieces, Bag* b) {
  int gap = 0, n = l.size(); while (gap < n && cov[gap]) ++gap; if (gap == n) { ++(*b)[expect(words(e), f, pieces)]; return; }
  for (int i = gap; i < n && i <= gap + D; ++i) if (!cov[i]) for (auto& en : t) { vector<int> ends; matches(l, i, 0, en, &ends); for (int j : ends) { bool ok = true; for (int k = i; k < j; ++k) if (cov[k]) ok = false; if (!ok) continue; for (int r = 0; r < en.times; ++r) { for (int k = i; k < j; ++k) cov[k] = true; size_t m = e.size(); e.insert(e.end(), en.e.begin(), en.e.end()); Fe g = f; g += en.s; pb(l, t, D, cov, e, g, pieces + " " + to_string(i) + "-" + to_string(j) + ":" + words(en.f) + ">" + words(en.e), b); e.resize(m); for (int k = i; k < j; ++k) cov[k] = false; } } }
}
static string span_piece(const HG::Edge& e) { return e.tail_nodes_.empty() ? " " + to_string(e.i_) + "-" + to_string(e.j_) + ":" + TD::GetString(e.rule_->f_) + ">" + TD::GetString(e.rule_->e_) : ""; }
static string plain_piece(const HG::Edge& e) { return e.tail_nodes_.empty() ? " " + TD::GetString(e.rule_->f_) + ">" + TD::GetString(e.rule_->e_) : ""; }
static vector<vector<string>> sentences(int maxlen) { vector<vector<string>> r = {{}}; for (size_t i = 0; i < r.size(); ++i) if ((int)r[i].size() < maxlen) for (const char* w : {"a", "b", "c"}) { auto s = r[i]; s.push_back(w); r.push_back(s); } r.erase(r.begin()); return r; }
static void pbcase(vc::X& x, int mask, int D, bool pt, const vector<Lat>& in, bool dup, const char* key) {
  Table t = table(mask); if (dup && t.size()) t[0].times = 2; if (t.empty() && !pt) return; if (!x.take()) return; x.desc([=] { return string("phrase-based, distortion ") + to_string(D) + (pt ? ", pass-through" : "") + ", table:\n" + text(t); });
  vector<string> args = {"-g", file(x, "pt", text(t)), "--pb_max_distortion", to_string(D)}; if (pt) args.push_back("-P"); PhraseBasedTranslator tr(dec_conf(args));
  for (auto& l : in) { bool seq = true; set<string> w; vector<string> s; for (auto& p : l) { if (p.size() != 1 || p[0].to != int(&p - &l[0]) + 1) seq = false; for (auto& a : p) { w.insert(a.w); s.push_back(a.w); } } string src = seq ? words(s) : plf(l); Lattice ref; SentenceMetadata sm(0, ref); Hypergraph hg; bool ret = run(tr, src, &sm, &hg); Table u = effective(t, w, pt); Bag want; vector<bool> cov(l.size()); vector<string> e; pb(l, u, D, cov, e, Fe(), "", &want); compare(x, key, ret, hg, want, span_piece, "input " + src); tr.SentenceComplete(); }
}
// ---- finite-state: a source text or forest, segmented into phrases
static void fst(const vector<string>& s, size_t at, const Table& t, vector<string>& e, const Fe& f, const string& pieces, int mult, Bag* b) {
  if (at == s.size()) { (*b)[expect(words(e), f, pieces)] += mult; return; }
  for (auto& en : t) if (at + en.f.size() <= s.size() && equal(en.f.begin(), en.f.end(), s.begin() + at)) { size_t m = e.size(); e.insert(e.end(), en.e.begin(), en.e.end()); Fe g = f; g += en.s; fst(s, at + en.f.size(), t, e, g, pieces + " " + words(en.f) + ">" + words(en.e), mult * en.times, b); e.resize(m); } }
struct Prod { int head; vector<string> f; vector<int> tails; Fe s; };  // f: words, or "" for the next tail
struct Src { int n; vector<Prod> p; vector<string> cat; };
struct SD { vector<string> w; Fe f; };
static vector<SD> yields(const Src& s, int v) { vector<SD> r; for (auto& p : s.p) if (p.head == v) { vector<SD> cur = {SD()}; cur[0].f = p.s; size_t k = 0; for (auto& sym : p.f) { vector<SD> nx; if (!sym.empty()) { for (auto& c : cur) { c.w.push_back(sym); nx.push_back(c); } } else { auto kid = yields(s, p.tails[k++]); for (auto& c : cur) for (auto& y : kid) { SD d = c; d.w.insert(d.w.end(), y.w.begin(), y.w.end()); d.f += y.f; nx.push_back(d); } } cur.swap(nx); } r.insert(r.end(), cur.begin(), cur.end()); } return r; }
static string str(const Src& s) { string o; for (auto& p : s.p) { o += s.cat[p.head] + " ->"; size_t k = 0; for (auto& w : p.f) o += w.empty() ? " [" + s.cat[p.tails[k++]] + "]" : " " + w; o += " ||| " + fstr(p.s) + "\n"; } return o; }
static string write(vc::X& x, const Src& s) {
  Hypergraph h; for (int i = 0; i < s.n; ++i) h.AddNode(-TD::Convert(s.cat[i])); for (auto& p : s.p) { string r = "[" + s.cat[p.head] + "] |||", e; size_t k = 0; Hypergraph::TailNodeVector tail; for (auto& w : p.f) if (w.empty()) { r += " [" + s.cat[p.tails[k]] + "," + to_string(k + 1) + "]"; e += " [" + to_string(k + 1) + "]"; tail.push_back(p.tails[k++]); } else { r += " " + w; e += " " + w; } TRulePtr rule(new TRule(r + " |||" + e)); Hypergraph::Edge* ed = h.AddEdge(rule, tail); for (auto& f : p.s) ed->feature_values_.set_value(FD::Convert(f.first), f.second); h.ConnectEdgeToHeadNode(ed, &h.nodes_[p.head]); }
  string path = x.dir + "/src.bin"; ofstream o(path, ios::binary); HypergraphIO::WriteToBinary(h, &o); return path; }
static void fstcase(vc::X& x, int mask, bool pt, const vector<vector<string>>& in, bool dup, const string& goal) {
  Table t = table(mask); if (dup && t.size()) t[0].times = 2; if (t.empty() && !pt) return; if (!x.take()) return; x.desc([=] { return string("finite-state, goal ") + goal + (pt ? ", pass-through" : "") + ", table:\n" + text(t); });
  vector<string> args = {"-g", file(x, "pt", text(t)), "--goal", goal}; if (pt) args.push_back("-P"); FSTTranslator tr(dec_conf(args)); Translator& base = tr;
  for (auto& s : in) { Lattice ref; SentenceMetadata sm(0, ref); Hypergraph hg; bool ret = run(base, words(s), &sm, &hg); Bag want; vector<string> e; Fe f; f["TOP"] = 1; fst(s, 0, effective(t, set<string>(s.begin(), s.end()), pt), e, f, "", 1, &want); compare(x, "fst", ret, hg, want, plain_piece, "input " + words(s)); tr.SentenceComplete(); }
}
static void fstforest(vc::X& x, int mask, bool pt, const vector<Src>& in) {
  Table t = table(mask); if (!x.take()) return; x.desc([=] { return string("finite-state over forests") + (pt ? ", pass-through" : "") + ", table:\n" + text(t); });
  vector<string> args = {"-g", file(x, "pt", text(t))}; if (pt) args.push_back("-P"); FSTTranslator tr(dec_conf(args)); Translator& base = tr;
  for (auto& s : in) { Lattice ref; SentenceMetadata sm(0, ref); Hypergraph hg; string path = write(x, s); bool ret = run(base, "::forest:: " + path, &sm, &hg); Bag want; set<string> w; for (auto& p : s.p) for (auto& q : p.f) if (!q.empty()) w.insert(q); Table u = effective(t, w, pt); for (auto& y : yields(s, s.n - 1)) { vector<string> e; fst(y.w, 0, u, e, y.f, "", 1, &want); } compare(x, "fst-forest", ret, hg, want, plain_piece, "forest\n" + str(s)); tr.SentenceComplete(); }
}
// source forests: A and B have one or two productions each, C over A and B up to two, S -> C
static vector<Src> forests(bool full) {
  vector<Src> r; auto P = [](int h, const char* f, vector<int> t) { Prod p; p.head = h; for (auto& w : split(f)) p.f.push_back(w == "_" ? "" : w); p.tails = t; return p; };
  vector<Prod> a = {P(0, "a", {}), P(0, "b", {}), P(0, "a b", {}), P(0, "a c", {})}, b = {P(1, "b", {}), P(1, "_", {0}), P(1, "a _", {0}), P(1, "_ a", {0}), P(1, "_ _", {0, 0}), P(1, "b _ a", {0})}, c = {P(2, "_ _", {0, 1}), P(2, "_ _", {1, 0}), P(2, "a _", {1}), P(2, "_", {1}), P(2, "_ b _", {1, 0}), P(2, "a b", {})};
  auto subs = [](const vector<Prod>& v, int mx) { vector<vector<Prod>> s; for (int m = 1; m < 1 << v.size(); ++m) if (__builtin_popcount(m) <= mx) { vector<Prod> p; for (size_t i = 0; i < v.size(); ++i) if (m >> i & 1) p.push_back(v[i]); s.push_back(p); } return s; };
  int k = 0; for (auto& pa : subs(a, 2)) for (auto& pb : subs(b, 2)) for (auto& pc : subs(c, 2)) { if (!full && k++ % 5) continue; Src s; s.n = 4; s.cat = {"A", "B", "C", "S"}; for (auto* v : {&pa, &pb, &pc}) for (auto& p : *v) s.p.push_back(p); s.p.push_back(P(3, "_", {2})); for (size_t i = 0; i < s.p.size(); ++i) s.p[i].s["G" + to_string(i)] = 1; bool uses = true; for (int v = 0; v < 3; ++v) { bool u = false; for (auto& p : s.p) for (int t : p.tails) if (t == v) u = true; uses &= u; } if (uses) r.push_back(s); }
  return r; }
static vector<Lat> lattices(int n, int step) { vector<Lat> r; vector<vector<vector<Arc>>> opt(n); for (int i = 0; i < n; ++i) { vector<Arc> all; for (int j = i + 1; j <= n; ++j) for (const char* w : {"a", "b"}) all.push_back({w, j}); for (int m = 1; m < 1 << all.size(); ++m) { vector<Arc> v; for (size_t k = 0; k < all.size(); ++k) if (m >> k & 1) v.push_back(all[k]); opt[i].push_back(v); } } vector<size_t> ix(n); int c = 0; while (true) { if (c++ % step == 0) { Lat l(n); for (int i = 0; i < n; ++i) l[i] = opt[i][ix[i]]; r.push_back(l); } int i = 0; for (; i < n; ++i) { if (++ix[i] < opt[i].size()) break; ix[i] = 0; } if (i == n) break; } return r; }
void vc_run(vc::X& x) {
  know({"F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "PassThrough", "TOP", "G0", "G1", "G2", "G3", "G4", "G5", "G6"});
  auto in = sentences(x.thorough ? 4 : 3); auto rev = in; reverse(rev.begin(), rev.end()); vector<Lat> li, lr; for (auto& s : in) li.push_back(lattice(s)); for (auto& s : rev) lr.push_back(lattice(s));
  { vector<vector<string>> longer = {{"a", "b", "a", "b"}, {"a", "a", "b", "c"}, {"b", "a", "b", "a"}, {"c", "a", "b", "a"}, {"a", "b", "a", "b", "a"}}; for (auto& s : longer) li.push_back(lattice(s)); }
  for (int m = 0; m < 256; ++m) for (int D = 0; D < 4; ++D) for (int pt = 0; pt < 2; ++pt) pbcase(x, m, D, pt, (m + D) % 2 ? li : lr, false, "phrase-based");
  for (int m = 1; m < 256; ++m) pbcase(x, m, 2, m & 1, li, true, "phrase-based");
  vector<Lat> l2 = lattices(2, 1), l3 = lattices(3, x.thorough ? 1 : 7); l2.insert(l2.end(), l3.begin(), l3.end());
  { vector<Lat> chunk; int c = 0; for (size_t i = 0; i < l2.size(); ++i) { chunk.push_back(l2[i]); if (chunk.size() == 60 || i + 1 == l2.size()) { for (int m : {3, 7, 11, 15, 31, 63, 19, 47, 127, 255}) for (int D = 0; D < 3; ++D) pbcase(x, m, D, c++ % 2, chunk, false, "phrase-based-lattice"); chunk.clear(); } } }
  auto fin = sentences(4); for (auto& s : vector<vector<string>>{{"a", "b", "a", "b", "a"}, {"a", "a", "a", "a", "a", "a"}, {"b", "a", "b", "a", "b", "a"}}) fin.push_back(s); auto frev = fin; reverse(frev.begin(), frev.end());
  for (int m = 0; m < 256; ++m) for (int pt = 0; pt < 2; ++pt) fstcase(x, m, pt, m % 2 ? fin : frev, false, "S");
  for (int m = 1; m < 256; ++m) fstcase(x, m, m & 1, fin, true, "S");
  for (const char* g : {"X", "TOP", "Goal"}) for (int m : {3, 15, 255}) for (int pt = 0; pt < 2; ++pt) fstcase(x, m, pt, fin, false, g);
  auto fo = forests(x.thorough); { vector<Src> chunk; for (size_t i = 0; i < fo.size(); ++i) { chunk.push_back(fo[i]); if (chunk.size() == 40 || i + 1 == fo.size()) { for (int m : {3, 7, 19, 15, 47, 255, 132, 133}) for (int pt = 0; pt < 2; ++pt) fstforest(x, m, pt, chunk); chunk.clear(); } } }
}
VC_MAIN(vc_run)
