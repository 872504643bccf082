// C21: fragment scores and states are the same however a fragment is put together, and are what the definition says.
#include "compat.h"
#include "vc.h"
#include "kenlm.h"
#include "lm/left.hh"
#include "lm/partial.hh"
#include <memory>
#include <unordered_map>
using namespace std;
using namespace lm::ngram;
// fragments are strings over a b z(unknown) e(</s>), with ^ in front when they begin a sentence
static const string& name(char c) { static const string A = "a", B = "b", U = "<unk>", E = "</s>", S = "<s>"; return c == 'a' ? A : c == 'b' ? B : c == 'z' ? U : c == 'e' ? E : S; }
static G words(const string& f) { G g; for (char c : f) g.push_back(name(c)); return g; }
// ---- the definition
struct Ref {
  const Arpa real, cl; int order; bool rest; function<double(const G&)> lower; map<string, int> il, ir; map<string, double> pr, rs;
  Ref(const Arpa& m, const Arpa& c) : real(m), cl(c), order(m.order), rest(false) {}
  bool in(const string& g) const { return cl.has(words(g)); }
  bool left(const string& g) { auto i = il.find(g); if (i != il.end()) return i->second; bool r = false; if ((int)g.size() < order) for (char c : {'^', 'a', 'b', 'z', 'e'}) r = r || in(c + g); return il[g] = r; }                                   // something extends it to the left
  bool right(const string& g) { auto i = ir.find(g); if (i != ir.end()) return i->second; bool r = g == "^" || (g == "z" && !real.has({"<unk>"})); if ((int)g.size() < order) { auto j = cl.t.find(words(g)); if (j != cl.t.end() && j->second.second != 0) r = true; for (char c : {'a', 'b', 'z', 'e'}) r = r || (j != cl.t.end() && in(g + c)); } return ir[g] = r; }   // context worth keeping
  double p(const string& h, char w) { string k = h.size() > (size_t)order - 1 ? h.substr(h.size() - order + 1) : h; k += w; auto i = pr.find(k); if (i != pr.end()) return i->second; return pr[k] = cl.score(words(k.substr(0, k.size() - 1)), name(w)); }
  double r(const string& g) { if (!rest) return p(g.substr(0, g.size() - 1), g.back()); auto i = rs.find(g); if (i != rs.end()) return i->second; double v; if (lower) v = (int)g.size() == order ? p(g.substr(0, g.size() - 1), g.back()) : lower(words(g)); else { v = p(g.substr(0, g.size() - 1), g.back()); if ((int)g.size() < order) for (char c : {'^', 'a', 'b', 'z', 'e'}) if (in(c + g)) v = max(v, r(c + g)); } return rs[g] = v; }
  int open(const string& f, bool& full) { full = true; if (f[0] == '^') return 0; size_t k = 0; while (k < f.size() && (int)k < order - 1) { string g = f.substr(0, k + 1); if (!in(g) || !left(g)) return k; ++k; if (!right(g)) return k; } full = (int)k == order - 1; return k; }
  int keep(const string& f) { int n = min<int>(f.size(), order - 1); for (int k = n; k > 0; --k) if (right(f.substr(f.size() - k))) return k; return 0; }
  double score(const string& f) { bool fl; int o = open(f, fl); double s = 0; for (size_t i = f[0] == '^'; i < f.size(); ++i) s += (int)i < o ? r(f.substr(0, i + 1)) : p(f.substr(0, i), f[i]); return s; }
};
static bool near(double a, double b) { return fabs(a - b) <= 3e-5 * max(1.0, max(fabs(a), fabs(b))); }
static bool same(const Left& a, const Left& b) { return a.length == b.length && a.full == b.full && equal(a.pointers, a.pointers + a.length, b.pointers); }
static bool same(const State& a, const State& b) { return a.length == b.length && equal(a.words, a.words + a.length, b.words) && equal(a.backoff, a.backoff + a.length, b.backoff); }
static bool same(const ChartState& a, const ChartState& b) { return same(a.left, b.left) && same(a.right, b.right); }
static string show(const ChartState& s) { ostringstream o; o << "[left"; for (int i = 0; i < s.left.length; ++i) o << ' ' << s.left.pointers[i]; o << (s.left.full ? " full" : " open") << ", right"; for (int i = 0; i < s.right.length; ++i) o << ' ' << s.right.words[i] << '/' << s.right.backoff[i]; o << ']'; return o.str(); }
static void garbage(ChartState& s) { memset(static_cast<void*>(&s), 0xA5, sizeof s); s.left.full = true; }
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
struct Bounds { string al; int len; int vlen, xlen; bool two, tame; };
template <class M> struct Checker {
  vc::X& x; const M& m; Ref& r; string what; Bounds b; int bad = 0;
  struct Canon { ChartState s; float p; };
  unordered_map<string, Canon> memo; lm::WordIndex id[128]; uint64_t n = 0;
  bool fail(const char* key, const string& s) { ++bad; x.fail(key, what + ": " + s); return false; }
  Checker(vc::X& x, const M& m, Ref& r, const string& w, const Bounds& b) : x(x), m(m), r(r), what(w), b(b) { for (char c : {'a', 'b', 'z', 'e'}) id[(int)c] = m.GetVocabulary().Index(name(c)); id[(int)'^'] = m.GetVocabulary().BeginSentence(); }
  const Canon& canon(const string& f) {
    auto i = memo.find(f); if (i != memo.end()) return i->second;
    Canon c; garbage(c.s); RuleScore<M> sc(m, c.s); size_t k = 0; if (f[0] == '^') { sc.BeginSentence(); k = 1; } for (; k < f.size(); ++k) sc.Terminal(id[(int)f[k]]); c.p = sc.Finish(); ++n;
    if (!f.empty()) { bool full; int o = r.open(f, full), kp = r.keep(f); string e; double want = r.score(f);
      if (!near(c.p, want)) e = "score " + to_string(c.p) + " instead of " + to_string(want); else if (c.s.left.length != o || c.s.left.full != full) e = "left state of length " + to_string(c.s.left.length) + (c.s.left.full ? ", full" : ", open") + " instead of " + to_string(o) + (full ? ", full" : ", open");
      else if (c.s.right.length != kp) e = "right state of length " + to_string(c.s.right.length) + " instead of " + to_string(kp); else for (int j = 0; j < kp; ++j) { string g = f.substr(f.size() - 1 - j); auto t = r.cl.t.find(words(g)); double bo = t == r.cl.t.end() ? 0 : t->second.second; if (c.s.right.words[j] != id[(int)g[0]] || fabs(c.s.right.backoff[j] - bo) > 1e-5) e = "right state holds word " + to_string(c.s.right.words[j]) + " with back-off " + to_string(c.s.right.backoff[j]) + " at " + to_string(j) + " instead of " + to_string(bo); }
      if (!c.s.left.full && c.s.left.length != c.s.right.length) e = "an open fragment whose sides differ in length";
      if (e.size() && bad < 3) fail("fragment", "\"" + f + "\" from left to right: " + e); }
    return memo.emplace(f, c).first->second; }
  // every way to put a fragment together in one rule; by induction over the parts, every derivation
  vector<pair<int, bool>> sh;
  void shapes(const string& f, size_t at) {
    if (bad > 3) return;
    if (at == f.size()) { compose(f); return; }
    size_t lo = f[0] == '^' && at == 0 ? 2 : 1; if (lo == 2) { if (sh.empty()) { sh.push_back({1, true}); shapes(f, 1); sh.pop_back(); } for (size_t k = 1; k <= f.size(); ++k) { sh.push_back({(int)k, false}); shapes(f, k); sh.pop_back(); } return; }
    sh.push_back({1, true}); shapes(f, at + 1); sh.pop_back(); for (size_t k = 1; at + k <= f.size(); ++k) { sh.push_back({(int)k, false}); shapes(f, at + k); sh.pop_back(); } }
  void compose(const string& f) {
    const Canon c = canon(f); static const ChartState empty = [] { ChartState e; garbage(e); e.left.length = e.right.length = 0; e.left.full = false; return e; }();
    for (int v = 0; v < 8; ++v) { bool begin = v & 1, pass = v & 2, reset = v & 4; if (begin && sh[0].second) continue; if (pass && reset) continue; ChartState out, other; garbage(out); garbage(other); RuleScore<M> sc(m, reset ? other : out); if (reset) { if (f.size() % 2) sc.Terminal(id[(int)'b']); else sc.NonTerminal(c.s, -7); sc.Finish(); sc.Reset(out); } double want = c.p; size_t at = 0; bool first = true;
      for (auto& it : sh) { if (it.second) { if (f[at] == '^') sc.BeginSentence(); else sc.Terminal(id[(int)f[at]]); } else { const Canon& d = canon(f.substr(at, it.first)); if (!pass) want -= d.p; if (first && begin) sc.BeginNonTerminal(d.s, pass ? d.p : 0); else sc.NonTerminal(d.s, pass ? d.p : 0); if (reset && f.size() < 4) sc.NonTerminal(empty, 0); } at += it.first; first = false; }
      if (!b.tame) { sc.Terminal(id[(int)'e']); want += canon(f + 'e').p - c.p; }
      float got = sc.Finish(); ++n; if (!near(got, want) || !same(out, b.tame ? c.s : canon(f + 'e').s)) { string s; at = 0; for (auto& it : sh) { s += (it.second ? " " : " [") + f.substr(at, it.first) + (it.second ? "" : "]"); at += it.first; } fail("bracketing", "put together as" + s + (begin ? " (begins with a non-terminal)" : "") + (reset ? " (reset)" : "") + ": score " + to_string(got) + " instead of " + to_string(want) + ", state " + show(out) + " instead of " + show(c.s)); return; } } }
  void all(const string& f, vector<string>& v, int d, const string& al) { if (!f.empty()) v.push_back(f); if (d) for (char c : al) all(f + c, v, d - 1, al); }
  vector<string> list(int len, const string& al) { vector<string> v, w; all("", v, len, al); all("^", w, len - 1, al); v.insert(v.end(), w.begin(), w.end()); return v; }
  // one fragment per state, shortest first
  vector<string> reps(int len, bool begin, const string& al) { vector<string> v = list(len, al); stable_sort(v.begin(), v.end(), [](const string& a, const string& c) { return a.size() < c.size(); }); vector<string> o; for (auto& f : v) { if (f[0] == '^' && !begin) continue; bool dup = false; for (auto& g : o) if (same(canon(f).s, canon(g).s) && (f[0] == '^') == (g[0] == '^')) { dup = true; break; } if (!dup) o.push_back(f); } return o; }
  void comparisons(const vector<string>& fr) {
    vector<const ChartState*> d; for (auto& f : fr) { const ChartState& s = canon(f).s; bool dup = false; for (auto* t : d) if (same(*t, s)) { dup = true; break; } if (!dup) d.push_back(&s); }
    x.stat("states", d.size()); vector<ChartState> v; for (auto* s : d) v.push_back(*s);
    for (size_t i = 0; i < v.size() && bad < 4; ++i) for (size_t j = 0; j < v.size() && bad < 4; ++j) { const ChartState &a = v[i], &c = v[j]; bool eq = i == j, el = same(a.left, c.left), er = same(a.right, c.right); ++n;
      if ((a == c) != eq || (a.left == c.left) != el || (a.right == c.right) != er) fail("equality", show(a) + " and " + show(c) + (a == c ? " compare equal" : " compare different"));
      int p = a.Compare(c), q = c.Compare(a), pl = a.left.Compare(c.left), ql = c.left.Compare(a.left), p2 = a.right.Compare(c.right), q2 = c.right.Compare(a.right);
      if ((p == 0) != eq || (pl == 0) != el || (p2 == 0) != er || sgn(p) != -sgn(q) || sgn(pl) != -sgn(ql) || sgn(p2) != -sgn(q2) || (a < c) != (p < 0) || (a.left < c.left) != (pl < 0) || (a.right < c.right) != (p2 < 0)) fail("order", show(a) + " and " + show(c) + " are ordered inconsistently"); }
    for (auto& s : v) { ChartState t = s; for (int i = t.left.length; i < KENLM_MAX_ORDER - 1; ++i) t.left.pointers[i] = 0x77; for (int i = t.right.length; i < KENLM_MAX_ORDER - 1; ++i) { t.right.words[i] = 0x66; t.right.backoff[i] = 3; } if (!(t == s) || t.Compare(s) || hash_value(t) != hash_value(s) || hash_value(t.right, 5) != hash_value(s.right, 5) || hash_value(t.left) != hash_value(s.left)) fail("equality", show(s) + " depends on what is behind its end"); t.ZeroRemaining(); ChartState u = s; for (int i = u.left.length; i < KENLM_MAX_ORDER - 1; ++i) u.left.pointers[i] = 0; for (int i = u.right.length; i < KENLM_MAX_ORDER - 1; ++i) u.right.words[i] = 0, u.right.backoff[i] = 0; if (memcmp(t.left.pointers, u.left.pointers, sizeof u.left.pointers) || memcmp(&t.right, &u.right, sizeof u.right.words + sizeof u.right.backoff) || !same(t, s)) fail("equality", "ZeroRemaining of " + show(s)); }
    sort(v.begin(), v.end()); for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) if (!(v[i] < v[j]) || v[j] < v[i]) { if (bad < 4) fail("order", "not a strict order: " + show(v[i]) + " and " + show(v[j])); } }
  // words added in front of scored ones
  void extend(const vector<string>& fr, const vector<string>& ctx) {
    for (auto& f : fr) { const ChartState& s = canon(f).s; if (!s.left.length || bad > 3) continue;
      for (int i = 0; i <= s.left.length; ++i) for (int j = i; j <= s.left.length; ++j) { double want = 0; for (int k = i; k < j; ++k) want += r.p(f.substr(0, k), f[k]) - r.r(f.substr(0, k + 1)); float got = m.UnRest(s.left.pointers + i, s.left.pointers + j, i + 1); if (!near(got, want)) { fail("unrest", "UnRest over words " + to_string(i) + "-" + to_string(j) + " of " + f + " is " + to_string(got) + " instead of " + to_string(want)); } }
      for (auto& cf : ctx) { const State& c = canon(cf).s.right; if (!c.length) continue; float b1[KENLM_MAX_ORDER], b2[KENLM_MAX_ORDER], *in = b1, *out = b2; copy(c.backoff, c.backoff + c.length, in); unsigned char use = c.length; string kept = cf.substr(cf.size() - c.length);
        for (int k = 1; k <= s.left.length && use; ++k) { string g = f.substr(0, k), h = cf + f.substr(0, k - 1); unsigned char had = use; lm::FullScoreReturn ret = m.ExtendLeft(c.words, c.words + use, in, s.left.pointers[k - 1], k, out, use); ++n; swap(in, out); string e; double p = r.p(h, f[k - 1]); int cl, rl; G hw = words(h); r.cl.score(hw, name(f[k - 1]), &cl); r.real.score(hw, name(f[k - 1]), &rl); string full = (had ? kept.substr(kept.size() - had) : "") + g; bool whole = r.in(full) && (int)full.size() <= r.order; bool dep = whole && r.left(full) && had == (int)kept.size(); int nu = 0; for (int j = 1; j <= had; ++j) if (r.right(kept.substr(kept.size() - j) + g)) nu = j;
          if (!near(ret.prob + r.r(g), p)) e = "probability " + to_string(ret.prob + r.r(g)) + " instead of " + to_string(p); else if (ret.ngram_length > max(cl, k) || ret.ngram_length < min(rl, k)) e = "length " + to_string(ret.ngram_length) + " instead of " + to_string(cl); else if (dep && ret.independent_left) e = "claims to be independent of words further left"; else if (!ret.independent_left && !near(ret.rest + r.r(g), r.r(full))) e = "rest " + to_string(ret.rest + r.r(g)) + " instead of " + to_string(r.r(full)); else if (use != nu) e = "next use " + to_string(use) + " instead of " + to_string(nu);
          if (e.size()) { fail("extend-left", "\"" + cf + "\" in front of \"" + g + "\": " + e); break; } } } } }
  // rules whose children are revealed bit by bit
  struct Prog { unsigned char l, r; bool lf, rf; bool operator<(const Prog& o) const { return make_tuple(l, r, lf, rf) < make_tuple(o.l, o.r, o.lf, o.rf); } };
  static bool done(const Prog& p, const ChartState& v) { return p.l == v.left.length && p.r == v.right.length && (!v.left.full || (p.lf && p.rf)); }
  static char* key(const ChartState& s, char* k) { *k++ = s.left.length; *k++ = s.left.full; memcpy(k, s.left.pointers, s.left.length * 8); k += s.left.length * 8; *k++ = s.right.length; memcpy(k, s.right.words, s.right.length * 4); k += s.right.length * 4; memcpy(k, s.right.backoff, s.right.length * 4); return k + s.right.length * 4; }
  struct Node { Prog p[2]; bool c[2]; int nb; ChartState s[3]; double adj; };
  void rule(const string* xs, const string* vs, int arity) {
    double want = 0; string whole = xs[0]; for (int i = 0; i < arity; ++i) whole += vs[i] + xs[i + 1]; want = canon(whole).p; Node root; root.nb = arity + 1; for (int i = 0; i <= arity; ++i) { root.s[i] = canon(xs[i]).s; want -= canon(xs[i]).p; } for (int i = 0; i < arity; ++i) { root.p[i] = Prog{0, 0, false, false}; root.c[i] = false; want -= canon(vs[i]).p; } root.adj = 0; if (arity < 2) root.c[1] = true, root.p[1] = Prog{0, 0, false, false};
    static unordered_map<uint64_t, double> seen; seen.clear(); const ChartState* vc_[2] = {&canon(vs[0]).s, arity > 1 ? &canon(vs[1]).s : nullptr}; static vector<Node> todo; todo.assign(1, root); const ChartState& final = canon(whole).s;
    while (!todo.empty()) { Node cur = todo.back(); todo.pop_back(); bool fin = true; for (int i = 0; i < arity; ++i) fin = fin && cur.c[i];
      if (fin) { if (!near(cur.adj, want) || !same(cur.s[0], final)) { string s = "\"" + xs[0] + "\""; for (int i = 0; i < arity; ++i) s += " [" + vs[i] + "] \"" + xs[i + 1] + "\""; fail("reveal", s + ": revealing the parts adds " + to_string(cur.adj) + " instead of " + to_string(want) + ", state " + show(cur.s[0]) + " instead of " + show(final)); return; } continue; }
      for (int v = 0; v < arity; ++v) { if (cur.c[v]) continue; const ChartState& V = *vc_[v]; const Prog p = cur.p[v]; int before = v - (v && cur.c[0]);
        for (int l = p.l; l <= V.left.length; ++l) for (int rr = p.r; rr <= V.right.length; ++rr) for (int lf = p.lf; lf <= (V.left.full && l == V.left.length); ++lf) for (int rf = p.rf; rf <= (V.left.full && rr == V.right.length); ++rf) {
          Prog q{(unsigned char)l, (unsigned char)rr, (bool)lf, (bool)rf}; bool dn = done(q, V); if (!dn && !(p < q)) continue; if (r.order > 3 && !dn && (l - p.l) + (rr - p.r) > 2) continue; Node nx = cur; ChartState& a = nx.s[before]; ChartState& c = nx.s[before + 1]; ChartState upd = V; upd.left.length = l; upd.left.full = lf; upd.right.length = rr;
          if (l > p.l || (lf && !p.lf)) nx.adj += RevealAfter(m, a.left, a.right, upd.left, p.l);
          if (rr > p.r || (rf && !p.rf)) nx.adj += RevealBefore(m, upd.right, p.r, rf, c.left, c.right);
          ++n; if (dn) { if (lf) a.left.full = true; else nx.adj += Subsume(m, a.left, a.right, c.left, c.right, l); a.right = c.right; for (int i = before + 1; i + 1 < nx.nb; ++i) nx.s[i] = nx.s[i + 1]; --nx.nb; nx.c[v] = true; }
          nx.p[v] = q; char kb[600], *k = kb; for (int i = 0; i < arity; ++i) { *k++ = nx.p[i].l * 16 + nx.p[i].r; *k++ = nx.p[i].lf + 2 * nx.p[i].rf + 4 * nx.c[i]; } for (int i = 0; i < nx.nb; ++i) k = key(nx.s[i], k);
          auto in = seen.emplace(util::MurmurHashNative(kb, k - kb, 7), nx.adj); if (in.second) { todo.push_back(nx); } else if (!near(in.first->second, nx.adj)) { string s = "\"" + xs[0] + "\""; for (int i = 0; i < arity; ++i) s += " [" + vs[i] + "] \"" + xs[i + 1] + "\""; fail("reveal", s + ": two orders of revealing add " + to_string(nx.adj) + " and " + to_string(in.first->second)); return; } } } }
    x.stat("reveal states", seen.size()); }
  void reveals() {
    vector<string> vs = reps(b.vlen, true, b.al), xs = reps(b.xlen, false, b.al), x0 = reps(b.xlen, true, b.al); xs.insert(xs.begin(), ""); x0.insert(x0.begin(), "");
    for (auto& v : vs) for (auto& p : x0) { if (v[0] == '^' && !p.empty()) continue; for (auto& q : xs) { if (bad > 3) return; string X[2] = {p, q}; rule(X, &v, 1); } }
    if (!b.two) return; vector<string> v2 = reps(min(b.vlen, 2), false, b.al), y = reps(1, false, b.al); y.insert(y.begin(), ""); if (v2.size() > (x.thorough ? 12u : 6u)) v2.resize(x.thorough ? 12 : 6); if (y.size() > 4) y.resize(4);
    for (auto& v : v2) for (auto& w : v2) for (auto& p : y) for (auto& q : y) for (auto& s : y) { if (bad > 3) return; string X[3] = {p, q, s}, V[2] = {v, w}; rule(X, V, 2); } }
  void run() {
    vector<string> fr = list(b.len, b.al); stable_sort(fr.begin(), fr.end(), [](const string& a, const string& c) { return a.size() < c.size(); }); for (auto& f : fr) { canon(f); if (bad) return; }
    for (auto& f : fr) { sh.clear(); shapes(f, 0); if (bad) return; }
    if (!b.tame) { x.stat("operations", n); x.step(n); return; } comparisons(fr); vector<string> rp = reps(min(b.len, r.order + 1), true, b.al), ctx = reps(min(b.len, r.order), true, b.al); extend(rp, ctx); reveals(); x.stat("operations", n); x.step(n); }
};
// back-off weights are only given where the shorter n-gram is context, too (the others are only scored as whole sentences)
static Arpa tame(Arpa m) { for (int n = 2; n < m.order; ++n) { Ref r(m, closure(m)); for (auto& kv : m.t) { if ((int)kv.first.size() != n || kv.second.second == 0) continue; string g; for (auto& w : kv.first) for (char c : {'^', 'a', 'b', 'z', 'e'}) if (name(c) == w) g += c; if (!r.right(g.substr(1))) { bool ext = false; for (char c : {'a', 'b', 'z', 'e'}) ext = ext || r.in(g + c); if (!ext) kv.second.second = 0; } } } return m; }
static Arpa lower_model(const Arpa& m, int order) { Arpa l; int k = 5; for (auto& kv : m.t) if ((int)kv.first.size() <= order) l.add(kv.first, kv.first[0] == "<s>" && kv.first.size() == 1 ? -99 : arpa_p(k * 3 + order), (int)kv.first.size() < order && kv.first.back() != "</s>" ? arpa_b(k) : 0), ++k; l.order = order; l.unk_missing = m.unk_missing; return l; }
static void one(vc::X& x, const Arpa& m, int rep, bool lower, const Bounds& b, const string& F) {
  Config c = quiet(); c.unknown_missing_logprob = m.unk_missing; c.probing_multiplier = need_blanks(m) ? 8 : 1.5; Arpa cl = closure(m); if (rep == QTRIE || rep == QATRIE) { c.prob_bits = c.backoff_bits = 2; Arpa q; if (!quantised(m, 2, 2, q)) { c.prob_bits = c.backoff_bits = 8; if (!quantised(m, 8, 8, q)) { x.stat("ambiguous quantisation"); return; } } cl = q; }
  x.nontrivial(); m.write(F); Ref r(m, cl); vector<Arpa> lows; if (rep == REST) { r.rest = true; c.rest_function = Config::REST_MAX; if (lower) { c.rest_function = Config::REST_LOWER; for (int i = 1; i < m.order; ++i) { lows.push_back(lower_model(m, i)); string f = F + to_string(i); lows.back().write(f); c.rest_lower_files.push_back(f); lows.back() = closure(lows.back()); } r.lower = [&](const G& g) { const Arpa& l = lows[g.size() - 1]; return l.score(G(g.begin(), g.end() - 1), g.back()); }; } }
  dispatch(rep, [&](auto tag) { typedef typename decltype(tag)::T M; try { M model(F.c_str(), c); Checker<M>(x, model, r, REPN[rep] + string(lower ? " (lower)" : ""), b).run(); } catch (util::ProbingSizeException& e) { x.stat("refused: not enough space"); } catch (exception& e) { x.fail("load", string(REPN[rep]) + ": " + e.what()); } }); }
static void run(vc::X& x) {
  string F = x.dir + "/m.arpa"; vector<pair<Arpa, Bounds>> ms; bool th = x.thorough;
  auto put = [&](const Arpa& m0, const Bounds& b) { Arpa m = tame(m0); m.unk_missing = -2.75; if (b.tame && m0.order > 3 && m0.t != m.t && all_orders(m0)) { Arpa u = m0; u.unk_missing = -2.75; Bounds ub = b; ub.tame = false; ms.push_back({u, ub}); } if (!all_orders(m)) return; for (auto& q : ms) if (q.first.t == m.t && q.first.order == m.order && q.second.al == b.al) return; ms.push_back({m, b}); };
  Bounds w{"abze", th ? 5 : 4, 3, 2, true, true}, wl{"abz", th ? 6 : 5, 3, 2, true, true}, nar{"ab", th ? 8 : 7, 4, 3, false, true};
  for (unsigned bi : {0xffu, 0x0eu, 0x3fu, 0x0bu, 0x01u, 0xd6u, 0xe8u}) for (int zero = 0; zero < 2; ++zero) put(from_mask(bi, zero ^ (bi & 1), zero, 2), w);
  vector<unsigned> b3 = {0xff, 0x0e, 0x0b, 0x3f}, t3 = {0x7f, 0x01, 0x02, 0x04, 0x08, 0x0a, 0x0c, 0x26, 0x39}; if (th) for (unsigned t = 3; t < 128; t += 9) t3.push_back(t);
  int k = 0; for (unsigned bi : b3) for (unsigned t : t3) for (int zero = 0; zero < 2; ++zero) { ++k; if (!th && (zero ^ (k / 2 & 1))) continue; put(from_mask(bi | t << 8, k & 4 ? true : !zero, zero, 3, k & 8 ? 3 : 0, k & 16), k % 3 ? w : wl); }
  for (unsigned bi : {0xffu, 0x0fu}) for (unsigned t : {0x7fu, 0x0fu, 0x0bu}) for (unsigned f : th ? vector<unsigned>{31, 1, 2, 3, 4, 8, 15, 6} : vector<unsigned>{31, 2, 4}) for (int zero = 0; zero < 2; ++zero) { ++k; if (!th && (k & 1)) continue; put(from_mask(bi | t << 8 | f << 15, zero, zero, 4), nar); }
  for (unsigned g : {7u, 2u, 4u, 1u}) for (int zero = 0; zero < 2; ++zero) { if (!th && zero != (g == 2)) continue; put(from_mask(0x7fff | 31u << 15 | g << 20, true, zero, 5), nar); put(from_mask(0x0f0f | 31u << 15 | g << 20 | 3u << 23, zero, zero, 6), nar); put(from_mask(0x7fff | 31u << 15 | g << 20 | 3u << 23, zero, zero, 6), nar); }
  for (auto& q : ms) for (int rep = 0; rep <= NREP; ++rep) { if (!x.take()) continue; bool lower = rep == NREP; int rp = lower ? REST : rep; const Arpa& m = q.first; x.desc([&] { return string(REPN[rp]) + (lower ? " with lower order rest costs" : "") + ", order " + to_string(m.order) + ", fragments over " + q.second.al + ": " + m.brief(); }); x.state(vc::hstr(m.brief() + to_string(rep))); one(x, m, rp, lower, q.second, F); }
}
VC_MAIN(run)
