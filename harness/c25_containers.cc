// C25: containers against plain maps, vectors and arrays under every operation sequence up to a depth.
#include "vc.h"
#include "config.h"
#include "fast_sparse_vector.h"
#include "sparse_vector.h"
#include "small_vector.h"
#include "value_array.h"
#include "array2d.h"
#include "indices_after.h"
#include "batched_append.h"
#include "b64featvector.h"
#include "b64tools.h"
#include "fdict.h"
#include "hash.h"
#include "logval.h"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <algorithm>
#include <new>
using namespace std;
// every allocation carries guards, so that writes outside, double deletion and leaks are seen
static bool mem_on = false; static long mem_live = 0; static const char* mem_bad = nullptr;
static void* galloc(size_t n) { char* p = (char*)malloc(n + 32); if (!p) throw bad_alloc(); *(size_t*)p = n; *(uint64_t*)(p + 8) = mem_on ? 0x1111222233334444ULL : 0x5555666677778888ULL; memset(p + 16 + n, 0xA7, 16); memset(p + 16, 0xCD, n < 4096 ? n : 4096); if (mem_on) ++mem_live; return p + 16; }
static void gfree(void* v) { if (!v) return; char* p = (char*)v - 16; uint64_t m = *(uint64_t*)(p + 8); size_t n = *(size_t*)p; if (m != 0x1111222233334444ULL && m != 0x5555666677778888ULL) { mem_bad = "released twice or never allocated"; return; } for (int i = 0; i < 16; ++i) if ((unsigned char)p[16 + n + i] != 0xA7) { mem_bad = "written past the end"; break; } if (m == 0x1111222233334444ULL) --mem_live; *(uint64_t*)(p + 8) = 0xDEAD; memset(p + 16, 0xEE, n < 4096 ? n : 4096); free(p); }
void* operator new(size_t n) { return galloc(n); }
void* operator new[](size_t n) { return galloc(n); }
void operator delete(void* p) noexcept { gfree(p); }
void operator delete[](void* p) noexcept { gfree(p); }
void operator delete(void* p, size_t) noexcept { gfree(p); }
void operator delete[](void* p, size_t) noexcept { gfree(p); }
struct Off { bool o; Off() : o(mem_on) { mem_on = false; } ~Off() { mem_on = o; } };
static void note(vc::X& x, uint64_t h) { Off o; x.state(h); }
struct Mem { vc::X& x; uint64_t nf; Mem(vc::X& x) : x(x), nf(x.stats["failures"]) { mem_bad = nullptr; mem_live = 0; mem_on = true; } ~Mem() { mem_on = false; long l = mem_live; const char* b = mem_bad; if (x.stats["failures"] != nf) return; x.check(!b, "memory", [&] { return string("memory ") + b; }); x.check(l == 0, "leak", [&] { return to_string(l) + " allocations never released"; }); } };

// ---- sparse vectors
typedef map<unsigned, double> M;
static string ms(const M& m) { ostringstream o; o << "{"; for (auto& k : m) o << k.first << ":" << k.second << " "; o << "}"; return o.str(); }
static double at(const M& m, unsigned k) { auto i = m.find(k); return i == m.end() ? 0 : i->second; }
template <class T> static double num(const T& t) { return (double)t; }
template <> double num<LogVal<double>>(const LogVal<double>& t) { return t.as_float(); }
static const unsigned NK = 19;
template <class T> struct NZ { static bool one(const FastSparseVector<T>& c, unsigned k) { return c.nonzero(k); } static size_t all(const FastSparseVector<T>& c, size_t) { return c.num_nonzero(); } static void dense(vc::X& x, const FastSparseVector<T>& a, const M& m, const string& w); };
template <> struct NZ<LogVal<double>> { typedef LogVal<double> T; static bool one(const FastSparseVector<T>& c, unsigned k) { return fabs(c.value(k).as_float()) > 1e-9; } static size_t all(const FastSparseVector<T>&, size_t n) { return n; } static void dense(vc::X&, const FastSparseVector<T>&, const M&, const string&) {} };
template <class T> struct SV { typedef FastSparseVector<T> V; V v[2]; M m[2]; };
template <class T> static void same(vc::X& x, FastSparseVector<T>& v, const M& m, const string& what) {
  const FastSparseVector<T>& c = v; const bool lg = sizeof(T) > 8; auto eq = [&](double a, double b) { return lg ? vc::close(a, b, 1e-9) : a == b; };
  auto bad = [&](const char* k) { x.fail(string("sv-") + k, what + ": expected " + ms(m) + ", size " + to_string(c.size())); };
  if (c.size() != m.size()) return bad("size"); if (c.empty() != m.empty()) bad("empty");
  M a, b; size_t n = 0; for (auto it = v.begin(); it != v.end(); ++it) { if (++n > 64) return bad("iterate"); a[it->first] += num((*it).second); }
  n = 0; for (auto it = c.begin(), e = c.end(); it != e; ++it) { if (++n > 64) return bad("iterate"); b[(*it).first] += num(it->second); }
  if (n != m.size() || a.size() != m.size() || b.size() != m.size()) return bad("iterate"); for (auto& k : m) if (!eq(a[k.first], k.second) || !eq(b[k.first], k.second)) return bad("content");
  size_t nz = 0; for (unsigned k = 0; k < NK; ++k) { double w = at(m, k); bool in = m.count(k); if (!eq(num(c.value(k)), w) || !eq(num(c.get(k)), w)) return bad("value"); if (NZ<T>::one(c, k) != (w != 0)) return bad("nonzero"); nz += w != 0; auto it = v.find(k); auto ic = c.find(k); if ((it != v.end()) != in || (ic != c.end()) != in) return bad("find"); if (in && (it->first != k || ic->first != k || !eq(num(it->second), w) || !eq(num(ic->second), w))) return bad("find"); }
  if (NZ<T>::all(c, nz) != nz) bad("num_nonzero"); if (m.size() == 1 && !eq(num(c.get_singleton()), m.begin()->second)) bad("singleton"); }
template <class T> static void algebra(vc::X& x, const FastSparseVector<T>& a, const FastSparseVector<T>& b, const M& ma, const M& mb, const string& what) {
  double d = 0, l = 0, l1 = 0; unsigned top = 0; for (auto& k : ma) { d += k.second * at(mb, k.first); l += k.second * k.second; l1 += fabs(k.second); top = max(top, k.first + 1); }
  auto near = [&](double g, double w) { return vc::close(g, w, 1e-5); };
  x.check(near(num(a.dot(b)), d) && near(num(b.dot(a)), d), "sv-dot", [&] { return what + ": dot of " + ms(ma) + ms(mb); }); x.check(near(num(a.l2norm_sq()), l), "sv-l2", [&] { return what + ": squared norm of " + ms(ma); });
  bool mat = true; for (unsigned k = 0; k < NK; ++k) mat &= at(ma, k) == at(mb, k); bool e = a == b, f = b == a; x.check(e == f, "sv-eq-symmetric", [&] { return what + ": equality of " + ms(ma) + " and " + ms(mb) + " depends on the side"; }); if (ma == mb) x.check(e, "sv-eq", [&] { return what + ": equal vectors " + ms(ma) + " compare different"; }); if (!mat) x.check(!e, "sv-neq", [&] { return what + ": " + ms(ma) + " and " + ms(mb) + " compare equal"; }); }
template <class T> static void algebra2(vc::X& x, const FastSparseVector<T>& a, const M& ma, const string& what) {
  double l = 0, l1 = 0; unsigned top = 0; for (auto& k : ma) { l += k.second * k.second; l1 += fabs(k.second); top = max(top, k.first + 1); }
  if (T(0.5) != T(0)) x.check(vc::close(a.l2norm(), sqrt(l), 1e-5) && vc::close(a.pnorm(1), l1, 1e-5) && vc::close(a.pnorm(2), sqrt(l), 1e-5), "sv-norm", [&] { return what + ": norms of " + ms(ma); });
  vector<T> dv(3, T(7)); a.init_vector(dv); bool ok = dv.size() == top; for (unsigned k = 0; k < top && ok; ++k) ok = dv[k] == (T)at(ma, k); vector<T> pv; a.init_vector(&pv); x.check(ok && pv == dv, "sv-dense", [&] { return what + ": dense form of " + ms(ma); });
  for (unsigned n : {0u, 3u, NK}) { vector<T> w; double d = 0; for (unsigned k = 0; k < n; ++k) { w.push_back(T(k + 1)); d += (k + 1) * at(ma, k); } x.check(vc::close(a.dot(w), d, 1e-5), "sv-dot-dense", [&] { return what + ": dot of " + ms(ma) + " with a dense vector of " + to_string(n); }); } }
template <class T> void NZ<T>::dense(vc::X& x, const FastSparseVector<T>& a, const M& m, const string& w) { algebra2(x, a, m, w); }
template <class V> static string text(const V& v) { ostringstream o; { boost::archive::text_oarchive a(o); a << v; } return o.str(); }
template <class V> static void untext(const string& s, V* v) { istringstream i(s); boost::archive::text_iarchive a(i); a >> *v; }
struct Op { string n; int k; int v; };
template <class T> static vector<Op> svops() { vector<Op> o; // keys: first, last of the initial ones, one after, far, the reserved 0
  for (int k : {1, 3, 7, 8, 16, 0}) { o.push_back({"set", k, 3}); o.push_back({"add", k, 2}); o.push_back({"erase", k, 0}); } o.push_back({"set", 8, 0}); o.push_back({"set", 3, 0}); o.push_back({"sub1", 3, 0});
  for (auto n : {"A=B", "A+=B", "A-=B", "A*=2", "A/=2", "swap", "clear", "A=A+B", "A=A-B", "A=B-A", "A+=A", "A-=A", "A=A", "copy", "A+=B*2", "drop zeros", "A=A*2", "A=A/2", "archive", "range", "A+=mixed"}) o.push_back({n, 0, 0}); return o; }
template <class T> static void mixed(FastSparseVector<T>* v, M* m) { FastSparseVector<int> w; for (int k = 5; k < 14; k += 4) { w.set_value(k, 4); (*m)[k] += 4; } *v += w; }
template <> void mixed(FastSparseVector<LogVal<double>>* v, M* m) { for (int k = 5; k < 14; k += 4) { v->add_value(k, LogVal<double>(4)); (*m)[k] += 4; } }
template <class T> struct EZ { static FastSparseVector<T> go(const FastSparseVector<T>& v) { return v.erase_zeros(); } static T lit(double d) { return T(d); } static void arch(FastSparseVector<T>* v, M* m) { string s = text(*v); v->clear(); (*v)[2] = 9; untext(s, v); m->erase(0); } };
template <> struct EZ<LogVal<double>> { typedef LogVal<double> T; static FastSparseVector<T> go(const FastSparseVector<T>& v) { FastSparseVector<T> o; for (auto it = v.begin(); it != v.end(); ++it) if (fabs(it->second.as_float()) > 1e-9) o.set_value(it->first, it->second); return o; } static T lit(double d) { return T(d); } static void arch(FastSparseVector<T>* v, M* m) { FastSparseVector<T> w; for (auto it = v->begin(); it != v->end(); ++it) if (it->first) w.set_value(it->first, it->second); v->swap(w); m->erase(0); } };
template <class T> static bool apply(vc::X& x, const Op& o, SV<T>& s, int r) {
  auto &a = s.v[r], &b = s.v[1 - r]; M &ma = s.m[r], &mb = s.m[1 - r]; auto lit = [](double d) { return EZ<T>::lit(d); };
  auto plus = [](M p, const M& q, double f) { for (auto& k : q) p[k.first] += f * k.second; return p; };
  if (o.n == "set") { a.set_value(o.k, lit(o.v)); ma[o.k] = o.v; } else if (o.n == "add") { T& t = a.add_value(o.k, lit(o.v)); ma[o.k] += o.v; x.check(vc::close(num(t), ma[o.k], 1e-9), "sv-add-result", "value returned by add"); }
  else if (o.n == "sub1") { a[o.k] -= lit(1); ma[o.k] -= 1; } else if (o.n == "erase") { a.erase(o.k); ma.erase(o.k); }
  else if (o.n == "A=B") { a = b; ma = mb; } else if (o.n == "A+=B") { a += b; ma = plus(ma, mb, 1); } else if (o.n == "A-=B") { a -= b; ma = plus(ma, mb, -1); }
  else if (o.n == "A*=2") { a *= lit(2); for (auto& k : ma) k.second *= 2; } else if (o.n == "A/=2") { for (auto& k : ma) if (sizeof(T) == 4 && k.second != 2 * (int)(k.second / 2)) return false; a /= lit(2); for (auto& k : ma) k.second /= 2; }
  else if (o.n == "swap") { a.swap(b); ma.swap(mb); } else if (o.n == "clear") { a.clear(); ma.clear(); } else if (o.n == "A=A+B") { a = a + b; ma = plus(ma, mb, 1); } else if (o.n == "A=A-B") { a = a - b; ma = plus(ma, mb, -1); } else if (o.n == "A=B-A") { a = b - a; ma = plus(mb, ma, -1); }
  else if (o.n == "A+=A") { a += a; for (auto& k : ma) k.second *= 2; } else if (o.n == "A-=A") { a -= a; for (auto& k : ma) k.second = 0; } else if (o.n == "A=A") { a = *&a; }
  else if (o.n == "copy") { FastSparseVector<T> c(a), d; d = c; c[18] = lit(5); d.clear(); FastSparseVector<T> e(a); e.swap(c); a = e; } else if (o.n == "A+=B*2") { a.plus_eq_v_times_s(b, lit(2)); ma = plus(ma, mb, 2); }
  else if (o.n == "drop zeros") { a = EZ<T>::go(a); M n; for (auto& k : ma) if (k.second != 0) n.insert(k); ma = n; } else if (o.n == "A=A*2") { a = a * lit(2); for (auto& k : ma) k.second *= 2; } else if (o.n == "A=A/2") { for (auto& k : ma) if (sizeof(T) == 4 && k.second != 2 * (int)(k.second / 2)) return false; a = a / lit(2); for (auto& k : ma) k.second /= 2; }
  else if (o.n == "archive") EZ<T>::arch(&a, &ma); else if (o.n == "range") { vector<pair<unsigned, T>> p; for (auto& k : mb) p.push_back({k.first, lit(k.second)}); FastSparseVector<T> c(p.data(), p.data() + p.size()); a = c; ma = mb; } else if (o.n == "A+=mixed") { mixed(&a, &ma); }
  if (o.n == "copy") { ma[18] = 5; }
  return true; }
template <class T> static void svall(vc::X& x, int depth, const vector<pair<int, int>>& starts, const string& tn) {
  const vector<Op> ops = svops<T>(); const bool signed_ok = true; (void)signed_ok;
  for (auto& st : starts) for (size_t f = 0; f < ops.size(); ++f) {
    if (!x.take()) continue; x.desc([=] { return "sparse vector of " + tn + ", A with keys 1.." + to_string(st.first) + ", B with " + to_string(st.second) + " keys; sequences starting with " + ops[f].n + " " + to_string(ops[f].k); });
    vector<size_t> seq(1, f); set<vector<double>> seen; 
    // depth first over sequences; a state reached before with the same layout is not expanded again
    function<void()> rec = [&] {
      Mem mem(x); { SV<T> s; for (int i = 1; i <= st.first; ++i) { s.v[0].set_value(i, EZ<T>::lit(i)); s.m[0][i] = i; } for (int i = 0; i < st.second; ++i) { s.v[1].set_value(17 - i, EZ<T>::lit(i + 1)); s.m[1][17 - i] = i + 1; }
        string w; for (size_t i : seq) { w += ops[i].n + (ops[i].n.size() > 2 && ops[i].n[0] != 'A' ? " " + to_string(ops[i].k) : "") + "; "; if (!apply(x, ops[i], s, 0)) return; }
        x.step(); size_t nf = x.fails.size(); same(x, s.v[0], s.m[0], w + "A"); same(x, s.v[1], s.m[1], w + "B"); if (sizeof(T) <= 8) algebra(x, s.v[0], s.v[1], s.m[0], s.m[1], w); NZ<T>::dense(x, s.v[0], s.m[0], w); if (x.fails.size() != nf) return;
        vector<double> key; bool big = false; for (int r = 0; r < 2; ++r) { for (auto it = s.v[r].begin(); it != s.v[r].end(); ++it) { key.push_back(it->first); key.push_back(num(it->second)); big |= fabs(num(it->second)) > 1e6; } char* in = s.v[r].empty() ? nullptr : (char*)&*s.v[r].begin(); key.push_back(in >= (char*)&s.v[r] && in < (char*)(&s.v[r] + 1) ? -1e9 : -2e9); } uint64_t h = 7; for (double d : key) h = vc::mix(h, vc::hdbl(d)); note(x, h); if (s.m[0].size() > 7 || s.m[1].size() > 7) x.nontrivial(); if (big) return; key.push_back(seq.size()); Off off; if (!seen.insert(key).second) return; }
      mem_on = false; if ((int)seq.size() < depth) for (size_t i = 0; i < ops.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); } mem_on = true; };
    rec(); } }

// ---- small vectors
template <class V, class T> static void svec_same(vc::X& x, const V& v, const vector<int>& m, const string& w) {
  auto bad = [&](const char* k) { x.fail(string("small-") + k, w + ": expected " + vc::str(m) + " size " + to_string(v.size())); }; if (v.size() != m.size() || v.empty() != m.empty()) return bad("size"); V& u = const_cast<V&>(v);
  for (size_t i = 0; i < m.size(); ++i) if (v[i] != (T)m[i] || u[i] != (T)m[i] || v.begin()[i] != (T)m[i] || u.begin()[i] != (T)m[i]) return bad("content"); if (v.end() - v.begin() != (long)m.size() || u.end() != v.end()) bad("range"); if (!m.empty() && (v.front() != (T)m[0] || v.back() != (T)m.back() || u.front() != (T)m[0] || u.back() != (T)m.back())) bad("ends"); vector<T> raw(m.size() + 1, T(77)); memcpy(raw.data(), v); for (size_t i = 0; i < m.size(); ++i) if (raw[i] != (T)m[i]) return bad("memcpy"); if (raw[m.size()] != T(77)) bad("memcpy"); }
template <class T, int N> struct Pop { static void pop(SmallVector<T, N>& v) { v.resize(v.size() - 1); } static void erase(SmallVector<T, N>& v, int i, int j) { v.erase(v.begin() + i, v.begin() + j); } static void compact(SmallVector<T, N>& v, int n) { v.resize(n); } };
template <int N> struct Pop<int, N> { static void pop(SmallVector<int, N>& v) { v.pop_back(); } static void erase(SmallVector<int, N>& v, int i, int j) { auto r = j == i + 1 ? v.erase(v.begin() + i) : v.erase(v.begin() + i, v.begin() + j); if (r != v.begin() + i) mem_bad = "(erase returned a wrong position)"; } static void compact(SmallVector<int, N>& v, int n) { if (n == (int)v.size()) v.compact(); else v.compact(n); } };
template <class T, int N> static void smallall(vc::X& x, int depth, const string& tn) {
  typedef SmallVector<T, N> V; vector<Op> ops; for (int v : {1, 2}) ops.push_back({"push", v, 0}); for (auto n : {"pop", "clear", "A=B", "swap", "copy", "A=A", "archive", "binary", "write", "push back"}) ops.push_back({n, 0, 0}); for (int n : {0, 1, 2, 3, 4, 5, 9}) { ops.push_back({"resize", n, 7}); ops.push_back({"fill", n, 3}); ops.push_back({"compact", n, 0}); } for (int i = 0; i < 4; ++i) { ops.push_back({"erase", i, i + 1}); if (i < 3) ops.push_back({"erase", i, i + 2}); } ops.push_back({"erase", 0, 4}); ops.push_back({"erase", 1, 1}); for (int n : {0, 1, 3, 5}) ops.push_back({"range", n, 0}); for (int n : {5, 14, 30}) ops.push_back({"push many", n, 0});
  for (size_t f = 0; f < ops.size(); ++f) for (size_t g = 0; g < ops.size(); ++g) {
    if (!x.take()) continue; x.desc([=] { return "small vector of " + tn + " with " + to_string(N) + " inline, sequences starting with " + ops[f].n + " " + to_string(ops[f].k) + ", " + ops[g].n + " " + to_string(ops[g].k); }); vector<size_t> seq = {f, g}; set<vector<int>> seen;
    function<void()> rec = [&] { { Mem mem(x); V a, b; vector<int> ma, mb; b.push_back(4); b.push_back(5); b.push_back(6); mb = {4, 5, 6}; string w;
        for (size_t i : seq) { const Op& o = ops[i]; w += o.n + " " + to_string(o.k) + "," + to_string(o.v) + "; "; int n = ma.size();
          if (o.n == "push") { a.push_back(T(o.k)); ma.push_back(o.k); } else if (o.n == "push many") { for (int k = 0; k < o.k; ++k) { a.push_back(T(k)); ma.push_back(k); } } else if (o.n == "pop") { if (!n) return; Pop<T, N>::pop(a); ma.pop_back(); } else if (o.n == "clear") { a.clear(); ma.clear(); } else if (o.n == "A=B") { a = b; ma = mb; } else if (o.n == "swap") { if (seq.size() & 1) a.swap(b); else { swap(a, b); } ma.swap(mb); } else if (o.n == "copy") { V c(a), d; d = c; c.push_back(T(1)); a = V(d); } else if (o.n == "A=A") { a = *&a; }
          else if (o.n == "archive") { string s = text(a); a.clear(); a.resize(3, 8); untext(s, &a); } else if (o.n == "binary") { ostringstream os; { boost::archive::binary_oarchive oa(os); oa << a; } istringstream is(os.str()); boost::archive::binary_iarchive ia(is); V c; ia >> c; a = c; } else if (o.n == "write") { if (!n) return; a[n - 1] = T(9); *a.begin() = T(8); ma[n - 1] = 9; ma[0] = 8; } else if (o.n == "push back") { if (!n) return; T t = a.back(); a.push_back(t); ma.push_back(ma.back()); }
          else if (o.n == "resize") { if (o.k % 2) { a.resize(o.k, o.v); ma.resize(o.k, o.v); } else { a.resize(o.k); ma.resize(o.k); } } else if (o.n == "fill") { V c(o.k, T(o.v)); a = c; ma.assign(o.k, o.v); } else if (o.n == "compact") { if (o.k > n) return; Pop<T, N>::compact(a, o.k); ma.resize(o.k); } else if (o.n == "erase") { if (o.v > n) return; Pop<T, N>::erase(a, o.k, o.v); ma.erase(ma.begin() + o.k, ma.begin() + o.v); } else if (o.n == "range") { const int z[] = {3, 1, 4, 1, 5}; V c(z, z + o.k); a = c; ma.assign(z, z + o.k); } }
        x.step(); size_t nf = x.fails.size(); svec_same<V, T>(x, a, ma, w + "A"); svec_same<V, T>(x, b, mb, w + "B"); x.check((a == b) == (ma == mb) && (a != b) == (ma != mb) && (b == a) == (ma == mb), "small-equal", w + "equality"); { V c; for (int v : ma) c.push_back(T(v)); x.check(a == c && hash_value(a) == hash_value(c), "small-hash", w + "equal content, different hash or not equal"); } if (x.fails.size() != nf) return; if ((int)ma.size() > N) x.nontrivial();
        vector<int> key = ma; key.push_back(-1); key.insert(key.end(), mb.begin(), mb.end()); key.push_back((int)seq.size() + 1000 * (int)(seq.back())); note(x, vc::mix(vc::hstr(vc::str(ma)), vc::hstr(vc::str(mb)))); Off off; if (!seen.insert(key).second) return; }
      if ((int)seq.size() < depth) for (size_t i = 0; i < ops.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); } };
    rec(); } }

// ---- value arrays
template <class T> struct VA : ValueArray<T> {};
template <class T> static T mk(int i) { return T(i); }
template <> string mk<string>(int i) { return string(i * 9, 'a' + i); }
template <class T> static bool va_arith(ValueArray<T>&, vector<T>&, int, const ValueArray<T>&, const vector<T>&) { return false; }
template <> bool va_arith<int>(ValueArray<int>& a, vector<int>& m, int k, const ValueArray<int>& b, const vector<int>& mb) { if (m.size() != mb.size()) return false; for (size_t i = 0; i < m.size(); ++i) if (k == 3 && !mb[i]) return false; if (k == 0) a += b; if (k == 1) a = a - b; if (k == 2) a *= b; if (k == 3) a /= b; for (size_t i = 0; i < m.size(); ++i) { if (k == 0) m[i] += mb[i]; if (k == 1) m[i] -= mb[i]; if (k == 2) m[i] *= mb[i]; if (k == 3) m[i] /= mb[i]; if (abs(m[i]) > 1000) return false; } return true; }
template <class T> static void vaall(vc::X& x, int depth, const string& tn) {
  vector<Op> ops; for (int n : {0, 1, 2, 5}) { ops.push_back({"reinit", n, 2}); ops.push_back({"reinit0", n, 0}); ops.push_back({"resize", n, 3}); ops.push_back({"range", n, 0}); ops.push_back({"vector", n, 0}); ops.push_back({"make", n, 1}); } for (auto n : {"clear", "A=B", "swap", "copy", "A=A", "write", "archive", "self reinit"}) ops.push_back({n, 0, 0}); for (int k = 0; k < 4; ++k) ops.push_back({"arith", k, 0});
  typedef ValueArray<T> V;
  for (size_t f = 0; f < ops.size(); ++f) for (size_t g = 0; g < ops.size(); ++g) { if (!x.take()) continue; x.desc([=] { return "value array of " + tn + ", sequences starting with " + ops[f].n + " " + to_string(ops[f].k) + ", " + ops[g].n + " " + to_string(ops[g].k); }); x.nontrivial(); vector<size_t> seq = {f, g};
    function<void()> rec = [&] { { Mem mem(x); V a, b(size_t(2), mk<T>(1)); vector<T> ma, mb(2, mk<T>(1)); string w; vector<T> src; for (int i = 0; i < 5; ++i) src.push_back(mk<T>(i * 7 % 5));
        for (size_t i : seq) { const Op& o = ops[i]; w += o.n + " " + to_string(o.k) + "; ";
          if (o.n == "reinit") { a.reinit(o.k, mk<T>(o.v)); ma.assign(o.k, mk<T>(o.v)); } else if (o.n == "reinit0") { a.reinit(o.k); ma.assign(o.k, T()); } else if (o.n == "resize") { if (o.k % 2) { a.resize(o.k); ma.resize(o.k); } else { a.resize(o.k, mk<T>(o.v)); ma.resize(o.k, mk<T>(o.v)); } } else if (o.n == "range") { a.reinit_range(src.begin(), src.begin() + o.k); ma.assign(src.begin(), src.begin() + o.k); } else if (o.n == "vector") { vector<T> u(src.begin(), src.begin() + o.k); a = V(u); ma = u; } else if (o.n == "make") { V c(src.data(), src.data() + o.k), d(o.k); a = c; ma.assign(src.begin(), src.begin() + o.k); vector<T> z(o.k); x.check(d.size() == (size_t)o.k && equal(d.begin(), d.end(), z.begin()), "va-make", w + "fresh array"); }
          else if (o.n == "clear") { a.clear(); ma.clear(); } else if (o.n == "A=B") { a = b; ma = mb; } else if (o.n == "swap") { a.swap(b); ma.swap(mb); } else if (o.n == "copy") { V c(a); c.reinit(3, mk<T>(1)); V d(a); a.clear(); a = d; } else if (o.n == "A=A") { a = *&a; } else if (o.n == "write") { if (ma.empty()) return; a[0] = mk<T>(4); a.back() = mk<T>(3); ma[0] = mk<T>(4); ma.back() = mk<T>(3); } else if (o.n == "archive") { ostringstream os; { boost::archive::text_oarchive oa(os); a.save(oa, 0); } istringstream is(os.str()); boost::archive::text_iarchive ia(is); a.load(ia, 0); } else if (o.n == "arith") { if (!va_arith<T>(a, ma, o.k, b, mb)) return; } else if (o.n == "self reinit") { a.reinit(ma.size()); ma.assign(ma.size(), T()); } }
        x.step(); auto ok = [&](V& v, vector<T>& m) { const V& c = v; if (c.size() != m.size() || c.empty() != m.empty() || c.end() - c.begin() != (long)m.size()) return false; for (size_t i = 0; i < m.size(); ++i) if (!(c[i] == m[i]) || !(v.at(i) == m[i])) return false; return m.empty() || (c.front() == m.front() && c.back() == m.back()); };
        size_t nf = x.fails.size(); x.check(ok(a, ma) && ok(b, mb), "va-content", [&] { ostringstream o; o << w << " gives sizes " << a.size() << " " << b.size() << " instead of " << ma.size() << " " << mb.size() << " or wrong content"; return o.str(); }); if (x.fails.size() != nf) return; x.check((a == b) == (ma == mb), "va-equal", w + "equality"); x.check((a < b) == (ma < mb) && (b < a) == (mb < ma), "va-less", w + "order"); V c(a); x.check(hash_value(c) == hash_value(a), "va-hash", w + "hash of a copy"); uint64_t h = 3; for (auto& t : ma) { ostringstream o; o << t; h = vc::mix(h, vc::hstr(o.str())); } for (auto& t : mb) { ostringstream o; o << t; h = vc::mix(h + 1, vc::hstr(o.str())); } note(x, h); }
      if ((int)seq.size() < depth) for (size_t i = 0; i < ops.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); } }; rec(); } }

// ---- two-dimensional arrays
template <class T> static void arr2(vc::X& x, int depth, const string& tn, bool arith) {
  struct A { unsigned w, h; vector<int> d; }; vector<Op> ops; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ops.push_back({"fresh", i, j}); for (auto n : {"clear", "A=B", "copy", "fill", "columns", "grow", "+=", "-=", "*2", "/2", "A+B", "A-B"}) ops.push_back({n, 0, 0}); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ops.push_back({"set", i, j});
  for (size_t f = 0; f < ops.size(); ++f) for (size_t g = 0; g < ops.size(); ++g) { if (!x.take()) continue; x.desc([=] { return "two-dimensional array of " + tn + ", sequences starting with " + ops[f].n + ", " + ops[g].n; }); x.nontrivial(); vector<size_t> seq = {f, g};
    function<void()> rec = [&] { { Mem mem(x); Array2D<T> a, b(2, 3, T(1)); A ma = {0, 0, {}}, mb = {2, 3, vector<int>(6, 1)}; string w;
      for (size_t i : seq) { const Op& o = ops[i]; w += o.n + " " + to_string(o.k) + "," + to_string(o.v) + "; "; bool sz = ma.w == mb.w && ma.h == mb.h;
        if (o.n == "fresh") { a.clear(); if ((o.k + o.v) % 2) { a.resize(o.k, o.v); ma = A{(unsigned)o.k, (unsigned)o.v, vector<int>(o.k * o.v, 0)}; } else { a = Array2D<T>(o.k, o.v, T(1)); ma = A{(unsigned)o.k, (unsigned)o.v, vector<int>(o.k * o.v, 1)}; } } else if (o.n == "clear") { a.clear(); ma = A{0, 0, {}}; } else if (o.n == "A=B") { a = b; ma = mb; } else if (o.n == "copy") { Array2D<T> c(a); c.fill(T(1)); Array2D<T> d(a); a = d; } else if (o.n == "fill") { a.fill(T(1)); for (auto& v : ma.d) v = 1; }
        else if (o.n == "set") { if (o.k >= (int)ma.w || o.v >= (int)ma.h) return; a(o.k, o.v) = T(arith ? 4 : !ma.d[o.k + o.v * ma.w]); int& r = ma.d[o.k + o.v * ma.w]; r = arith ? 4 : !r; } else if (o.n == "columns") { if (!ma.w) return; for (unsigned j = 0; j < ma.h; ++j) { int n = 0; for (auto it = a.begin_col(j); it != a.end_col(j); ++it, ++n) *it = T((n + j) % 2); for (unsigned k = 0; k < ma.w; ++k) ma.d[k + j * ma.w] = (k + j) % 2; if (n != (int)ma.w) { x.fail("array-column", w + "column of wrong length"); return; } } } else if (o.n == "grow") { a.resize(ma.w, ma.h + 1, T(1)); ma.h++; ma.d.resize(ma.w * ma.h, 1); } else { if (!arith) return; bool bin = o.n.find("B") != string::npos || o.n.find("=") != string::npos; if (bin && !sz) return;
          if (o.n == "+=") a += b; if (o.n == "-=") a -= b; if (o.n == "*2") a = a * T(2); if (o.n == "/2") { for (int v : ma.d) if (v % 2) return; a = a / T(2); } if (o.n == "A+B") a = a + b; if (o.n == "A-B") a = a - b; for (size_t k = 0; k < ma.d.size(); ++k) { int& v = ma.d[k]; if (o.n == "+=" || o.n == "A+B") v += mb.d[k]; else if (o.n == "-=" || o.n == "A-B") v = o.n == "-=" ? mb.d[k] * 0 + v - mb.d[k] : v - mb.d[k]; else if (o.n == "*2") v *= 2; else if (o.n == "/2") v /= 2; } } }
      x.step(); const Array2D<T>& c = a; bool ok = c.width() == ma.w && c.height() == ma.h && c.empty() == ma.d.empty(); for (unsigned i = 0; ok && i < ma.w; ++i) for (unsigned j = 0; j < ma.h; ++j) ok &= c(i, j) == T(ma.d[i + j * ma.w]) && a(i, j) == T(ma.d[i + j * ma.w]); for (unsigned j = 0; ok && ma.w && j < ma.h; ++j) { unsigned k = 0; for (auto it = c.begin_col(j); it != c.end_col(j); ++it, ++k) ok &= *it == T(ma.d[k + j * ma.w]); ok &= k == ma.w; } if (!x.check(ok, "array-content", [&] { return w + "wrong content or size " + to_string(c.width()) + "x" + to_string(c.height()) + " instead of " + to_string(ma.w) + "x" + to_string(ma.h) + " " + vc::str(ma.d); })) return; note(x, vc::mix(vc::hstr(vc::str(ma.d)), ma.w)); }
      if ((int)seq.size() < depth) for (size_t i = 0; i < ops.size(); ++i) { seq.push_back(i); rec(); seq.pop_back(); } }; rec(); } }

// ---- index maps, appending, hash map helpers
static void indices(vc::X& x) {
  for (int n = 0; n <= (x.thorough ? 10 : 7); ++n) for (int m = 0; m < (1 << n); ++m) { if (!x.take()) continue; x.desc([=] { return to_string(n) + " elements, kept: mask " + to_string(m); }); if (m && m + 1 != 1 << n) x.nontrivial(); Mem mem(x); vector<bool> keep(n); vector<int> v(n), want; for (int i = 0; i < n; ++i) { keep[i] = m >> i & 1; v[i] = i + 10; if (keep[i]) want.push_back(v[i]); }
    indices_after ia(keep), ib; ib.init(keep.begin(), keep.end()); if (n) { keep.flip(); indices_after ic; keep.flip(); } vector<int> a = v, b = v, c; ia.do_moves(a); ib.do_moves_swap(b); ia.copy_to(c, v); x.step(3); x.check(a == want && b == want && c == want && ia.n_kept == want.size() && ib.n_kept == want.size() && ia.n_mapped == (unsigned)n, "indices-kept", [&] { return "kept " + vc::str(a) + vc::str(b) + vc::str(c) + " instead of " + vc::str(want); });
    int k = 0; for (int i = 0; i < n; ++i) { x.check(ia.keeping(i) == keep[i] && ia.removing(i) != keep[i] && ia[i] == (keep[i] ? (unsigned)k : (unsigned)-1), "indices-map", "position " + to_string(i)); k += keep[i]; } vector<unsigned> in, out, w; for (int i = n - 1; i >= 0; --i) { in.push_back(i); if (ia.keeping(i)) w.push_back(ia[i]); } ia.reindex_push_back(in, out); x.check(out == w, "indices-reindex", "reindexed"); note(x, vc::hstr(vc::str(want)));
    indices_after none; none.init_keep_none(n); x.check(none.n_kept == 0, "indices-none", "none kept"); vector<unsigned> raw(n, 5); x.check(new_indices_keep(keep.begin(), keep.end(), raw.begin()) == want.size(), "indices-count", "count"); }
  // permutations
  for (int n = 1; n <= 5; ++n) { vector<unsigned> p(n); for (int i = 0; i < n; ++i) p[i] = i; do { if (!x.take()) continue; x.desc([=] { return "permutation " + vc::str(p); }); vector<int> from, to; for (int i = 0; i < n; ++i) from.push_back(i + 20); remap_perm_to(to, from, p); bool ok = (int)to.size() == n; for (int i = 0; ok && i < n; ++i) ok = to[i] == from[p[i]]; x.check(ok, "permute", "permuted copy"); x.step(); } while (next_permutation(p.begin(), p.end())); }
  for (int n = 0; n < 5; ++n) for (int m = 0; m < 5; ++m) { if (!x.take()) continue; x.desc([=] { return "append " + to_string(m) + " to " + to_string(n); }); Mem mem(x); vector<string> a, b, w; for (int i = 0; i < n; ++i) a.push_back(string(i * 20, 'a')); for (int i = 0; i < m; ++i) b.push_back(string(i * 20, 'b')); w = a; w.insert(w.end(), b.begin(), b.end()); vector<string> c = a; batched_append(c, b); vector<string> d = b; batched_append_swap(a, d); x.check(c == w && a == w && d.empty() && (int)b.size() == m, "append", "appended"); x.step(2); }
  // map helpers: every sequence of four operations
  for (int s = 0; s < 7 * 7 * 7 * 7; ++s) { if (!x.take()) continue; x.desc([=] { return "map operations number " + to_string(s); }); HASH_MAP<int, int> h; map<int, int> m; int q = s; bool ok = true; for (int i = 0; i < 4; ++i, q /= 7) { int k = i % 2; switch (q % 7) { case 0: ok &= put(h, k, 5) == !m.count(k); m[k] = 5; break; case 1: ok &= maybe_add(h, k, 3) == !m.count(k); m.insert({k, 3}); break; case 2: { bool w = !m.count(k) || m[k] < 4; ok &= improve_mapped_max(h, k, 4) == w; if (w) m[k] = 4; break; } case 3: { bool w = !m.count(k) || 4 < m[k]; ok &= improve_mapped_min(h, k, 4) == w; if (w) m[k] = 4; break; } case 4: m.insert({k, 9}); ok &= get_default(h, k, 9) == m[k]; break; case 5: m.insert({k, 1}); add(h, k, 1); break; case 6: h.erase(k); m.erase(k); break; } x.step(); } ok &= h.size() == m.size(); for (auto& e : m) ok &= h.count(e.first) && h[e.first] == e.second; x.check(ok, "map-helper", "differs from a map"); note(x, s); } }

// ---- encodings of bytes and feature vectors
static void encodings(vc::X& x) {
  auto bytes = [&](const string& s) { ostringstream o; B64::b64encode(s.data(), s.size(), &o); string e = o.str(), want; static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; int n = min<size_t>(3, s.size() - i); for (int k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0); for (int k = 0; k < 4; ++k) want += k <= n ? al[v >> (18 - 6 * k) & 63] : '='; } x.step(); x.check(e == want, "b64-text", [&] { return "encoded as " + e + " instead of " + want; }); vector<char> d(e.size() / 4 * 3 + 1, 'x'); bool ok = B64::b64decode((const unsigned char*)e.data(), e.size(), d.data(), d.size() - 1) || e.empty(); x.check(ok && d.back() == 'x' && string(d.data(), s.size()) == s, "b64-bytes", [&] { ostringstream m; m << "bytes"; for (unsigned char c : s) m << ' ' << (int)c; m << " encoded as " << e << " come back as"; for (size_t i = 0; i < s.size(); ++i) m << ' ' << (int)(unsigned char)d[i]; return m.str(); }); };
  for (int a = 0; a < 256; ++a) { if (!x.take()) continue; x.desc([=] { return "byte strings of up to three bytes starting with " + to_string(a); }); if (a > 127) x.nontrivial(); string s(1, a); bytes(s); for (int b = 0; b < 256; ++b) { string t = s + string(1, b); bytes(t); for (int c : {0, 1, 63, 64, 127, 128, 191, 192, 255, 186, 171}) { bytes(t + string(1, c)); if (b % 37 == 0) bytes(t + string(1, c) + string(1, a ^ b)); } } note(x, a); }
  // feature vectors: every number of features and name lengths (all sizes modulo 3), awkward values
  const double vals[] = {1, -2.5, 0.1, 1e-300, -1e300, 3.0e10, -0.0, 1.0 / 3, 5e-324}; const string names[] = {"a", "bb", "ccc", "dddd", "LanguageModel", "x=y", "\xc3\xa9", string(127, 'q'), string(128, 'r'), string(200, 's'), string(255, 't')};
  for (int n = 0; n <= 9; ++n) for (int k = 0; k < 11; ++k) for (int obj = 0; obj < 4; ++obj) { if (!x.take()) continue; x.desc([=] { return to_string(n) + " features, names from number " + to_string(k) + ", objective " + to_string(obj); }); if (n > 7) x.nontrivial(); SparseVector<double> v; map<string, double> m; for (int i = 0; i < n; ++i) { string nm = names[(k + i) % 11]; if (i >= 4) nm = nm.substr(0, 40) + to_string(i); v.set_value(FD::Convert(nm), vals[(i + obj) % 9]); m[nm] = vals[(i + obj) % 9]; } x.step();
    auto eq = [&](const SparseVector<double>& w, bool zeros) { map<string, double> g; for (auto it = w.begin(); it != w.end(); ++it) g[FD::Convert(it->first)] = it->second; map<string, double> h; for (auto& e : m) if (zeros || e.second != 0) h.insert(e); return g == h; };
    { ostringstream o; double ob = vals[obj]; B64::Encode(ob, v, &o); string s = o.str(); SparseVector<double> w; w.set_value(2, 1); double back = 7; bool ok = B64::Decode(&back, &w, s.data(), s.size()); x.check(ok && back == ob && eq(w, true), "b64-objective", [&] { ostringstream e; e << "encoded as " << s << " decodes " << (ok ? "" : "with an error ") << "to " << back << " and " << w << " instead of " << ob << " and " << v; return e.str(); }); }
    { string s = EncodeFeatureVector(v); SparseVector<double> w; w.set_value(3, 1); DecodeFeatureVector(s, &w); x.check(eq(w, false), "b64-features", [&] { ostringstream e; e << "encoded as " << s << " decodes to " << w << " instead of " << v; return e.str(); }); }
    { SparseVector<double> w; w.set_value(1, 1); untext(text(v), &w); x.check(eq(w, true), "archive-features", [&] { ostringstream e; e << "archive gives " << w << " instead of " << v; return e.str(); }); } note(x, vc::hstr(EncodeFeatureVector(v))); } }
static void vc_run(vc::X& x) {
  for (int i = 1; i < 40; ++i) FD::Convert("f" + to_string(i)); const bool t = x.thorough;
  vector<pair<int, int>> s7 = {{0, 0}, {1, 2}, {3, 3}, {7, 1}, {6, 3}, {7, 7}, {8, 2}, {2, 8}, {7, 9}}, s15 = {{15, 1}, {14, 3}, {13, 15}, {16, 2}, {2, 16}};
  indices(x); encodings(x); arr2<int>(x, t ? 4 : 3, "int", true); arr2<bool>(x, 3, "bool", false); vaall<unsigned char>(x, t ? 4 : 3, "bytes"); vaall<int>(x, t ? 4 : 3, "int"); vaall<string>(x, 3, "string");
  smallall<int, 2>(x, t ? 5 : 4, "int"); smallall<int, 1>(x, t ? 4 : 3, "int"); smallall<int, 3>(x, t ? 5 : 4, "int"); smallall<unsigned, 2>(x, t ? 5 : 4, "unsigned"); smallall<unsigned short, 4>(x, t ? 5 : 3, "short");
  svall<double>(x, t ? 4 : 3, s7, "double"); svall<float>(x, t ? 4 : 3, s15, "float"); svall<int>(x, 3, s15, "int"); svall<LogVal<double>>(x, t ? 4 : 3, s7, "log value"); }
VC_MAIN(vc_run)
