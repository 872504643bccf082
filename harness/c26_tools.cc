// C26: lookup and sorting primitives of the language model toolkit against plain maps, searches and sorts.
#include "compat.h"
#include "vc.h"
#include "util/probing_hash_table.hh"
#include "util/sorted_uniform.hh"
#include "util/bit_packing.hh"
#include "util/joint_sort.hh"
#include "util/sized_iterator.hh"
#include "util/multi_intersection.hh"
#include "util/murmur_hash.hh"
#include "util/fixed_array.hh"
#include "util/pool.hh"
#include "util/file.hh"
#include "util/stream/sort.hh"
#include "util/stream/chain.hh"
#include "util/stream/stream.hh"
#include "util/stream/io.hh"
#include "utils/murmur_hash3.h"
#include <boost/ref.hpp>
#include <memory>
using namespace std;
// ---- probing hash tables
struct Ent { typedef uint32_t Key; uint32_t key; uint32_t value; Key GetKey() const { return key; } void SetKey(Key k) { key = k; } };
struct H { int m; explicit H(int k = 0) : m(k) {} uint64_t operator()(uint32_t k) const { return m == 0 ? k : m == 1 ? 0 : m == 2 ? (uint64_t)k * 0x9e3779b97f4a7c15ULL >> 32 : m == 3 ? ~(uint64_t)k : k / 3; } };
typedef util::ProbingHashTable<Ent, H> PT;
typedef util::AutoProbing<Ent, H> AT;
static Ent ent(uint32_t k, uint32_t v) { Ent e; e.key = k; e.value = v; return e; }
template <class T> static string same(T& t, const map<uint32_t, uint32_t>& m, uint32_t maxkey) {
  for (uint32_t k = 1; k <= maxkey; ++k) { typename T::ConstIterator i = nullptr; auto it = m.find(k); bool f = t.Find(k, i); if (f != (it != m.end())) return "key " + to_string(k) + (f ? " is found" : " is not found"); if (f && (i->GetKey() != k || i->value != it->second)) return "key " + to_string(k) + " has value " + to_string(i->value); typename T::MutableIterator j = nullptr; if (t.UnsafeMutableFind(k, j) != f || (f && j != i)) return "mutable lookup of key " + to_string(k) + " differs"; if (f && (t.MustFind(k) != i || t.UnsafeMutableMustFind(k) != j)) return "MustFind of key " + to_string(k) + " differs"; }
  return "";
}
static void probing(vc::X& x) {
  const int K = 6, NO = K + 3, D = x.thorough ? 6 : 5;
  for (int buckets = 1; buckets <= 7; ++buckets) for (int hm = 0; hm < 5; ++hm) for (int inv = 0; inv < 2; ++inv) { int n = 1; for (int i = 0; i < D - 2; ++i) n *= NO; uint32_t bad = inv ? 0xffffffffu : 0;
      for (int c = 0; c < n; ++c) { if (!x.take()) continue; auto nm = [](int o) { return o < K ? "insert " + to_string(o + 1) : o == K ? string("double") : o == K + 1 ? string("move") : string("clear"); };
        x.desc([=] { string o = to_string(buckets) + " buckets, hash " + to_string(hm) + ":"; int k = c; for (int i = 0; i < D - 2; ++i, k /= NO) o += " " + nm(k % NO) + ","; return o + " then every two operations"; }); x.nontrivial();
        for (int last = 0; last < NO * NO; ++last) { x.step(); size_t sz = buckets * sizeof(Ent) + (last % 3); vector<Ent> mem(buckets + 1), mem2; const size_t cap0 = buckets; (void)cap0; PT t(mem.data(), sz, bad, H(hm)); t.Clear(); map<uint32_t, uint32_t> m; string err; int k = c; size_t cap = buckets; vector<Ent>* cur = &mem; vector<Ent>* oth = &mem2; (*cur)[cap] = ent(4242, 4242);
          for (int i = 0; i < D && err.empty(); ++i) { int o = i < D - 2 ? k % NO : i == D - 2 ? last % NO : last / NO; k /= NO;
            if (o < K) { Ent e = ent(o + 1, 100 * i + o); bool have = m.count(o + 1); bool full = m.size() + 1 >= cap; bool plain = !have && (i + o) % 2; bool threw = false; PT::MutableIterator it = nullptr; bool found = false; if (cap == 1 && !have && !plain && false) break;
              try { if (plain) it = t.Insert(e); else found = t.FindOrInsert(e, it); } catch (util::ProbingSizeException&) { threw = true; }
              if (threw != (!have && full)) { err = threw ? "refused an entry although there is room" : "accepted more entries than it has room for"; break; } if (threw) { err = same(t, m, K + 1); break; }
              if (found != have) { err = "FindOrInsert says " + to_string(found); break; } if (!have) m[o + 1] = e.value; if (it->key != (uint32_t)o + 1 || it->value != m[o + 1]) { err = "insertion returns another entry"; break; } if (have) { it->value = m[o + 1] = 7000 + i; } }
            else if (o == K) { if (cap > 60) break; if (t.DoubleTo() != cap * 2 * sizeof(Ent)) { err = "DoubleTo says " + to_string(t.DoubleTo()); break; } oth->assign(cap * 2 + 1, ent(77, 77)); copy(cur->begin(), cur->begin() + cap, oth->begin()); swap(cur, oth); cap *= 2; (*cur)[cap] = ent(4242, 4242); bool pre = i % 2; if (pre) for (size_t j = cap / 2; j < cap; ++j) (*cur)[j].key = bad; t.Double(cur->data(), !pre); }
            else if (o == K + 1) { oth->assign(cur->begin(), cur->end()); swap(cur, oth); oth->assign(oth->size(), ent(9, 9)); t.Relocate(cur->data()); }
            else { t.Clear(); m.clear(); }
            if (err.empty() && t.SizeNoSerialization() != m.size()) err = "it reports " + to_string(t.SizeNoSerialization()) + " entries"; if (err.empty()) err = same(t, m, K + 1); if (err.empty() && (*cur)[cap].key != 4242) err = "memory past the end was written";
            if (err.empty() && m.size() + 1 < cap) try { t.CheckConsistency(); } catch (util::Exception& e) { err = string("inconsistent: ") + e.what(); }
            if (err.empty() && i + 1 == D) { uint64_t h = cap * 8 + hm; for (size_t j = 0; j < cap; ++j) h = vc::mix(h, (*cur)[j].key == bad ? 0 : (*cur)[j].key); x.state(h); }
            if (!err.empty()) { err += " after operation " + to_string(i) + " (" + nm(o) + ")"; } }
          if (!x.check(err.empty(), "probing", [&] { return err + "; last two operations " + nm(last % NO) + ", " + nm(last / NO); })) break; } } }
  for (uint64_t n = 0; n < 200; ++n) { if (n % 50 == 0 && !x.take()) { n += 49; continue; } for (float f : {1.0f, 1.1f, 1.2f, 1.5f, 2.0f}) { uint64_t s = PT::Size(n, f); x.check(s % sizeof(Ent) == 0 && s / sizeof(Ent) > n && s / sizeof(Ent) <= max<uint64_t>(n + 1, (uint64_t)(f * n + 1)), "probing-size", [&] { return "size for " + to_string(n) + " entries: " + to_string(s); }); vector<char> mem(s + 1); PT t(mem.data(), s, 0, H(2)); t.Clear(); for (uint64_t i = 1; i <= n; ++i) t.Insert(ent(i * 17, i)); bool ok = true; for (uint64_t i = 1; i <= n; ++i) { PT::ConstIterator it; ok &= t.Find(i * 17, it) && it->value == i && !t.Find(i * 17 + 1, it); } x.check(ok, "probing-fill", [&] { return "a table sized for " + to_string(n) + " entries lost some"; }); x.step(); } }
  // growing tables: every start size, prefill and continuation
  for (int init = 0; init <= 6; ++init) for (int hm = 0; hm < 5; ++hm) for (int pre = 0; pre <= 20; ++pre) { if (!x.take()) continue; x.desc([=] { return "growing table of initial size " + to_string(init) + ", hash " + to_string(hm) + ", " + to_string(pre) + " entries, then every 3 (4) operations"; }); x.nontrivial(); const int D2 = x.thorough ? 4 : 3, KK = 6; int n = 1; for (int i = 0; i < D2; ++i) n *= KK + 1;
        for (int c = 0; c < n; ++c) { x.step(); AT t(init, 0, H(hm)); map<uint32_t, uint32_t> m; string err; auto put = [&](uint32_t k, uint32_t v, bool plain) { AT::MutableIterator it = nullptr; bool have = m.count(k), f = false; if (plain && !have) it = t.Insert(ent(k, v)); else f = t.FindOrInsert(ent(k, v), it); if (f != have) err = "FindOrInsert says " + to_string(f); if (!have) m[k] = v; if (err.empty() && (it->key != k || it->value != m[k])) err = "insertion returns another entry"; };
          for (int i = 1; i <= pre && err.empty(); ++i) put(i * (hm == 0 ? 8 : 1), i, c % 2); int k = c; for (int i = 0; i < D2 && err.empty(); ++i, k /= KK + 1) { int o = k % (KK + 1); if (o == KK) { t.Clear(); m.clear(); } else put(o < 3 ? o + 1 : 97 + o * 16, 50 + i, i % 2); if (err.empty() && t.Size() != m.size()) err = "it reports " + to_string(t.Size()) + " entries instead of " + to_string(m.size()); if (err.empty()) err = same(t, m, 200); }
          if (!x.check(err.empty(), "auto-probing", [&] { return err + " in continuation " + to_string(c); })) break; } }
}
// ---- searches
template <class T> static string num(const vector<T>& v) { string o = "["; for (auto e : v) o += to_string(e) + " "; return o + "]"; }
template <class T> static void search(vc::X& x, const char* ty) {
  typedef const T* It; typedef util::IdentityAccessor<T> A; typedef typename util::PivotSelect<sizeof(T)>::T P;
  const T M = numeric_limits<T>::max(); vector<T> g = {0, 1, 2, 3, 7, (T)(M / 2), (T)(M / 2 + 1), (T)(M - 1), M}; if (x.thorough) { g.push_back(100); g.push_back((T)(M / 3)); sort(g.begin(), g.end()); } int n = g.size();
  auto all = [&](const vector<T>& a) { set<T> keys; for (T v : g) { keys.insert(v); if (v) keys.insert(v - 1); if (v < M) keys.insert(v + 1); } for (T v : a) { keys.insert(v); if (v) keys.insert(v - 1); if (v < M) keys.insert(v + 1); }
    for (T k : keys) { x.step(); bool want = binary_search(a.begin(), a.end(), k); It b = a.data(), e = b + a.size(), o = nullptr; bool f = util::SortedUniformFind<It, A, P>(A(), b, e, k, o); x.check(f == want && (!f || (o >= b && o < e && *o == k)), string("uniform-find-") + ty, [&] { return "searching " + to_string(k) + " in " + num(a) + (f ? ": found" : ": not found"); });
      o = nullptr; f = util::BinaryFind(A(), b, e, k, o); x.check(f == want && (!f || (o >= b && o < e && *o == k)), string("binary-find-") + ty, [&] { return "searching " + to_string(k) + " in " + num(a) + (f ? ": found" : ": not found"); });
      o = nullptr; f = util::BoundedSortedUniformFind<It, A, P>(A(), b - 1, (T)0, e, M, k, o); x.check(f == want && (!f || (o >= b && o < e && *o == k)), string("bounded-find-") + ty, [&] { return "searching " + to_string(k) + " in " + num(a) + " between bounds" + (f ? ": found" : ": not found"); }); } };
  // every multiset of up to 5 (6) values
  vector<int> c; int mx = x.thorough ? 6 : 5; function<void(int)> rec = [&](int from) { if (x.take()) { vector<T> a; for (int i : c) a.push_back(g[i]); x.desc([=] { return string(ty) + " " + num(a); }); if (a.size() > 2) x.nontrivial(); vector<T> pad(a.size() + 2, 5); copy(a.begin(), a.end(), pad.begin() + 1); all(a); x.state(vc::hstr(num(a))); } if ((int)c.size() < mx) for (int i = from; i < n; ++i) { c.push_back(i); rec(i); c.pop_back(); } }; rec(0);
  // long arrays: uniform, exponential, clustered
  for (int len = 7; len < (x.thorough ? 400 : 120); len += 1 + len / 7) for (int kind = 0; kind < 4; ++kind) { if (!x.take()) continue; vector<T> a; for (int i = 0; i < len; ++i) a.push_back(kind == 0 ? (T)(i * (M / len)) : kind == 1 ? (T)(M >> (i % (8 * sizeof(T)))) : kind == 2 ? (T)(i < len / 2 ? i : M - (len - i)) : (T)(i * i)); sort(a.begin(), a.end()); x.desc([=] { return string(ty) + " array of length " + to_string(len) + " kind " + to_string(kind); }); x.nontrivial(); all(a); }
}
static void pivots(vc::X& x) { if (!x.take()) return; x.desc([] { return string("pivots"); }); x.nontrivial(); vector<uint64_t> g = {1, 2, 3, 5, 100, 65535, 65536, (1ULL << 24) - 1, (1ULL << 24) + 1, (1ULL << 32) - 1}; for (auto r : g) for (auto w : g) for (uint64_t off : {(uint64_t)0, r / 2, r - 1, r}) { x.step(); x.check(util::Pivot32::Calc(off, r, w) < w, "pivot32", [&] { return "offset " + to_string(off) + " of " + to_string(r) + " in " + to_string(w); }); for (int sh : {0, 31}) x.check(util::Pivot64::Calc(off << sh, r << sh, w) < w, "pivot64", [&] { return "offset " + to_string(off) + " of " + to_string(r) + " in " + to_string(w); }); } }
// ---- packed bits
static uint64_t getbits(const vector<uint8_t>& m, uint64_t off, int len) { uint64_t r = 0; for (int i = 0; i < len; ++i) r |= (uint64_t)(m[(off + i) / 8] >> ((off + i) % 8) & 1) << i; return r; }
static void bits(vc::X& x) {
  for (int len = 0; len <= 57; ++len) for (int off = 0; off < (x.thorough ? 64 : 24); ++off) { if (!x.take()) continue; x.desc([=] { return to_string(len) + " bits at offset " + to_string(off); }); if (off % 8 + len > 32) x.nontrivial(); uint64_t mask = len == 0 ? 0 : ~0ULL >> (64 - len);
    vector<uint64_t> vals = {0, mask, mask & 0xaaaaaaaaaaaaaaaaULL, mask & 0x5555555555555555ULL, mask & 1, len ? 1ULL << (len - 1) : 0, mask & 0x123456789abcdefULL};
    // three fields in a row, every combination of values; the bits around stay as they were
    for (size_t c = 0; c < vals.size() * vals.size(); ++c) { x.step(); vector<uint8_t> m(40, 0); uint64_t v[3] = {vals[c % vals.size()], vals[c / vals.size()], vals[(c * 3 + 1) % vals.size()]}; int order[3] = {(int)c % 3, (int)(c + 1) % 3, (int)(c + 2) % 3}; for (int i : order) util::WriteInt57(m.data(), off + i * len, len, v[i]); bool ok = true; for (int i = 0; i < 3; ++i) ok &= getbits(m, off + i * len, len) == v[i] && util::ReadInt57(m.data(), off + i * len, len, mask) == v[i]; for (int b = 0; b < (int)m.size() * 8; ++b) if ((b < off || b >= off + 3 * len) && m[b / 8] >> (b % 8) & 1) ok = false; x.check(ok, "int57", [&] { return "fields " + to_string(v[0]) + " " + to_string(v[1]) + " " + to_string(v[2]) + " are not read back"; });
      for (auto& b : m) b = ~b; for (int i = 0; i < 3 && ok; ++i) x.check(util::ReadInt57(m.data(), off + i * len, len, mask) == (~v[i] & mask), "int57-inverted", "inverted fields are not read back");
      if (len <= 25) { vector<uint8_t> s(40, 0); for (int i : order) util::WriteInt25(s.data(), off + i * len, len, v[i]); ok = true; for (int i = 0; i < 3; ++i) ok &= getbits(s, off + i * len, len) == v[i] && util::ReadInt25(s.data(), off + i * len, len, mask) == v[i]; for (int b = 0; b < (int)s.size() * 8; ++b) if ((b < off || b >= off + 3 * len) && s[b / 8] >> (b % 8) & 1) ok = false; x.check(ok, "int25", [&] { return "fields " + to_string(v[0]) + " " + to_string(v[1]) + " " + to_string(v[2]) + " are not read back"; }); } } }
  for (int off = 0; off < 64; ++off) { if (!x.take()) continue; x.desc([=] { return "floats at bit " + to_string(off); }); x.nontrivial(); vector<float> f = {0.0f, -0.0f, 1, -1, -0.5f, 1e-40f, -1e-40f, 3.4e38f, -3.4e38f, numeric_limits<float>::infinity(), -numeric_limits<float>::infinity(), -99, -1.2345678f}; for (int e = 0; e < 256; e += 5) for (uint32_t mant : {0u, 1u, 0x7fffffu, 0x2aaaaau}) for (uint32_t s : {0u, 1u}) { uint32_t b = s << 31 | (uint32_t)e << 23 | mant; float v; memcpy(&v, &b, 4); if (v == v) f.push_back(v); }
    for (size_t i = 0; i < f.size(); ++i) { float v = f[i], w = f[(i * 7 + 3) % f.size()]; x.step(); vector<uint8_t> m(40, 0); util::WriteFloat32(m.data(), off, v); util::WriteFloat32(m.data(), off + 32, w); float a = util::ReadFloat32(m.data(), off), b = util::ReadFloat32(m.data(), off + 32); x.check(!memcmp(&a, &v, 4) && !memcmp(&b, &w, 4), "float32", [&] { return to_string(v) + " and " + to_string(w) + " are read as " + to_string(a) + " and " + to_string(b); });
      float nv = -fabsf(v), nw = -fabsf(w); vector<uint8_t> n(40, 0); util::WriteNonPositiveFloat31(n.data(), off, nv); util::WriteNonPositiveFloat31(n.data(), off + 31, nw); a = util::ReadNonPositiveFloat31(n.data(), off); b = util::ReadNonPositiveFloat31(n.data(), off + 31); x.check(!memcmp(&a, &nv, 4) && !memcmp(&b, &nw, 4) && getbits(n, off + 62, 40) == 0, "float31", [&] { return to_string(nv) + " and " + to_string(nw) + " are read as " + to_string(a) + " and " + to_string(b); });
      float s = v; util::SetSign(s); x.check(std::signbit(s) && fabsf(s) == fabsf(v), "set-sign", "SetSign"); util::UnsetSign(s); x.check(!std::signbit(s) && fabsf(s) == fabsf(v), "unset-sign", "UnsetSign"); } }
  if (x.take()) { x.desc([] { return string("widths"); }); util::BitPackingSanity(); for (int k = 0; k < 64; ++k) for (int d = -1; d <= 1; ++d) { uint64_t v = (1ULL << k) + d; int w = 0; for (uint64_t t = v; t; t >>= 1) ++w; x.check(util::RequiredBits(v) == w, "required-bits", [&] { return to_string(v) + " needs " + to_string(util::RequiredBits(v)) + " bits"; }); if (w < 64) { auto b = util::BitsMask::ByMax(v); x.check(b.bits == w && b.mask == (w ? ~0ULL >> (64 - w) : 0) && (v & b.mask) == v, "bits-mask", [&] { return "mask for " + to_string(v); }); auto c = util::BitsMask::ByBits(w); x.check(c.bits == w && c.mask == b.mask, "bits-mask2", "ByBits"); } } }
}
// ---- sorting
static void check_joint(vc::X& x, const vector<int>& keys) {
  vector<int> k = keys; vector<string> v; vector<pair<int, string>> want, got; for (size_t i = 0; i < k.size(); ++i) { v.push_back("v" + to_string(i)); want.push_back({k[i], v[i]}); } x.step(); util::JointSort(k.begin(), k.end(), v.begin()); bool ok = is_sorted(k.begin(), k.end()); for (size_t i = 0; i < k.size(); ++i) got.push_back({k[i], v[i]}); sort(want.begin(), want.end()); sort(got.begin(), got.end()); x.check(ok && got == want, "joint-sort", [&] { return "keys " + vc::str(keys) + " are sorted to " + vc::str(k); });
  vector<float> kf(keys.begin(), keys.end()); vector<uint64_t> u; for (size_t i = 0; i < kf.size(); ++i) u.push_back(i); util::JointSort(kf.data(), kf.data() + kf.size(), u.data(), greater<float>()); ok = is_sorted(kf.begin(), kf.end(), greater<float>()); set<uint64_t> seen; for (size_t i = 0; i < kf.size(); ++i) ok &= u[i] < keys.size() && kf[i] == keys[u[i]] && seen.insert(u[i]).second; x.check(ok, "joint-sort-greater", [&] { return "keys " + vc::str(keys); });
  typedef util::PairedIterator<int*, char*> PI; vector<int> k2 = keys; vector<char> c; for (size_t i = 0; i < k2.size(); ++i) c.push_back('a' + k2[i] % 20); PI b(k2.data(), c.data()), e(k2.data() + k2.size(), c.data() + c.size()); x.check(e - b == (ptrdiff_t)keys.size() && (b == e) == keys.empty(), "paired-iterator", "distance"); for (PI i = b; i != e; ++i) x.check((*i).GetKey() == keys[i - b], "paired-iterator-key", "key");
}
struct CmpMem { size_t n; bool operator()(const void* a, const void* b) const { return memcmp(a, b, n) < 0; } };
static vector<int> shape(int len, int kind) { vector<int> v; for (int i = 0; i < len; ++i) v.push_back(kind == 0 ? i : kind == 1 ? len - i : kind == 2 ? 3 : kind == 3 ? i % 4 : kind == 4 ? (i * 7919) % 101 : kind == 5 ? (i < len / 2 ? i : len - i) : (i * i * 31 + 7) % 13); return v; }
static void sorts(vc::X& x) {
  int mx = x.thorough ? 8 : 7; for (int n = 0; n <= mx; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 3; for (int c0 = 0; c0 < t; c0 += 81) { if (!x.take()) continue; x.desc([=] { return "key sequences of length " + to_string(n) + " from number " + to_string(c0); }); x.nontrivial(); for (int c = c0; c < min(t, c0 + 81); ++c) { vector<int> k; int q = c; for (int i = 0; i < n; ++i, q /= 3) k.push_back(q % 3); check_joint(x, k); } } }
  for (int n = 2; n <= 7; ++n) { if (!x.take()) continue; x.desc([=] { return "all orders of " + to_string(n) + " keys"; }); x.nontrivial(); vector<int> k; for (int i = 0; i < n; ++i) k.push_back(i); do check_joint(x, k); while (next_permutation(k.begin(), k.end())); }
  for (int len = 9; len < (x.thorough ? 300 : 120); len += 1 + len / 9) for (int kind = 0; kind < 7; ++kind) { if (!x.take()) continue; x.desc([=] { return to_string(len) + " keys of kind " + to_string(kind); }); x.nontrivial(); check_joint(x, shape(len, kind));
      for (int es : {1, 2, 3, 4, 7, 8, 12, 17}) { auto s = shape(len, kind); vector<uint8_t> m(len * es + 8, 0xee); vector<string> want; for (int i = 0; i < len; ++i) { for (int j = 0; j < es; ++j) m[i * es + j] = j == 0 ? s[i] : j == es - 1 ? i : 5; want.push_back(string((char*)&m[i * es], es)); } sort(want.begin(), want.end(), [](const string& a, const string& b) { return memcmp(a.data(), b.data(), a.size()) < 0; }); x.step(); util::SizedCompare<CmpMem> cmp((CmpMem{(size_t)es})); sort(util::SizedIt(m.data(), es), util::SizedIt(m.data() + len * es, es), cmp); bool ok = true; for (int i = 0; i < len; ++i) ok &= string((char*)&m[i * es], es) == want[i]; for (int i = 0; i < 8; ++i) ok &= m[len * es + i] == 0xee; x.check(ok, "sized-sort", [&] { return to_string(len) + " records of " + to_string(es) + " bytes"; }); } }
}
// ---- external sorting
using namespace util::stream;
static const int PAY = 4;
struct Rec { uint32_t key, val; };
struct Src { const vector<Rec>* d; size_t per; void Run(const ChainPosition& pos) { const size_t es = pos.GetChain().EntrySize(); Stream s(pos); for (auto& r : *d) { memset(s.Get(), 0x55, es); memcpy(s.Get(), &r.key, 4); if (es >= 8) memcpy((char*)s.Get() + 4, &r.val, 4); ++s; } s.Poison(); } };
// fills blocks only partly
struct SrcPart { const vector<Rec>* d; size_t per; void Run(const ChainPosition& pos) { const size_t es = pos.GetChain().EntrySize(), cap = pos.GetChain().BlockSize() / es; Link l(pos); size_t i = 0, b = 0; while (i < d->size()) { size_t k = min(d->size() - i, b % 2 ? cap : (b * per / 2) % (cap + 1)); ++b; for (size_t j = 0; j < k; ++j, ++i) { char* p = (char*)l->Get() + j * es; memset(p, 0x55, es); memcpy(p, &(*d)[i].key, 4); if (es >= 8) memcpy(p + 4, &(*d)[i].val, 4); } l->SetValidSize(k * es); ++l; } l.Poison(); } };
struct Snk { vector<Rec>* d; bool* bad; void Run(const ChainPosition& pos) { const size_t es = pos.GetChain().EntrySize(); for (Stream s(pos); s; ++s) { Rec r = {0, 0}; memcpy(&r.key, s.Get(), 4); if (es >= 8) memcpy(&r.val, (char*)s.Get() + 4, 4); for (size_t i = 8; i < es; ++i) if (((uint8_t*)s.Get())[i] != 0x55) *bad = true; d->push_back(r); } } };
struct CmpKey { bool operator()(const void* a, const void* b) const { uint32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y; } };
struct AddUp { template <class C> bool operator()(void* into, const void* opt, const C& cmp) const { if (cmp(into, opt)) return false; uint32_t a, b; memcpy(&a, (char*)into + 4, 4); memcpy(&b, (const char*)opt + 4, 4); a += b; memcpy((char*)into + 4, &a, 4); return true; } };
struct SC { int es, bc, be, buf, tot, lazy, mode, n, kind, part; string str() const { ostringstream o; o << n << " records of " << es << " bytes, keys of kind " << kind << (part ? ", partly filled blocks" : "") << ", " << bc << " blocks of " << be << " records, buffer " << buf << " records, memory " << tot << " records + 3 bytes, lazy " << lazy << " records, " << (mode == 0 ? "Output" : mode == 1 ? "Merge then Output" : mode == 2 ? "StealCompleted" : "BlockingSort"); return o.str(); } };
template <class Comb> static void sort_case(vc::X& x, const SC& c, const string& name, bool comb) {
  vector<Rec> in; auto ks = shape(c.n, c.kind); for (int i = 0; i < c.n; ++i) in.push_back({(uint32_t)ks[i], (uint32_t)(comb ? 1 + i : i)}); vector<Rec> out; bool bad = false; uint64_t size = 0; string err; x.step();
  SortConfig sc; sc.temp_prefix = x.dir + "/sort"; sc.buffer_size = c.buf * c.es + (c.n % 2); sc.total_memory = max<size_t>(c.tot * c.es, sc.buffer_size * 4) + 3;
  { Chain ch(ChainConfig(c.es, c.bc, c.bc * c.be * c.es + (c.n % 3))); if (c.part) ch >> SrcPart{&in, (size_t)c.part}; else ch >> Src{&in, 0};
    if (c.mode == 3) { size = BlockingSort(ch, sc, CmpKey(), Comb()); ch >> Snk{&out, &bad} >> kRecycle; ch.Wait(); }
    else { Sort<CmpKey, Comb> s(ch, sc); ch.Wait(c.n % 2); size = s.Size(); if (c.mode == 2) { util::scoped_fd f(s.StealCompleted()); Chain o(ChainConfig(c.es, 2, 5 * c.es * 2)); o >> PRead(f.get(), false) >> Snk{&out, &bad} >> kRecycle; o.Wait(); }
      else { size_t lazy = (size_t)c.lazy * c.es + (c.lazy ? c.n % 2 : 0); if (c.mode == 1) { size_t need = s.Merge(lazy); if (need > lazy) err = "merging left " + to_string(need) + " bytes to read lazily although " + to_string(lazy) + " are allowed"; } Chain o(ChainConfig(c.es, c.bc, c.bc * (c.be + 1) * c.es)); s.Output(o, lazy); o >> Snk{&out, &bad} >> kRecycle; o.Wait(); } } }
  if (err.empty() && size != (uint64_t)c.n * c.es) err = "size before merging is " + to_string(size);
  vector<uint32_t> keys; for (auto& r : out) keys.push_back(r.key); if (err.empty() && !is_sorted(keys.begin(), keys.end())) err = "keys " + vc::str(keys) + " are not in order"; if (err.empty() && bad) err = "records were torn";
  if (err.empty() && comb) { map<uint32_t, uint32_t> a, b; map<uint32_t, int> cnt; for (auto& r : in) a[r.key] += r.val; for (auto& r : out) { b[r.key] += r.val; ++cnt[r.key]; } if (a != b) err = "combined values differ"; bool many = c.n > c.be || (c.part && c.n > 1); (void)many; if (c.n > c.be) for (auto& e : cnt) if (e.second > 1) err = "key " + to_string(e.first) + " was not combined"; }
  if (err.empty() && !comb) { auto lt = [](const Rec& a, const Rec& b) { return a.key != b.key ? a.key < b.key : a.val < b.val; }; vector<Rec> w = in, g = out; sort(w.begin(), w.end(), lt); sort(g.begin(), g.end(), lt); bool eq = w.size() == g.size(); for (size_t i = 0; i < w.size() && eq; ++i) eq = w[i].key == g[i].key && (c.es < 8 || w[i].val == g[i].val); if (!eq) err = to_string(g.size()) + " records came out, or other ones: " + vc::str(keys); }
  x.check(err.empty(), name, [&] { return err; }); x.state(vc::hstr(vc::str(keys), c.es * 64 + c.be));
}
static void external(vc::X& x) {
  vector<int> lens; for (int i = 0; i <= (x.thorough ? 40 : 13); ++i) lens.push_back(i); for (int i : {17, 24, 31, 48, 63, 64}) lens.push_back(i);
  for (int es : {4, 8, 12}) for (int bc : {1, 2, 3}) for (int be : {1, 2, 3, 5}) for (int buf : {1, 2, 3}) for (int tot : {4, 5, 9, 40}) for (int n : lens) {
    if (tot < 4 * buf && tot != 4) continue; if (!x.thorough && (n > 13 && (es == 12 || bc == 3))) continue; if (!x.thorough && (es == 4 || tot == 5) && n % 2) continue; if (!x.take()) continue;
    SC c = {es, bc, be, buf, tot, 0, 0, n, 0, 0}; x.desc([=] { return c.str() + ", and every way to finish"; }); if (n > be) x.nontrivial(); int v = 0;
    for (int mode = 0; mode < 4; ++mode) for (int lazy : {0, 1, 2, 4, 7, 30}) { if (mode >= 2 && lazy) continue; if (lazy && lazy < buf) continue; c.mode = mode; c.lazy = lazy; ++v; c.kind = (v + n) % 7; c.part = (v + n / 7) % 3 == 0 ? 1 + v % 2 : 0; sort_case<NeverCombine>(x, c, "external-sort", false); if (es >= 8) { c.kind = (v + n) % 2 ? 3 : 6; sort_case<AddUp>(x, c, "external-combine", true); } } }
}
// ---- the rest
static uint64_t mm64(const string& s, uint64_t seed) { const uint64_t m = 0xc6a4a7935bd1e995ULL; uint64_t h = seed ^ (s.size() * m); size_t i = 0; for (; i + 8 <= s.size(); i += 8) { uint64_t k; memcpy(&k, &s[i], 8); k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; } if (i < s.size()) { uint64_t k = 0; for (size_t j = i; j < s.size(); ++j) k |= (uint64_t)(uint8_t)s[j] << (8 * (j - i)); h ^= k; h *= m; } h ^= h >> 47; h *= m; h ^= h >> 47; return h; }
struct Thing { static int live; string v; Thing(const string& s) : v(s) { ++live; } Thing(const Thing& o) : v(o.v) { ++live; } ~Thing() { --live; } private: Thing& operator=(const Thing&); };
int Thing::live = 0;
static void rest(vc::X& x) {
  const int N = 5; for (int k = 1; k <= 3; ++k) { int t = 1; for (int i = 0; i < k; ++i) t *= 1 << N; for (int c0 = 0; c0 < t; c0 += 1024) { if (!x.take()) continue; x.desc([=] { return "intersections of " + to_string(k) + " sets from number " + to_string(c0); }); x.nontrivial(); for (int c = c0; c < min(t, c0 + 1024); ++c) { x.step(); vector<vector<int>> s(k); int all = (1 << N) - 1; for (int i = 0; i < k; ++i) { int m = c >> (N * i) & ((1 << N) - 1); all &= m; for (int b = 0; b < N; ++b) if (m >> b & 1) s[i].push_back(b * 2); } vector<int> w; for (int b = 0; b < N; ++b) if (all >> b & 1) w.push_back(b * 2); typedef boost::iterator_range<const int*> R; vector<R> r, r2; for (auto& e : s) r.push_back(R(e.data(), e.data() + e.size())); r2 = r; vector<int> g; auto f = [&](int v) { g.push_back(v); }; util::AllIntersection(r, f); x.check(g == w, "all-intersection", [&] { return "gives " + vc::str(g) + " instead of " + vc::str(w); }); auto o = util::FirstIntersection(r2); x.check(bool(o) == !w.empty() && (!o || *o == w[0]), "first-intersection", [&] { return "first of " + vc::str(w); }); } } }
  for (int n = 0; n < 48; ++n) { if (!x.take()) continue; x.desc([=] { return "hashes of strings of length " + to_string(n); }); x.nontrivial(); for (int p = 0; p < 4; ++p) { string s(n, 'a'); for (int i = 0; i < n; ++i) s[i] = p == 0 ? 'a' : p == 1 ? (char)255 : (char)(i * 37 + p); for (uint64_t seed : {0ULL, 17ULL, 0xffffffffffffffffULL}) { uint64_t w = mm64(s, seed), b = 0; string m3; for (int al = 0; al < 8; ++al) { string buf(al, 'x'); buf += s + "yyyyyyyyyyyyyyyy"; x.step(); uint64_t g = util::MurmurHash64A(&buf[al], n, seed); x.check(g == w, "murmur64a", [&] { return "the hash differs from its definition"; }); uint64_t g2 = util::MurmurHash64B(&buf[al], n, seed); if (!al) b = g2; x.check(g2 == b, "murmur64b", "the hash depends on the position in memory or what follows"); x.check(util::MurmurHashNative(&buf[al], n, seed) == w, "murmur-native", "native hash"); uint64_t h3 = cdec::MurmurHash3_64(&buf[al], n, seed); static uint64_t h30; if (!al) h30 = h3; x.check(h3 == h30, "murmur3", "the hash depends on the position in memory or what follows"); } } } }
  // memory pool: every sequence of 5 (6) requests
  const size_t SZ[] = {0, 1, 7, 31, 32, 33, 64, 100}; int D = x.thorough ? 6 : 5, t = 1; for (int i = 0; i < D; ++i) t *= 8; for (int c0 = 0; c0 < t; c0 += 512) { if (!x.take()) continue; x.desc([=] { return "pool requests from number " + to_string(c0); }); x.nontrivial(); for (int c = c0; c < c0 + 512; ++c) { util::Pool p; x.step(); for (int round = 0; round < 2; ++round) { vector<pair<uint8_t*, size_t>> a; int k = c; for (int i = 0; i < D + 4; ++i, k /= 8) { size_t s = SZ[(i < D ? k : c + i) % 8]; uint8_t* q = (uint8_t*)p.Allocate(s); if (s) memset(q, i + 1, s); a.push_back({q, s}); } bool ok = true; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].second; ++j) ok &= a[i].first[j] == i + 1; if (!x.check(ok, "pool", [&] { return "two pieces of memory overlap for requests " + to_string(c); })) break; p.FreeAll(); } } }
  if (x.take()) { x.desc([] { return string("fixed arrays"); }); x.nontrivial(); for (int cap = 0; cap < 5; ++cap) for (int n = 0; n <= cap; ++n) for (int clr = 0; clr < 2; ++clr) { x.step(); { util::FixedArray<Thing> a(cap), z; z.Init(3); z.push_back(string("q")); vector<string> w; for (int i = 0; i < n; ++i) { a.push_back("t" + to_string(i)); w.push_back("t" + to_string(i)); } util::FixedArray<Thing> b(a); if (clr) { a.clear(); x.check(a.empty() && a.size() == 0, "fixed-clear", "not empty"); } bool ok = b.size() == w.size() && b.empty() == w.empty() && b.end() - b.begin() == n; for (int i = 0; i < n && ok; ++i) ok &= b[i].v == w[i] && (clr || a[i].v == w[i]); if (n) ok &= b.back().v == w.back(); x.check(ok, "fixed-array", "contents differ"); x.check(Thing::live == 1 + n + (clr ? 0 : n), "fixed-live", "objects are lost or duplicated"); } x.check(Thing::live == 0, "fixed-leak", "objects are not destroyed"); Thing::live = 0; } }
}
void vc_run(vc::X& x) { probing(x); search<uint16_t>(x, "16"); search<uint32_t>(x, "32"); search<uint64_t>(x, "64"); pivots(x); bits(x); sorts(x); rest(x); external(x); }
VC_MAIN(vc_run)
