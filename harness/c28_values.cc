// C28: log-domain numbers, weights, symbol tables and strings against their plain meaning.
#include "compat.h"
#include "vc.h"
#include "logval.h"
#include "prob.h"
#include "exp_semiring.h"
#include "weights.h"
#include "fdict.h"
#include "tdict.h"
#include "dict.h"
#include "filelib.h"
#include "stringlib.h"
#include "utoa.h"
#include "corpus_tools.h"
#include "verbose.h"
using namespace std;
typedef long double LD;
std::string UrlDecodeString(const std::string&);

static void put(const string& f, const string& t) { ofstream o(f.c_str(), ios::binary); o.write(t.data(), t.size()); }
static string get(const string& f) { ifstream i(f.c_str(), ios::binary); return string(istreambuf_iterator<char>(i), istreambuf_iterator<char>()); }
static string q(const string& s) { string o = "'"; for (unsigned char c : s) if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; return o + "'"; }
template <class V> static string js(const V& v) { string o = "["; for (auto& s : v) o += q(s) + " "; return o + "]"; }

// ---- log values
struct Num { bool neg; LD ln; LD val() const { LD e = expl(ln); return neg ? -e : e; } };   // ln = -inf is zero
template <class T> static vector<Num> grid(bool th) {
  vector<Num> g; const LD inf = numeric_limits<LD>::infinity();
  g.push_back({false, -inf}); g.push_back({true, -inf});
  vector<LD> mags = {1, 2, 0.5L, 3, 1e-5L, 1e5L};
  if (th) for (LD m : {0.1L, 0.75L, 1.5L, 7.0L, 1e-12L, 1e12L, 0.999L, 1.001L}) mags.push_back(m);
  for (LD m : mags) for (int s = 0; s < 2; ++s) g.push_back({s == 1, logl(m)});
  for (LD l : {-2000.0L, -50.0L, 50.0L, 2000.0L}) for (int s = 0; s < 2; ++s) g.push_back({s == 1, l});   // beyond the range of a double
  return g;
}
template <class T> static LogVal<T> mk(const Num& n) { return LogVal<T>((double)n.ln, n.neg); }
template <class T> static string show(const LogVal<T>& v) { ostringstream o; o.precision(17); o << (v.s_ ? "-" : "+") << "e^" << v.v_; return o.str(); }
static string show(const Num& v) { ostringstream o; o.precision(17); o << (v.neg ? "-" : "+") << "e^" << (double)v.ln; return o.str(); }
template <class T> struct Tol { static LD e() { return 1e-12L; } };
template <> struct Tol<float> { static LD e() { return 2e-4L; } };
// |v - want| <= err, where v is a log value (its own rounding is relative to the size of its logarithm)
template <class T> static bool near(const LogVal<T>& v, LD want, LD err) {
  if (std::isnan(v.v_)) return false;
  if (!(log(LogVal<T>(abs(v))) == v.v_)) return false;
  LD got = v.s_ ? -expl((LD)v.v_) : expl((LD)v.v_);
  return fabsl(got - want) <= err + Tol<T>::e() * (1 + fabsl((LD)v.v_ == -numeric_limits<LD>::infinity() ? 0 : (LD)v.v_)) * fabsl(want);
}
template <class T> static void logvals(vc::X& x, const char* ty) {
  vector<Num> g = grid<T>(x.thorough);
  typedef LogVal<T> L;
  for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) {
    if (!x.take()) continue;
    Num a = g[i], b = g[j]; x.desc([=] { return string(ty) + " " + show(a) + " and " + show(b); });
    if (a.neg != b.neg) x.nontrivial(); x.step();
    L p = mk<T>(a), q = mk<T>(b); LD pa = a.val(), pb = b.val(), e = Tol<T>::e() * (1 + fabsl(std::isinf((double)a.ln) ? 0 : a.ln) + fabsl(std::isinf((double)b.ln) ? 0 : b.ln)); bool za = pa == 0, zb = pb == 0;
    x.state(vc::mix(vc::hdbl(a.ln), vc::hdbl(b.ln) + a.neg * 2 + b.neg));
    auto ck = [&](const char* op, const L& v, LD w, LD err) { x.check(near(v, w, err), string(ty) + op, [&] { ostringstream o; o.precision(17); o << op << " gives " << show(v) << " instead of " << w; return o.str(); }); };
    LD sc = fabsl(pa) + fabsl(pb);
    ck("add", p + q, pa + pb, e * sc); ck("sub", p - q, pa - pb, e * sc); ck("mul", p * q, pa * pb, e * fabsl(pa * pb));
    if (!zb) ck("div", p / q, pa / pb, e * fabsl(pa / pb));
    { L t = p; t += q; ck("addeq", t, pa + pb, e * sc); t = p; t -= q; ck("subeq", t, pa - pb, e * sc); t = p; t *= q; ck("muleq", t, pa * pb, e * fabsl(pa * pb)); if (!zb) { t = p; t /= q; ck("diveq", t, pa / pb, e * fabsl(pa / pb)); }
      t = p; t += t; ck("selfadd", t, pa + pa, e * sc); t = p; t -= t; ck("selfsub", t, 0, e * sc); t = p; t *= t; ck("selfmul", t, pa * pa, e * pa * pa); if (!za) { t = p; t /= t; ck("selfdiv", t, 1, e); } }
    bool lt = pa < pb, eq = pa == pb;
    auto cc = [&](const char* op, bool got, bool w) { x.check(got == w, string(ty) + op, [&] { return string(op) + " says " + (got ? "true" : "false"); }); };
    cc("==", p == q, eq); cc("!=", p != q, !eq); cc("<", p < q, lt); cc(">", p > q, !lt && !eq); cc("<=", p <= q, lt || eq); cc(">=", p >= q, !lt); cc("lt", p.lt(q), lt); cc("gt", p.gt(q), !lt && !eq);
    if (eq) cc("hash", hash_value(p) == hash_value(q), true);
    if (i == j) {
      cc("is_0", p.is_0(), za); cc("is_1", p.is_1(), pa == 1); cc("signbit", p.signbit(), a.neg); cc("signbit2", signbit(p), a.neg);
      ck("minus", -p, -pa, 0); { L t = p; t.negate(); ck("negate", t, -pa, 0); } ck("abs", abs(p), fabsl(pa), 0);
      if (!za) { ck("inverse", p.inverse(), 1 / pa, e * fabsl(1 / pa)); cc("abslog", abslog(abs(p)).v_ == (T)fabsl((LD)p.v_), true); }
      if (fabsl(a.ln) < 60 || za) {
        double d = (double)pa; if (za && a.neg) d = -0.0; T f = p.as_float(); x.check(fabsl((LD)f - pa) <= e * fabsl(pa) * 10, string(ty) + "as_float", [&] { return "as_float gives " + to_string((double)f); });
        L c(d), s; s = d; cc("signbit of a number", c.signbit() == std::signbit(d) && s.signbit() == std::signbit(d), true); ck("from number", c, pa, e * fabsl(pa)); ck("assigned number", s, pa, e * fabsl(pa));
      }
      if (!a.neg) {
        if (za) cc("log", std::isinf(log(p)) && log(p) < 0, true); else x.check(fabsl(log(p) - a.ln) <= e, string(ty) + "log", "wrong logarithm");
        for (double w : {1.0, 2.0, 0.5, 3.0, -1.0, -2.0}) { if (za && w < 0) continue; ck("pow", p.pow(w), za ? 0 : expl(a.ln * w), e * 4 * (za ? 0 : expl(a.ln * w))); ck("pow2", pow(p, (T)w), za ? 0 : expl(a.ln * w), e * 4 * (za ? 0 : expl(a.ln * w))); { L t = p; t.poweq(w); ck("poweq", t, za ? 0 : expl(a.ln * w), e * 4 * (za ? 0 : expl(a.ln * w))); } if (w > 0) ck("root", p.root(w), za ? 0 : expl(a.ln / w), e * 4 * (za ? 0 : expl(a.ln / w))); }
        if (!za) { ck("exp", L::exp((T)a.ln), pa, e * pa); ck("init_lnx", L((double)a.ln, init_lnx()), pa, e * pa); L t(-3.0); t.logeq((T)a.ln); ck("logeq", t, pa, e * pa); }
        if (fabsl(a.ln) < 60 || za) { ostringstream o; o << p; cc("print", o.str().find("(-)") == string::npos, true); }
      } else if (!za) cc("log of negative", std::isnan(log(p)), true);
      ck("one", L::One(), 1, 0); ck("zero", L::Zero(), 0, 0); ck("e", L::e(), expl(1), e); ck("init_1", L(init_1()), 1, 0); ck("init_0", L(init_0()), 0, 0); ck("init_minus_1", L(init_minus_1()), -1, 0); ck("default", L(), 0, 0);
    }
    // expectation semiring over log values and over a log-value/real pair
    for (auto& c : {g[2], g[5], g[6]}) { LD pc = c.val(); L r = mk<T>(c); PRPair<L, L> u(p, q), w(r, p); x.step();
      LD s2 = fabsl(pa * pa) + fabsl(pb * pc); if (!(fabsl(a.ln) > 100 && !za) && !(fabsl(b.ln) > 100 && !zb)) { auto m = u * w; ck("pair product", m.p, pa * pc, e * fabsl(pa * pc)); ck("pair expectation", m.r, pa * pa + pb * pc, 4 * e * s2); auto s = u + w; ck("pair sum", s.p, pa + pc, e * (fabsl(pa) + fabsl(pc))); ck("pair expectation sum", s.r, pb + pa, e * sc);
        PRPair<L, L> o(1.0), z(0.0); auto m1 = u * o, m2 = o * u; ck("pair one", m1.r, pb, e * fabsl(pb)); ck("pair one", m2.r, pb, e * fabsl(pb)); auto z1 = u * z; ck("pair zero", z1.p, 0, 0); ck("pair zero", z1.r, 0, 0); auto z2 = u + z; ck("pair zero sum", z2.r, pb, e * fabsl(pb)); } }
  }
  // chains of operations
  const double V[] = {0, 1, -1, 2, -0.5, 3}; const int NV = 6, NO = 4 * NV + 2, D = x.thorough ? 4 : 3;
  long tot = NV; for (int i = 0; i < D - 1; ++i) tot *= NO;
  for (long c = 0; c < tot; ++c) {
    if (!x.take()) continue;
    x.desc([=] { ostringstream o; long k = c; o << ty << " start " << V[k % NV]; k /= NV; for (int i = 0; i < D - 1; ++i, k /= NO) { int op = k % NO; if (op < 4 * NV) o << " " << "+-*/"[op / NV] << "=" << V[op % NV]; else o << (op == 4 * NV ? " negate" : " half(+= itself, *= 0.5)"); } o << " then every operation"; return o.str(); });
    if (V[c % NV] < 0) x.nontrivial();
    for (int last = 0; last < NO; ++last) {
      long k = c; L v(V[k % NV]); LD r = V[k % NV], err = 0; k /= NV; x.step();
      for (int i = 0; i < D; ++i, k /= NO) {
        int op = i + 1 < D ? k % NO : last; const LD eps = 8 * Tol<T>::e();
        if (op >= 4 * NV) { if (op == 4 * NV) { v.negate(); r = -r; } else { v += v; v *= L(0.5); err += eps * fabsl(r); } continue; }
        double w = V[op % NV]; L lw(w); int o = op / NV;
        if (o == 3 && w == 0) break;
        if (o == 0) { v += lw; err += eps * (fabsl(r) + fabsl((LD)w)); r += w; } else if (o == 1) { v -= lw; err += eps * (fabsl(r) + fabsl((LD)w)); r -= w; }
        else if (o == 2) { v *= lw; r *= w; err = err * fabsl((LD)w) + eps * fabsl(r); } else { v /= lw; r /= w; err = err / fabsl((LD)w) + eps * fabsl(r); }
        if (!x.check(near(v, r, err), string(ty) + "chain", [&] { ostringstream o; o.precision(17); o << "after step " << i << " (last operation " << last << ") the value is " << show(v) << " instead of " << (double)r; return o.str(); })) break;
        if (!x.check(fabsl(r) <= err || (v < L(0.0)) == (r < 0), string(ty) + "chain-sign", "comparison with zero is wrong")) break;
      }
    }
  }
}

// ---- weights
static map<string, double> nonzero(const vector<double>& w) { map<string, double> m; for (size_t i = 1; i < w.size(); ++i) if (w[i]) m[FD::Convert((int)i)] = w[i]; return m; }
static string pm(const map<string, double>& m) { ostringstream o; o.precision(17); for (auto& e : m) o << e.first << ":" << e.second << " "; return o.str(); }
static void weights(vc::X& x) {
  const vector<string> N = {"Glue", "LM_OOV", "P:\xc3\xa4_%3D", "a", "X-1.5"}; const double V[] = {0, 1, -0.1, 1e-300, 0.1 + 0.2, -12345678.901234567, 1e300}; const int nv = x.thorough ? 7 : 5, nn = x.thorough ? 5 : 4;
  for (auto& n : N) FD::Convert(n);
  long tot = 1; for (int i = 0; i < nn; ++i) tot *= nv;
  for (long c = 0; c < tot; ++c) { if (!x.take()) continue;
    map<string, double> m; vector<double> w; long k = c; for (int i = 0; i < nn; ++i, k /= nv) { int f = FD::Convert(N[i]); if (V[k % nv]) m[N[i]] = V[k % nv]; if (V[k % nv] || c % 2) { if ((int)w.size() <= f) w.resize(f + 1); w[f] = V[k % nv]; } }
    x.desc([=] { return "weights " + pm(m); }); if (m.size() > 1) x.nontrivial(); x.state(vc::hstr(pm(m)));
    for (int mode = 0; mode < 8; ++mode) { bool hide = mode & 1, gz = mode & 2, extra = mode & 4; string f = x.dir + (gz ? "/w.gz" : "/w"); string ex = "a comment 1"; x.step();
      Weights::WriteToFile(f, w, hide, extra ? &ex : nullptr); vector<double> r; vector<string> names; Weights::InitFromFile(f, &r, &names);
      x.check(nonzero(r) == m, "weights-file", [&] { return "read back " + pm(nonzero(r)); });
      set<string> ns(names.begin(), names.end()); x.check(ns.size() == names.size() && (hide ? ns.size() == m.size() : (int)names.size() == FD::NumFeats() - 1), "weights-names", [&] { return "names read: " + js(names); });
      if (!gz) { string t = get(f); int lines = count(t.begin(), t.end(), '\n'); x.check(lines == (int)names.size() + extra, "weights-lines", [&] { return "file:\n" + t; }); } }
    SparseVector<double> sv; sv.set_value(1, 77); Weights::InitSparseVector(w, &sv); map<string, double> sm; for (auto it = sv.begin(); it != sv.end(); ++it) if (it->second) sm[FD::Convert((int)it->first)] = it->second; x.check(sm == m, "weights-sparse", [&] { return "as sparse vector " + pm(sm); });
    for (bool hide : {true, false}) { string s = Weights::GetString(w, hide); vector<string> tk = SplitOnWhitespace(s); map<string, double> g; for (auto& t : tk) { size_t p = t.find('='); double v = strtod(t.c_str() + p + 1, 0); if (v) g[t.substr(0, p)] = v; } x.check(g == m && (s.empty() || s[0] != ' '), "weights-string", [&] { return "as string " + q(s); });
      vector<double> r(FD::NumFeats(), hide ? 0.0 : 5.0); Weights::UpdateFromString(s, r); x.check(nonzero(r) == m, "weights-update", [&] { return "updated from string: " + pm(nonzero(r)); });
      // values already there stay when the string does not mention them
      vector<double> z(FD::NumFeats(), 2.5); Weights::UpdateFromString(s, z); bool ok = true; for (int i = 1; i < FD::NumFeats(); ++i) { double want = m.count(FD::Convert(i)) ? m[FD::Convert(i)] : hide ? 2.5 : 0; ok &= z[i] == want; } x.check(ok, "weights-update-rest", "an unmentioned weight changed"); }
    Weights::SanityCheck(w); }
  // hand-written files
  struct Ln { string t, n; double v; }; vector<Ln> L = {{"Glue 1", "Glue", 1}, {"Glue=-2.5", "Glue", -2.5}, {"a\t1e-3", "a", 1e-3}, {"a   .5", "a", .5}, {"", "", 0}, {"# x 3", "", 0}, {"LM_OOV = 4", "LM_OOV", 4}, {"b +7 ", "b", 7}, {"X-1.5 1\r", "X-1.5", 1}, {"a:b,c;d 0", "a:b,c;d", 0}, {"#", "", 0}, {"_PH 1", "_PH", 1}, {"a 0x10", "a", 16}, {"a#b 2", "a#b", 2}, {"a=b=2.5", "a=b", 2.5}, {"a=b\t-4", "a=b", -4}};
  if (x.thorough) { L.push_back({"_PHWx 6", "_PHWx", 6}); L.push_back({"\xe6\x97\xa5 -0", "\xe6\x97\xa5", -0.0}); L.push_back({string(300, 'n') + " 9", string(300, 'n'), 9}); L.push_back({"a\t=\t3", "", 0}); L.pop_back(); }
  int n = L.size(); for (int len = 0; len <= 3; ++len) { int t = 1; for (int i = 0; i < len; ++i) t *= n; for (int c = 0; c < t; ++c) { if (!x.take()) continue;
      map<string, double> m; vector<string> nm; string txt; int k = c; for (int i = 0; i < len; ++i, k /= n) { auto& l = L[k % n]; txt += l.t + "\n"; if (!l.n.empty()) { m[l.n] = l.v; nm.push_back(l.n); } } for (auto it = m.begin(); it != m.end();) if (!it->second) m.erase(it++); else ++it;
      x.desc([=] { return "weights file:\n" + txt; }); if (nm.size() > 1) x.nontrivial();
      for (int mode = 0; mode < 3; ++mode) { string f = x.dir + (mode == 1 ? "/h.gz" : "/h"), tx = txt; if (mode == 2 && !tx.empty()) tx.erase(tx.size() - 1); if (mode == 1) { WriteFile w(f); *w << tx; } else put(f, tx); x.step(); vector<double> r; vector<string> ns; Weights::InitFromFile(f, &r, &ns); x.check(nonzero(r) == m, "weights-text", [&] { return "read as " + pm(nonzero(r)); }); x.check(ns == nm, "weights-text-names", [&] { return "names " + js(ns); });
        vector<double> pre(FD::NumFeats(), 2.5); Weights::InitFromFile(f, &pre); bool ok = true; for (int i = 1; i < FD::NumFeats(); ++i) { string fn = FD::Convert(i); bool named = find(nm.begin(), nm.end(), fn) != nm.end(); double want = named ? (m.count(fn) ? m[fn] : 0) : 2.5; ok &= pre[i] == want; } x.check(ok, "weights-preset", "weights that are not in the file changed"); }
      if (c % 7 == 0 || len < 3) { string f = x.dir + "/std", o = x.dir + "/stdo"; put(f, txt); fflush(stdout); pid_t p = fork(); if (!p) { int d = open(f.c_str(), O_RDONLY); dup2(d, 0); ios::sync_with_stdio(false); vector<double> r; Weights::InitFromFile("-", &r); put(o, pm(nonzero(r))); _exit(0); } int st; while (waitpid(p, &st, 0) < 0) {} string got = WIFEXITED(st) && !WEXITSTATUS(st) ? get(o) : "<crash>"; x.check(got == pm(m), "weights-stdin", [&] { return "from standard input: " + got; }); } } }
  // feature names
  const string A[] = {"a", "=", ":", ";", ",", "_", "|", "%", "+", " ", "\xc3\xa4", "#"}; const int na = 12; map<string, string> seen; int mx = x.thorough ? 5 : 4;
  if (x.take()) { x.desc([] { return string("every escaped feature name"); }); x.nontrivial(); vector<int> st; vector<string> todo = {""}; for (size_t h = 0; h < todo.size(); ++h) { string s = todo[h]; string e = FD::Escape(s); x.step(); bool sp = s.find(' ') != string::npos, pl = s.find('+') != string::npos;
      for (char ch : string("=:;,_| ")) x.check(e.find(ch) == string::npos, "escape-char", [&] { return q(s) + " is escaped as " + q(e); }); if (!pl) x.check(UrlDecodeString(e) == s, "escape-decode", [&] { return q(s) + " is escaped as " + q(e) + " and decoded as " + q(UrlDecodeString(e)); });
      if (!sp) { auto r = seen.insert(make_pair(e, s)); x.check(r.second || r.first->second == s, "escape-unique", [&] { return q(s) + " and " + q(r.first->second) + " are both escaped as " + q(e); }); }
      int cnt = 0; for (unsigned char ch : s) cnt += (ch & 0xC0) != 0x80; if (cnt < mx) for (int i = 0; i < na; ++i) todo.push_back(s + A[i]); }
    for (int len = 1; len < 140; ++len) for (int pos = 0; pos < len; pos += 3) { string s(len, 'a'); s[pos] = '='; s[len - 1] = ';'; string e = FD::Escape(s); x.check(UrlDecodeString(e) == s && e.size() == s.size() + (pos == len - 1 ? 2 : 4), "escape-long", [&] { return q(s) + " is escaped as " + q(e); }); } }
}

// ---- dictionaries
static void dicts(vc::X& x) {
  const vector<string> W = {"a", "b", "<bad0>", "", "a b", "\xc3\xa4"}; const vector<string> LN = {"a b", "  b\tc a ", "", "a a"}; const vector<vector<string>> VV = {{"a", "b"}, {"a"}, {}, {"a ||| b"}};
  const int no = 2 * W.size() + LN.size() + VV.size() + 1, D = x.thorough ? 5 : 4; long tot = 1; for (int i = 0; i < D - 1; ++i) tot *= no;
  for (long c = 0; c < tot; ++c) { if (!x.take()) continue; auto name = [=](int op) -> string { if (op < (int)W.size()) return "add " + q(W[op]); op -= W.size(); if (op < (int)W.size()) return "look up " + q(W[op]); op -= W.size(); if (op < (int)LN.size()) return "line " + q(LN[op]); op -= LN.size(); if (op < (int)VV.size()) return "fields " + js(VV[op]); return "clear"; };
    x.desc([=] { string o = "dictionary:"; long k = c; for (int i = 0; i < D - 1; ++i, k /= no) o += " " + name(k % no) + ","; return o + " then every operation"; }); x.nontrivial();
    for (int last = 0; last < no; ++last) { Dict d; vector<string> ids; long k = c; x.step(); auto add = [&](const string& s) { for (size_t i = 0; i < ids.size(); ++i) if (ids[i] == s) return (int)i + 1; ids.push_back(s); return (int)ids.size(); };
      for (int i = 0; i < D; ++i, k /= no) { int op = i + 1 < D ? k % no : last; int o = op; bool ok = true;
        if (o < (int)W.size()) { int g = d.Convert(W[o]); ok = g == add(W[o]); }
        else if ((o -= W.size()) < (int)W.size()) { int w = 0; for (size_t j = 0; j < ids.size(); ++j) if (ids[j] == W[o]) w = j + 1; ok = d.Convert(W[o], true) == w; }
        else if ((o -= W.size()) < (int)LN.size()) { vector<int> g = {99}, w; d.ConvertWhitespaceDelimitedLine(LN[o], &g); istringstream in(LN[o]); string t; while (in >> t) w.push_back(add(t)); ok = g == w; }
        else if ((o -= LN.size()) < (int)VV.size()) { string t; for (size_t j = 0; j < VV[o].size(); ++j) t += (j ? " ||| " : "") + VV[o][j]; int g = d.Convert(VV[o]); ok = g == add(t); vector<string> b = {"junk"}; d.AsVector(g, &b); vector<string> w; size_t p = 0, n; while ((n = t.find(" ||| ", p)) != string::npos) { w.push_back(t.substr(p, n - p)); p = n + 5; } w.push_back(t.substr(p)); ok &= b == w && Dict::toString(VV[o]) == t; }
        else { d.clear(); ids.clear(); }
        ok &= d.max() == (int)ids.size(); for (size_t j = 0; j < ids.size(); ++j) ok &= d.Convert((int)j + 1) == ids[j] && d.Convert(ids[j], true) == (int)j + 1; ok &= d.Convert(0) == "<bad0>";
        if (i + 1 == D || !ok) if (!x.check(ok, "dict", [&] { return "wrong after step " + to_string(i) + " with last operation " + name(last); })) break; } } }
  // growth
  if (x.take()) { x.desc([] { return string("dictionary of 5000 words"); }); x.nontrivial(); Dict d; bool ok = true; for (int i = 0; i < 5000; ++i) ok &= d.Convert("w" + to_string(i * 7919 % 5000)) == i + 1; for (int i = 0; i < 5000; ++i) ok &= d.Convert(i + 1) == "w" + to_string(i * 7919 % 5000) && d.Convert("w" + to_string(i * 7919 % 5000), true) == i + 1; ok &= d.Convert("other", true) == 0 && d.max() == 5000; x.check(ok, "dict-growth", "ids of a large dictionary are wrong"); }
  // sentences
  const string A[] = {"a", "b", " ", "\t", "\xc3\xa4"}; const int L = x.thorough ? 8 : 6; vector<long> cnt(L + 1, 1); for (int i = 1; i <= L; ++i) cnt[i] = cnt[i - 1] * 5;
  for (int n = 0; n <= L; ++n) for (long c0 = 0; c0 < cnt[n]; c0 += 125) { if (!x.take()) continue; x.desc([=] { return "sentences number " + to_string(c0) + ".. of " + to_string(n) + " pieces"; }); x.nontrivial();
    for (long c = c0; c < min(cnt[n], c0 + 125); ++c) { string s; long k = c; for (int i = 0; i < n; ++i, k /= 5) s += A[k % 5]; x.step();
      for (size_t st = 0; st <= s.size(); ++st) { if (st && s[st - 1] != ' ' && s[st - 1] != '\t') continue; vector<string> w; istringstream in(s.substr(st)); string t; while (in >> t) w.push_back(t); vector<WordID> ids = {5}; TD::ConvertSentence(s, &ids, st); bool ok = ids.size() == w.size(); string j; for (size_t i = 0; i < w.size() && ok; ++i) { ok &= TD::Convert(ids[i]) == w[i] && TD::Convert(w[i]) == ids[i] && TD::Convert(w[i].c_str()) == ids[i]; j += (i ? " " : "") + w[i]; }
        if (ok) { ok &= TD::GetString(ids) == j && TD::GetString(ids.data(), ids.data() + ids.size()) == j; vector<WordID> i2 = {5}; TD::GetWordIDs(w, &i2); ok &= i2 == ids; vector<WordID> i3; TD::ConvertSentence(j, &i3); ok &= i3 == ids; }
        if (ok) for (size_t i = 0; i < w.size() && i < 2; ++i) for (int pos = 0; pos < 3; ++pos) for (int bs = pos; bs < 8; ++bs) { char b[9]; memset(b, '~', 9); int e = TD::AppendString(ids[i], pos, bs, b); string want = w[i].substr(0, bs - pos); ok &= e == pos + (int)want.size() && string(b + pos, want.size()) == want && b[e] == '~' && (!pos || b[pos - 1] == '~'); }
        x.check(ok, "sentence", [&] { return q(s) + " from " + to_string(st) + " is read as " + js(w); });
        if (!st) { vector<string> sw; SplitOnWhitespace(s, &sw); x.check(sw == w && SplitOnWhitespace(s) == w && SplitOnWhitespace(s, &sw) == (int)w.size(), "split-ws", [&] { return q(s) + " is split as " + js(sw); });
          vector<string> vt; VisitTokens(s, [&](const string& t) { vt.push_back(t); }); x.check(vt == w, "visit-tokens", [&] { return q(s) + " is visited as " + js(vt); });
          string cmd = "z", par = "z", wp; SplitCommandAndParam(s, &cmd, &par); for (size_t i = 1; i < w.size(); ++i) wp += (i > 1 ? " " : "") + w[i]; x.check(cmd == (w.empty() ? "" : w[0]) && par == wp, "command", [&] { return q(s) + " is split into " + q(cmd) + " and " + q(par); });
          vector<int> dl; Dict d; d.ConvertWhitespaceDelimitedLine(s, &dl); string dj; for (size_t i = 0; i < dl.size(); ++i) dj += (i ? " " : "") + d.Convert(dl[i]); x.check(dj == j, "dict-line", [&] { return q(s) + " is read as " + q(dj); });
          vector<string> tk = {"junk"}; Tokenize(s, ' ', &tk); vector<string> tw; string cur; for (char ch : s + " ") if (ch == ' ') { if (!cur.empty()) tw.push_back(cur); cur.clear(); } else cur += ch; x.check(tk == tw && NTokens(s, ' ') == tw.size(), "tokenize", [&] { return q(s) + " is tokenised as " + js(tk); });
          size_t b = 0, e = s.size(); while (b < e && (s[b] == ' ' || s[b] == '\t')) ++b; while (e > b && (s[e - 1] == ' ' || s[e - 1] == '\t')) --e; x.check(Trim(s) == s.substr(b, e - b), "trim", [&] { return q(s) + " is trimmed to " + q(Trim(s)); }); } } } }
}

// ---- strings
static void strings(vc::X& x) {
  // splitting at a separator, counting
  const string A[] = {"a", " ", "|", " ||| ", "||| ", "B"}; const int L = x.thorough ? 6 : 5; long tot = 1; for (int n = 0; n <= L; ++n, tot *= 6) for (long c0 = 0; c0 < tot; c0 += 216) { if (!x.take()) continue; x.desc([=] { return "strings number " + to_string(c0) + ".. of " + to_string(n) + " pieces"; }); x.nontrivial();
    for (long c = c0; c < min(tot, c0 + 216); ++c) { string s; long k = c; for (int i = 0; i < n; ++i, k /= 6) s += A[k % 6]; x.step();
      for (string sep : {" ||| ", "|", "||", " "}) { vector<string> w; size_t p = 0, f; int cnt = 0; while ((f = s.find(sep, p)) != string::npos) { w.push_back(s.substr(p, f - p)); p = f + sep.size(); ++cnt; } if (p < s.size()) w.push_back(s.substr(p));
        vector<string> g; for (auto& t : TokenizeMultisep(s, sep)) g.push_back(string(t.data(), t.size())); x.check(g == w, "multisep", [&] { return q(s) + " at " + q(sep) + " gives " + js(g); }); x.check(CountSubstrings(s, sep) == cnt, "count", [&] { return q(s) + " contains " + to_string(CountSubstrings(s, sep)) + " of " + q(sep); }); x.check(match_begin(s, sep) == (s.compare(0, sep.size(), sep) == 0), "match_begin", [&] { return q(s); }); }
      string lo = LowercaseString(s), up = UppercaseString(s); bool ok = lo.size() == s.size() && up.size() == s.size() && toupper(s) == up; for (size_t i = 0; i < s.size(); ++i) ok &= lo[i] == (s[i] == 'B' ? 'b' : s[i]) && up[i] == (s[i] == 'a' ? 'A' : s[i]); x.check(ok, "case", [&] { return q(s) + " becomes " + q(lo) + " and " + q(up); });
      // source ||| reference
      size_t p = s.find("|||"); bool wf = p == string::npos || ((p == 0 || s[p - 1] == ' ') && (p + 3 == s.size() || s[p + 3] == ' ')); if (wf) { string in = "z", ref = "old"; ParseTranslatorInput(s, &in, &ref); string wi = p == string::npos ? s : s.substr(0, p ? p - 1 : 0), wr = p == string::npos ? "old" : p + 4 < s.size() ? s.substr(p + 4) : ""; x.check(in == wi && ref == wr, "translator-input", [&] { return q(s) + " is read as " + q(in) + " and " + q(ref); });
        string js1 = "{\"rules\":[ ||| ]}}" + s; if (s.empty() || s[0] == ' ') { string i2 = "z", r2 = "old"; ParseTranslatorInput(js1, &i2, &r2); x.check(i2 == (p == string::npos ? js1 : js1.substr(0, js1.size() - s.size() + (p ? p - 1 : 0))) && r2 == wr, "translator-json", [&] { return q(js1) + " is read as " + q(i2) + " and " + q(r2); }); } } } }
  // line helpers and UTF-8
  const string U[] = {"a", "\xc3\xa4", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "\n", " ", "\x80", "\xff", "\xef\xbc\x81"}; tot = 1; for (int n = 0; n <= (x.thorough ? 5 : 4); ++n, tot *= 9) { if (!x.take()) continue; x.desc([=] { return "all strings of " + to_string(n) + " characters"; }); x.nontrivial(); for (long c = 0; c < tot; ++c) { string s; long k = c; int chars = 0; bool valid = true; for (int i = 0; i < n; ++i, k /= 9) { s += U[k % 9]; ++chars; if (k % 9 == 6 || k % 9 == 7) valid = false; } x.step();
      unsigned len = UTF8StringLen(s); x.check(valid ? len == (unsigned)chars : len <= s.size() && (s.empty() || len > 0), "utf8", [&] { return q(s) + " is said to have " + to_string(len) + " characters"; });
      x.check(is_single_line(s) == (s.find('\n') == string::npos), "single-line", [&] { return q(s); }); size_t b = s.find_first_not_of(" \n"), e = s.find_last_not_of(" \n"); string st = b == string::npos ? "" : s.substr(b, e - b + 1); x.check(is_single_line_stripped(s) == (st.find('\n') == string::npos) || b == string::npos, "single-line-stripped", [&] { return q(s); }); if (b != string::npos) x.check(skip_ws(s) == b && trailing_ws(s) == e + 1, "skip-ws", [&] { return q(s); }); } }
  // segment tags
  const vector<string> K = {"id", "grammar", "x"}, V = {"", "1", "a b", "x=y", "a = b", "=", "/a/b-c.gz?y=z&q", "\xc3\xa4 ", " = "}; const vector<string> T = {"ein Haus", "", " a  b ", "a = \"b\" id=3", "a ||| b"}; int nv = V.size();
  for (int m = 0; m < (nv + 1) * (nv + 1) * (nv + 1); ++m) { map<string, string> at; int k = m; for (auto& n : K) { if (k % (nv + 1)) at[n] = V[k % (nv + 1) - 1]; k /= nv + 1; } if (!x.thorough && at.size() == 3 && m % 3) continue; if (!x.take()) continue; x.desc([=] { return "attributes " + [&] { string o; for (auto& e : at) o += e.first + "=" + q(e.second) + " "; return o; }(); }); if (at.size() > 1) x.nontrivial();
    string tag = SGMLOpenSegTag(at); bool plain = true; for (auto& e : at) plain &= !e.second.empty() && e.second.find_first_of(" ") == string::npos && e.second[0] != '=' ; x.state(vc::hstr(tag));
    for (auto& t : T) for (int mode = 0; mode < 8; ++mode) { string l; if (mode == 0) l = tag + t + "</seg>"; else if (mode == 1) l = tag + " " + t + " </seg>"; else if (mode == 2) l = tag + t; else if (mode == 6) l = tag + t + "</seg> \t"; else { if (mode == 4 && !plain) continue; l = "<seg"; for (auto& e : at) l += (mode == 3 ? "  " : mode == 7 && l.size() > 4 ? "" : " ") + e.first + (mode == 3 ? " = " : mode == 5 ? "= " : "=") + (mode == 4 ? e.second : "\"" + e.second + "\""); l += mode == 3 ? " >" : ">"; l += t + "</seg>"; }
      map<string, string> g; string line = l; x.step(); ProcessAndStripSGML(&line, &g); x.check(g == at, "sgml-attributes", [&] { string o; for (auto& e : g) o += e.first + "=" + q(e.second) + " "; return q(l) + " has attributes " + o; }); x.check(line == Trim(t), "sgml-text", [&] { return q(l) + " has text " + q(line); }); } }
  if (x.take()) { x.desc([] { return string("lines without segment tags"); }); for (string l : {"", "a", "seg", "a <seg id=\"1\">b</seg>", " <seg>", "<se", "<seg"}) { string s = l; map<string, string> g; ProcessAndStripSGML(&s, &g); x.check(s == l && g.empty(), "sgml-none", [&] { return q(l) + " becomes " + q(s); }); } }
}

// ---- digests, numbers, corpora
template <class I> static void numbers(vc::X& x, const char* ty, const vector<I>& vals) {
  typedef typename signed_for_int<I>::unsigned_t U; typedef typename signed_for_int<I>::signed_t S;
  for (size_t b = 0; b < vals.size(); b += 4096) { if (!x.take()) continue; x.desc([=] { return string(ty) + " values from number " + to_string(b); }); x.nontrivial(); for (size_t i = b; i < min(vals.size(), b + 4096); ++i) { I v = vals[i]; string w = is_signed<I>::value ? to_string((long long)v) : to_string((unsigned long long)v), u = to_string((unsigned long long)(U)v), s = to_string((long long)(S)v); x.step();
      x.check(itos(v) == w, string("itos-") + ty, [&] { return w + " is printed as " + itos(v); }); x.check(utos(v) == u, string("utos-") + ty, [&] { return u + " is printed as " + utos(v); });
      char buf[80], *e; memset(buf, '~', 80); e = append_itoa<I>(buf + 4, (S)v); x.check(string(buf + 4, e) == s && *e == 0 && buf[3] == '~', "append_itoa", [&] { return s + " is appended as " + string(buf + 4, e); }); memset(buf, '~', 80); e = append_utoa<I>(buf + 4, (U)v); x.check(string(buf + 4, e) == u && *e == 0 && buf[3] == '~', "append_utoa", [&] { return u + " is appended as " + string(buf + 4, e); });
      e = itoa(buf + 60, v, true); x.check(string(e, buf + 60) == (w[0] == '-' ? w : "+" + w), "itoa-plus", [&] { return w + " is printed as " + string(e, buf + 60); });
      for (int wd : {22, 25}) { char* r = utoa_left_pad(buf, buf + wd, v); string g(r, buf + wd); x.check(g == string(wd - u.size(), '0') + u, "left-pad", [&] { return u + " is padded as " + g; }); r = itoa_left_pad(buf, buf + wd, v, true); g.assign(r, buf + wd); string dg = w[0] == '-' ? w.substr(1) : w; x.check(g == (w[0] == '-' ? "-" : "+") + string(wd - 1 - dg.size(), '0') + dg, "left-pad-signed", [&] { return w + " is padded as " + g; }); }
      unsigned sk = 77; e = utoa_drop_trailing_0(buf + 60, v, sk); string g(e, buf + 60), d = u; unsigned z = 0; while (d.size() > 1 && d[d.size() - 1] == '0') { d.erase(d.size() - 1); ++z; } x.check(g == d && sk == z, "drop-zeros", [&] { return u + " is printed as " + g + " without " + to_string(sk) + " zeros"; }); } }
}
static void misc(vc::X& x) {
  { vector<int16_t> v; for (int i = -32768; i < 32768; ++i) v.push_back(i); numbers<int16_t>(x, "int16", v); vector<uint16_t> u; for (int i = 0; i < 65536; ++i) u.push_back(i); numbers<uint16_t>(x, "uint16", u);
    vector<int32_t> a; vector<uint32_t> b; vector<int64_t> c; vector<uint64_t> d; for (int k = 0; k < 64; ++k) for (int o = -2; o <= 2; ++o) { uint64_t p = (1ULL << k) + o; c.push_back(p); c.push_back(-p); d.push_back(p); if (k < 32) { a.push_back((int32_t)p); a.push_back(-(int32_t)p); b.push_back((uint32_t)p); } } uint64_t p = 1; for (int k = 0; k < 20; ++k, p *= 10) for (int o = -2; o <= 2; ++o) { c.push_back(p + o); c.push_back(-(p + o)); d.push_back(p + o); if (k < 10) { a.push_back(p + o); a.push_back(-(int32_t)(p + o)); b.push_back(p + o); } } numbers<int32_t>(x, "int32", a); numbers<uint32_t>(x, "uint32", b); numbers<int64_t>(x, "int64", c); numbers<uint64_t>(x, "uint64", d); }
  for (int b = 0; b < 4; ++b) { if (!x.take()) continue; x.desc([=] { return "digests of strings of lengths " + to_string(b * 64) + ".. with md5sum"; }); x.nontrivial(); vector<string> s; for (int n = b * 64; n < b * 64 + 64; ++n) for (int p = 0; p < 2; ++p) { string t(n, 'a'); if (p) for (int i = 0; i < n; ++i) t[i] = (char)(i * 37 + n); s.push_back(t); } if (b == 3) for (int n : {1000, 4096, 4095, 10007, 65536}) s.push_back(string(n, '\xff')); string cmd = "cd '" + x.dir + "' && md5sum"; for (size_t i = 0; i < s.size(); ++i) { put(x.dir + "/m" + to_string(i), s[i]); cmd += " m" + to_string(i); } FILE* f = popen(cmd.c_str(), "r"); char h[64], nm[64]; size_t i = 0; while (f && fscanf(f, "%63s %63s", h, nm) == 2) { x.step(); string g = md5(s[i]); x.check(g == h, "md5", [&] { return "digest of a string of length " + to_string(s[i].size()) + " is " + g; }); ++i; } if (f) pclose(f); x.check(i == s.size(), "md5-count", "md5sum is missing"); }
  // parallel corpora
  const vector<string> LN = {"a b ||| c", "a ||| ", "||| d e", "b a b ||| c c", " a\tb  |||  d ", "|||"}; int nl = LN.size();
  auto words = [](const string& s) { istringstream i(s); vector<string> v; string t; while (i >> t) v.push_back(t); return v; }; auto str = [](const vector<WordID>& v) { vector<string> r; for (int w : v) r.push_back(TD::Convert(w)); return r; };
  for (int n = 0; n <= (x.thorough ? 4 : 3); ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= nl; for (int c = 0; c < t; ++c) { if (!x.take()) continue; vector<string> ls; string txt; int k = c; for (int i = 0; i < n; ++i, k /= nl) { ls.push_back(LN[k % nl]); txt += ls.back() + "\n"; } x.desc([=] { return "parallel text:\n" + txt; }); if (n > 1) x.nontrivial(); if (n && c % 2) txt.erase(txt.size() - 1); put(x.dir + "/par", txt); string mono; for (auto& l : ls) mono += l.substr(0, l.find("|||")) + "\n"; put(x.dir + "/mono", mono);
      set<string> sv, tv; vector<vector<string>> ss, ts; for (auto& l : ls) { size_t p = l.find("|||"); ss.push_back(words(l.substr(0, p))); ts.push_back(words(l.substr(p + 3))); sv.insert(ss.back().begin(), ss.back().end()); tv.insert(ts.back().begin(), ts.back().end()); vector<WordID> a = {3}, b = {3}; CorpusTools::ReadLine(l, &a, &b); x.check(str(a) == ss.back() && str(b) == ts.back(), "corpus-line", [&] { return q(l) + " is read as " + js(str(a)) + js(str(b)); }); }
      for (int size = 1; size <= 3; ++size) for (int rank = 0; rank < size; ++rank) { x.step(); vector<vector<WordID>> a(1), b(1), m; set<WordID> va, vb, vm; va.insert(1); CorpusTools::ReadFromFile(x.dir + "/par", &a, &va, &b, &vb, rank, size); CorpusTools::ReadFromFile(x.dir + "/mono", &m, &vm, nullptr, nullptr, rank, size); vector<vector<string>> wa, wb, ga, gb, gm; for (int i = rank; i < n; i += size) { wa.push_back(ss[i]); wb.push_back(ts[i]); } for (auto& v : a) ga.push_back(str(v)); for (auto& v : b) gb.push_back(str(v)); for (auto& v : m) gm.push_back(str(v)); set<string> gs, gt, gx; for (int w : va) gs.insert(TD::Convert(w)); for (int w : vb) gt.insert(TD::Convert(w)); for (int w : vm) gx.insert(TD::Convert(w));
        x.check(ga == wa && gb == wb && gm == wa, "corpus", [&] { return "part " + to_string(rank) + " of " + to_string(size) + " has " + to_string(ga.size()) + ", " + to_string(gb.size()) + " and " + to_string(gm.size()) + " sentences or differs"; }); x.check(gs == sv && gt == tv && gx == sv, "corpus-vocabulary", "the vocabulary differs"); }
      if (n >= 2 && (x.thorough || c % 8 == 0) && getenv("VC_DEDUP")) { put(x.dir + "/dd", txt); string of = x.dir + "/ddo"; int st = system((string(getenv("VC_DEDUP")) + " < '" + x.dir + "/dd' > '" + of + "'").c_str()); string w; set<string> seen; for (auto& l : ls) if (seen.insert(l).second) w += l + "\n"; string g = WIFEXITED(st) && !WEXITSTATUS(st) ? get(of) : "<crash>"; x.check(g == w, "dedup", [&] { return "reduced to:\n" + g; }); } } }
}
void vc_run(vc::X& x) {
  SetSilent(true); cerr.setstate(ios::failbit);
  logvals<double>(x, "double "); logvals<float>(x, "float ");
  weights(x); dicts(x); strings(x); misc(x);
}
VC_MAIN(vc_run)
