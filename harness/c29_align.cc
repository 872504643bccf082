// C29: alignments are read, printed, combined and estimated as defined.
#include "compat.h"
#include "vc.h"
#include "alignment_io.h"
#include "da.h"
#include "ttables.h"
#include <algorithm>
#include <memory>
#include <unordered_map>
using namespace std;
typedef vector<string> S;
typedef set<pair<int, int>> L;
static void put(const string& f, const string& t) { ofstream o(f.c_str(), ios::binary); o << t; }
static string get(const string& f) { ifstream i(f.c_str(), ios::binary); return string(istreambuf_iterator<char>(i), istreambuf_iterator<char>()); }
struct Out { int code, sig; string out, err; };
static Out run(vc::X& x, const char* var, S a, const string& in) {
  string i = x.dir + "/in", o = x.dir + "/out", e = x.dir + "/err"; put(i, in); a.insert(a.begin(), getenv(var)); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(0); x.step();
  pid_t p = vfork(); if (!p) { int fi = open(i.c_str(), O_RDONLY), fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); execv(v[0], v.data()); _exit(127); }
  int st; while (waitpid(p, &st, 0) < 0) {} return {WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, get(o), get(e)}; }
static string show(const S& a) { string o; for (auto& s : a) o += " " + s; return o; }
// ---- part A: atools
static L links(int m, int n, int bits) { L l; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (bits >> (i * n + j) & 1) l.insert({i, j}); return l; }
static string str(const L& l) { string o; for (auto& p : l) o += (o.empty() ? "" : " ") + to_string(p.first) + "-" + to_string(p.second); return o; }
static L grow(const L& a, const L& b, int final) {   // 0 none, 1 final, 2 final-and
  L cur, uni; set<int> ri, rj; auto add = [&](pair<int, int> p) { cur.insert(p); ri.insert(p.first); rj.insert(p.second); };
  for (auto& p : a) { if (b.count(p)) add(p); uni.insert(p); } for (auto& p : b) uni.insert(p);
  for (bool more = true; more;) { more = false; for (auto& p : uni) if (!cur.count(p) && (!ri.count(p.first) || !rj.count(p.second))) { bool nb = false; for (int di = -1; di <= 1; ++di) for (int dj = -1; dj <= 1; ++dj) nb = nb || cur.count({p.first + di, p.second + dj}); if (nb) { add(p); more = true; } } }
  for (auto* s : {&a, &b}) for (auto& p : *s) { bool fi = !ri.count(p.first), fj = !rj.count(p.second); if (!cur.count(p) && ((final == 1 && (fi || fj)) || (final == 2 && fi && fj))) add(p); }
  return cur; }
static const char* CMD[] = {"intersect", "union", "grow-diag", "grow-diag-final", "grow-diag-final-and"};
static L apply(int c, const L& a, const L& b) { if (c >= 2) return grow(a, b, c - 2); L r; for (auto& p : a) if (c == 1 || b.count(p)) r.insert(p); if (c == 1) for (auto& p : b) r.insert(p); return r; }
static string display(const L& l) { int w = 0, h = 0; for (auto& p : l) { w = max(w, p.first); h = max(h, p.second); } string hd = " "; for (int j = 0; j <= h; ++j) hd += char('0' + j % 10); string o = hd + "\n"; for (int i = 0; i <= w; ++i) { o += char('0' + i % 10); for (int j = 0; j <= h; ++j) o += l.count({i, j}) ? '*' : '.'; o += char('0' + i % 10); o += '\n'; } return o + hd + "\n"; }
static S lines(const string& t) { S r; istringstream i(t); string l; while (getline(i, l)) r.push_back(l); return r; }
static void pairs(vc::X& x, int m, int n) {
  int N = 1 << (m * n);
  for (int a = 0; a < N; ++a) for (int c = 0; c < 5; ++c) { if (!x.take()) continue; L la = links(m, n, a); x.desc([=] { return string(CMD[c]) + " of '" + str(la) + "' with every alignment of " + to_string(m) + "x" + to_string(n); });
    string f1, f2; vector<L> lb; for (int b = 0; b < N; ++b) { lb.push_back(links(m, n, b)); f1 += str(la) + "\n"; f2 += str(lb[b]) + "\n"; } put(x.dir + "/2", f2);
    Out o = run(x, "VC_ATOOLS", {"-i", "-", "-j", x.dir + "/2", "-c", CMD[c]}, f1); S got = lines(o.out); x.step(N); if (a) x.nontrivial();
    if (!x.check(o.code == 0 && (int)got.size() == N, "atools-lines", [&] { return to_string(got.size()) + " lines for " + to_string(N) + " pairs, exit " + to_string(o.code) + "/" + to_string(o.sig) + "\n" + o.err; })) continue;
    for (int b = 0; b < N; ++b) { string w = str(apply(c, la, lb[b])); if (got[b] != w) { x.fail("atools-pair", "'" + str(lb[b]) + "' gives '" + got[b] + "' instead of '" + w + "'"); break; } }
    x.state(vc::hstr(o.out)); } }
static void single(vc::X& x, int m, int n) {
  int N = 1 << (m * n);
  for (int c = 0; c < 3; ++c) for (int blk = 0; blk * 256 < N; ++blk) { if (!x.take()) continue; const char* nm = c == 0 ? "convert" : c == 1 ? "invert" : "display"; x.desc([=] { return string(nm) + " every alignment of " + to_string(m) + "x" + to_string(n) + " from " + to_string(blk * 256); }); string in, w;
    for (int a = blk * 256; a < min(N, blk * 256 + 256); ++a) { L l = links(m, n, a); in += str(l) + "\n"; if (c == 1) { L t; for (auto& p : l) t.insert({p.second, p.first}); w += str(t) + "\n"; } else { if (c == 2) w += display(l) + "\n"; w += str(l) + "\n"; } }
    Out o = run(x, "VC_ATOOLS", {"-i", "-", "-c", nm}, in); x.nontrivial(); x.check(o.code == 0 && o.out == w, "atools-single", [&] { S g = lines(o.out), e = lines(w); size_t i = 0; while (i < g.size() && i < e.size() && g[i] == e[i]) ++i; return "line " + to_string(i) + " is '" + (i < g.size() ? g[i] : "<none>") + "' instead of '" + (i < e.size() ? e[i] : "<none>") + "'"; }); } }
// files: styles, both standard inputs, unequal lengths; F-measure
static void files(vc::X& x, bool th) {
  const S AL = {"", "0-0", "0-1 1-0 2-2", "10-3 3-10"}; vector<L> LK = {{}, {{0, 0}}, {{0, 1}, {1, 0}, {2, 2}}, {{10, 3}, {3, 10}}};
  auto style = [&](int s, int k) -> string { switch (s) { case 1: return "some source ||| some target ||| " + AL[k]; case 2: return k ? AL[k] + "  " : AL[k]; case 3: return AL[k] + "\r"; case 4: { S w; istringstream i(AL[k]); string t; while (i >> t) w.insert(w.begin(), t); string o; for (auto& v : w) o += v + " " + v + "  "; return o; } case 5: return "a ||| b ||| 7-7 ||| " + AL[k]; case 6: { string o = AL[k]; size_t p = 0; while ((p = o.find('-', p)) != string::npos) { o.replace(p, 1, "-0"); p += 2; } return k ? "00" + o : o; } default: return AL[k]; } };
  for (int n = 0; n <= 2; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 4; for (int c = 0; c < tot; ++c) for (int st = 0; st < 7; ++st) for (int nl = 0; nl < 2; ++nl) for (int how = 0; how < 3; ++how) { if (!x.take()) continue; string t, w; int q = c; for (int i = 0; i < n; ++i, q /= 4) { t += style(st, q % 4) + "\n"; w += str(LK[q % 4]) + "\n"; } bool lost = n && nl && lines(t).back().empty(); if (nl && t.size()) t.erase(t.size() - 1); if (lost) w.erase(w.size() - 1);
        x.desc([=] { return string(how == 0 ? "standard input" : how == 1 ? "file" : "gzip file") + " '" + vc::esc(t) + "'"; }); if (st) x.nontrivial(); string f = x.dir + "/f"; if (how == 1) put(f, t); if (how == 2) { f += ".gz"; put(x.dir + "/g", t); if (system(("gzip -nc " + x.dir + "/g > " + f).c_str())) {} }
        Out o = run(x, "VC_ATOOLS", {"-i", how ? f : "-"}, how ? "" : t); x.check(o.code == 0 && o.out == w, "atools-style", [&] { return "'" + vc::esc(o.out) + "' instead of '" + vc::esc(w) + "'"; }); } }
  // pairs of files: n1 and n2 lines, with and without the last newline; or all from standard input
  for (int n1 = 0; n1 <= 3; ++n1) for (int n2 = 0; n2 <= 3; ++n2) for (int nl = 0; nl < 4; ++nl) for (int swap = 0; swap < 2; ++swap) for (int c = 0; c < 5; ++c) { if (!x.take()) continue; string t[2]; for (int i = 0; i < n1; ++i) t[0] += AL[1 + (i + c) % 3] + "\n"; for (int i = 0; i < n2; ++i) t[1] += AL[1 + (i * 2) % 3] + "\n"; for (int k = 0; k < 2; ++k) if (nl >> k & 1 && t[k].size()) t[k].erase(t[k].size() - 1); string w; if (n1 == n2) for (int i = 0; i < n1; ++i) w += str(apply(c, LK[1 + (i + c) % 3], LK[1 + i * 2 % 3])) + "\n";
      x.desc([=] { return string(CMD[c]) + " of files of " + to_string(n1) + " and " + to_string(n2) + " lines" + (swap ? ", the second from standard input" : "") + ":\n" + t[0] + "<end>\n" + t[1] + "<end>"; }); if (n1 != n2) x.nontrivial(); put(x.dir + "/2", t[!swap]); Out o = run(x, "VC_ATOOLS", {"-i", swap ? x.dir + "/2" : "-", "-j", swap ? "-" : x.dir + "/2", "-c", CMD[c]}, t[swap]);
      x.check(n1 == n2 ? o.code == 0 && o.out == w : o.code > 0, "atools-files", [&] { return "exit " + to_string(o.code) + " and '" + vc::esc(o.out) + "' instead of " + (n1 == n2 ? "'" + vc::esc(w) + "'" : "a refusal"); }); }
  for (int n = 0; n <= 5; ++n) for (int nl = 0; nl < 2; ++nl) for (int c = 0; c < 5; ++c) { if (!x.take()) continue; string t, w; for (int i = 0; i < n; ++i) { t += AL[1 + (i + i / 2) % 3] + "\n"; if (i % 2) w += str(apply(c, LK[1 + (i - 1 + (i - 1) / 2) % 3], LK[1 + (i + i / 2) % 3])) + "\n"; } if (nl && n) t.erase(t.size() - 1); x.desc([=] { return string(CMD[c]) + " of pairs of lines of standard input:\n" + t + "<end>"; }); x.nontrivial();
      Out o = run(x, "VC_ATOOLS", {"-i", "-", "-j", "-", "-c", CMD[c]}, t); x.check(n % 2 ? o.code > 0 : o.code == 0 && o.out == w, "atools-stdin-pairs", [&] { return "exit " + to_string(o.code) + " and '" + vc::esc(o.out) + "' instead of " + (n % 2 ? "a refusal" : "'" + vc::esc(w) + "'"); }); }
  auto fm = [&](const vector<pair<L, L>>& ps) { string a, b; double m = 0, h = 0, r = 0; for (auto& p : ps) { a += str(p.first) + "\n"; b += str(p.second) + "\n"; h += p.first.size(); r += p.second.size(); for (auto& k : p.first) m += p.second.count(k); } put(x.dir + "/2", b); Out o = run(x, "VC_ATOOLS", {"-i", "-", "-j", x.dir + "/2", "-c", "fmeasure"}, a); if (!h || !r) { x.check(o.code != 0, "fmeasure-empty", "an F-measure without links"); return; } double P = m / h, R = m / r; ostringstream w; w << "P: " << P << "\nR: " << R << "\nF: " << (m ? 2 * P * R / (P + R) : 0.0) << "\n";
    x.check(o.code == 0 && o.out == w.str(), "fmeasure", [&] { return "'" + vc::esc(o.out) + "' instead of '" + vc::esc(w.str()) + "'"; }); };
  for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) { if (!x.take()) continue; x.desc([=] { return "F-measure of '" + str(links(2, 2, a)) + "' against '" + str(links(2, 2, b)) + "'"; }); fm({{links(2, 2, a), links(2, 2, b)}}); }
  for (int a = 0; a < (th ? 512 : 64); ++a) for (int k = 0; k < 3; ++k) { if (!x.take()) continue; x.desc([=] { return "F-measure of several lines, " + to_string(a); }); x.nontrivial(); L A = links(2, 3, a % 64), B = links(3, 3, a * 7 % 512), C = links(1, 3, a % 8), D = k == 2 ? L{} : links(3, 2, a * 5 % 64); fm({{A, B}, {C, D}, {B, A}, {D, k ? C : B}}); }
}
// ---- part B: AlignmentIO
static void io(vc::X& x, bool th) {
  const int CO[] = {0, 1, 2, 10, 37};
  for (int n = 0; n <= (th ? 3 : 2); ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 25; for (int c = 0; c < tot; ++c) { if (!x.take()) continue; vector<pair<int, int>> v; int q = c; for (int i = 0; i < n; ++i, q /= 25) v.push_back({CO[q % 5], CO[q / 5 % 5]}); string t; for (auto& p : v) t += (t.empty() ? "" : " ") + to_string(p.first) + "-" + to_string(p.second); x.desc([=] { return "'" + t + "'"; }); L l(v.begin(), v.end()); int w = 0, h = 0; for (auto& p : l) { w = max(w, p.first); h = max(h, p.second); } x.step(); if (n > 1) x.nontrivial(); x.state(vc::hstr(str(l)));
      for (auto& s : {t, t + "\n", "x ||| " + t, t + "\r\n"}) { auto g = AlignmentIO::ReadPharaohAlignmentGrid(s); bool ok = (int)g->width() == w + 1 && (int)g->height() == h + 1; for (int i = 0; ok && i <= w; ++i) for (int j = 0; j <= h; ++j) ok = ok && (*g)(i, j) == (l.count({i, j}) > 0); if (!x.check(ok, "grid", [&] { ostringstream o; o << *g; return "'" + vc::esc(s) + "' is read as\n" + o.str(); })) break; ostringstream o; AlignmentIO::SerializePharaohFormat(*g, &o); x.check(o.str() == str(l) + "\n", "round-trip", [&] { return "printed again as " + o.str(); }); ostringstream d; d << *g; x.check(d.str() == display(l), "grid-display", [&] { return d.str() + " instead of " + display(l); }); }
      for (int k = 0; k < (1 << n); ++k) { Array2D<AlignmentIO::AlignmentType> a(w + 1, h + 1, AlignmentIO::kNONE); map<pair<int, int>, int> ty; for (int i = 0; i < n; ++i) ty[v[i]] = k >> i & 1; for (auto& p : ty) a(p.first.first, p.first.second) = p.second ? AlignmentIO::kTRANSLITERATION : AlignmentIO::kTRANSLATION; string e, dp = display(l); for (auto& p : ty) e += string(e.empty() ? "" : " ") + (p.second ? "T:" : "") + to_string(p.first.first) + "-" + to_string(p.first.second); ostringstream o, d; AlignmentIO::SerializeTypedAlignment(a, &o); x.check(o.str() == e + "\n", "typed", [&] { return "typed links printed as " + o.str() + " instead of " + e; }); for (auto& p : ty) if (p.second) dp[(h + 3) + p.first.first * (h + 4) + 1 + p.first.second] = '#'; d << a; x.check(d.str() == dp, "typed-display", [&] { return d.str() + " instead of " + dp; }); } } }
  // every short string: read exactly when well formed, refused when it holds anything foreign
  const string AB = "01- x|"; int mx = th ? 6 : 5; for (int len = 0; len <= mx; ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= AB.size(); for (int c = 0; c < tot; ++c) { string t; int q = c; for (int i = 0; i < len; ++i, q /= AB.size()) t += AB[q % AB.size()]; bool foreign = t.find_first_of("x|") != string::npos, wf = !foreign; S w; { istringstream i(t); string k; while (i >> k) w.push_back(k); } if (!t.empty() && t[0] == ' ') wf = false; L l; for (auto& k : w) { size_t d = k.find('-'); if (d == string::npos || d == 0 || d + 1 == k.size() || k.find('-', d + 1) != string::npos) wf = false; else if (wf) l.insert({atoi(k.c_str()), atoi(k.c_str() + d + 1)}); } bool nodash = !w.empty() && w.back().find('-') == string::npos;
      if (!wf && len == mx && !th && (c % 4)) continue; if (t.find(" ||| ") != string::npos || (!wf && len > 3 && !foreign && !nodash)) continue; if (!x.take()) continue; x.desc([=] { return "alignment string '" + t + "'"; }); x.step(); if (wf && len > 3) x.nontrivial();
      if (wf) { auto g = AlignmentIO::ReadPharaohAlignmentGrid(t); ostringstream o; AlignmentIO::SerializePharaohFormat(*g, &o); x.check(o.str() == str(l) + "\n", "well-formed", [&] { return "read as " + o.str(); }); }
      else { pid_t p = fork(); if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); AlignmentIO::ReadPharaohAlignmentGrid(t); _exit(0); } int st; while (waitpid(p, &st, 0) < 0) {} if (foreign || nodash) x.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "malformed", "accepted"); x.check(!WIFSIGNALED(st) || WTERMSIG(st) == SIGABRT, "malformed-crash", "crashes"); } } }
}
#include "c29_em.inc"
void vc_run(vc::X& x) {
  bool th = x.thorough;
  io(x, th); tables(x, th); diagonal(x, th);
  single(x, 1, 1); single(x, 2, 2); single(x, 3, 3); single(x, 2, 4); single(x, 4, 2); single(x, 1, 11); if (th) { single(x, 3, 4); single(x, 4, 3); single(x, 4, 4); }
  files(x, th);
  pairs(x, 2, 2); pairs(x, 1, 4); pairs(x, 4, 1); pairs(x, 2, 3); pairs(x, 2, 4); pairs(x, 4, 2); pairs(x, 3, 3); if (th) { pairs(x, 3, 4); pairs(x, 2, 5); pairs(x, 5, 2); }
  training(x, th);
}
VC_MAIN(vc_run)
