// C22: the real lmplz against interpolated modified Kneser-Ney computed from the definition.
#include "compat.h"
#include "vc.h"
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <sys/wait.h>
using namespace std;
typedef vector<string> S;
typedef vector<S> Corpus;
static void put(const string& f, const string& t) { ofstream o(f.c_str(), ios::binary); o << t; }
static string get(const string& f) { ifstream i(f.c_str(), ios::binary); return string(istreambuf_iterator<char>(i), istreambuf_iterator<char>()); }
static S words(const string& t) { S r; istringstream i(t); string l; while (i >> l) r.push_back(l); return r; }
static string join(const S& w, const char* sep = " ") { string o; for (size_t i = 0; i < w.size(); ++i) o += (i ? sep : "") + w[i]; return o; }
static string num(double d) { ostringstream o; o.precision(9); o << d; return o.str(); }
struct Out { int code, sig; string out, err; bool hung; };
static Out run(vc::X& x, S a, const string& in) {
  string i = x.dir + "/in", o = x.dir + "/out", e = x.dir + "/err"; put(i, in); a.insert(a.begin(), getenv("VC_LMPLZ")); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(0); x.step();
  pid_t p = vfork(); if (!p) { int fi = open(i.c_str(), O_RDONLY), fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); execv(v[0], v.data()); _exit(127); }
  int st; bool hung = false; for (int t = 0; waitpid(p, &st, WNOHANG) <= 0; ++t) { usleep(t < 40 ? 500 : 5000); if (t == 4000) { kill(p, SIGKILL); hung = true; } } return {WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, get(o), get(e), hung}; }
struct Opt { int N = 2; vector<int> prune; vector<double> fb; bool interp = true; int pad = 0; bool q = false; };
static string show(const Opt& o) { string t = "order " + to_string(o.N); if (o.prune.size()) { t += " prune"; for (int p : o.prune) t += " " + to_string(p); } if (o.fb.size()) { t += " fallback"; for (double p : o.fb) t += " " + num(p); } if (!o.interp) t += " no unigram interpolation"; if (o.pad) t += " pad " + to_string(o.pad); if (o.q) t += " collapsed"; return t; }
static S argv(vc::X& x, const Opt& o, const S& mem) { S a = {"-o", to_string(o.N), "-T", x.dir + "/tmp"}; a.insert(a.end(), mem.begin(), mem.end()); if (!o.interp) { a.push_back("--interpolate_unigrams"); a.push_back("0"); } if (o.pad) { a.push_back("--vocab_pad"); a.push_back(to_string(o.pad)); } if (o.q) a.push_back("--collapse_values"); if (o.prune.size()) { a.push_back("--prune"); for (int p : o.prune) a.push_back(to_string(p)); } if (o.fb.size()) { a.push_back("--discount_fallback"); for (double p : o.fb) a.push_back(num(p)); } return a; }
static const S ROOMY = {"-S", "4000000b", "--vocab_estimate", "100"};
struct PB { double p, b; bool hasb; };
typedef map<S, PB> Grams;
struct Model { vector<Grams> g; bool ok = false; string why; };
// ---- the definition
struct Ref { bool valid = true; vector<Grams> g; int vocab = 0; };
static Ref define(const Corpus& c, const Opt& o) {
  Ref R; const int N = o.N; vector<map<S, long>> real(N + 1), adj(N + 1); vector<map<S, set<string>>> left(N + 1); set<string> voc = {"<unk>", "</s>"};
  for (auto& s : c) { S t(N - 1, "<s>"); if (N == 1) t.clear(); t.insert(t.end(), s.begin(), s.end()); t.push_back("</s>"); for (auto& w : s) voc.insert(w);
    // position of the first real word: N-1; an n-gram may start with at most one <s>
    for (int e = max(N - 1, 0); e < (int)t.size(); ++e) for (int n = 1; n <= N; ++n) { int b = e - n + 1; if (b < 0 || (N > 1 && b < N - 2)) continue; S g(t.begin() + b, t.begin() + e + 1); real[n][g]++; if (n < N && b - 1 >= 0) left[n][g].insert(t[b - 1]); } }
  for (int n = 1; n <= N; ++n) for (auto& g : real[n]) adj[n][g.first] = n == N || g.first[0] == "<s>" ? g.second : (long)left[n][g.first].size();
  adj[1][{"<unk>"}] = 0; adj[1][{"<s>"}] = 0; R.vocab = voc.size(); const double V = max(o.pad, R.vocab);
  vector<vector<double>> D(N + 1, vector<double>(4, 0.0));
  for (int n = 1; n <= N; ++n) { long k[5] = {0, 0, 0, 0, 0}; for (auto& g : adj[n]) if (g.second < 5 && g.second > 0) ++k[g.second]; bool ok = k[1] && k[2] && k[3]; if (ok) { double y = double(k[1]) / (k[1] + 2.0 * k[2]); for (int j = 1; j < 4; ++j) { D[n][j] = j - (j + 1) * y * k[j + 1] / k[j]; if (D[n][j] < 0 || D[n][j] > j) ok = false; } } if (!ok) { if (o.fb.empty()) { R.valid = false; return R; } D[n][0] = 0; for (int j = 0; j < 3; ++j) D[n][j + 1] = o.fb[min<size_t>(j, o.fb.size() - 1)]; } }
  auto pruned = [&](int n, const S& g) { if (n == 1 || o.prune.empty()) return false; int t = o.prune[min<size_t>(n - 1, o.prune.size() - 1)]; return real[n][g] <= t; };
  R.g.resize(N + 1); map<S, double> gam; map<S, double> low, cur; vector<map<S, double>> gamma(N + 1);   // gamma[n]: context of an n-gram
  for (int n = 1; n <= N; ++n) { map<S, vector<pair<S, long>>> by; for (auto& g : adj[n]) by[S(g.first.begin(), g.first.end() - 1)].push_back(g); cur.clear();
    for (auto& q : by) { double den = 0, gm = 0; for (auto& g : q.second) den += g.second; for (auto& g : q.second) gm += pruned(n, g.first) ? g.second : D[n][min(g.second, 3L)]; gm /= den; gamma[n][q.first] = gm;
      for (auto& g : q.second) { if (pruned(n, g.first)) continue; double u = (g.second - D[n][min(g.second, 3L)]) / den, p; if (n == 1) p = o.interp ? u + gm / V : g.first[0] == "<unk>" ? gm : u; else p = u + gm * low[S(g.first.begin() + 1, g.first.end())]; cur[g.first] = p; R.g[n][g.first] = {log10(p), 0, n < N}; } }
    low = cur; }
  for (int n = 1; n < N; ++n) for (auto& g : R.g[n]) { auto it = gamma[n + 1].find(g.first); if (it != gamma[n + 1].end()) g.second.b = log10(it->second); }
  return R; }
// ---- the file
static bool f2d(const string& t, double* d) { char* e; *d = strtod(t.c_str(), &e); return !t.empty() && !*e; }
static Model parse(const string& t, int N, bool header = false) {
  Model m; m.g.resize(N + 1); istringstream in(t); string l; auto bad = [&](const string& w) { m.why = w; return m; }; vector<long> cnt(N + 1, -1);
  while (header && in.peek() == '#') getline(in, l);
  if (!getline(in, l) || l != "\\data\\") return bad("no \\data\\"); for (int n = 1; n <= N; ++n) { if (!getline(in, l)) return bad("header"); string w = "ngram " + to_string(n) + "="; if (l.compare(0, w.size(), w)) return bad("header line " + l); cnt[n] = atol(l.c_str() + w.size()); } getline(in, l); if (!l.empty()) return bad("no empty line after the header");
  for (int n = 1; n <= N; ++n) { getline(in, l); if (l != "\\" + to_string(n) + "-grams:") return bad("section " + l); long k = 0; while (getline(in, l) && !l.empty()) { size_t a = l.find('\t'), b = l.find('\t', a + 1); if (a == string::npos) return bad("line " + l); S g = words(l.substr(a + 1, b == string::npos ? b : b - a - 1)); PB pb; pb.hasb = b != string::npos; pb.b = 0; if ((int)g.size() != n || !f2d(l.substr(0, a), &pb.p) || (pb.hasb && !f2d(l.substr(b + 1), &pb.b))) return bad("line " + l); if (!m.g[n].insert({g, pb}).second) return bad("twice: " + l); ++k; } if (k != cnt[n]) return bad(to_string(k) + " lines in section " + to_string(n) + ", header says " + to_string(cnt[n])); }
  getline(in, l); if (l != "\\end\\") return bad("end " + l); m.ok = true; return m; }
static double score(const Model& m, S ctx, const string& w, int N) { while ((int)ctx.size() > N - 1) ctx.erase(ctx.begin()); double bo = 0; for (;;) { S g = ctx; g.push_back(w); auto it = m.g[g.size()].find(g); if (it != m.g[g.size()].end()) return bo + it->second.p; if (ctx.empty()) return -99; auto c = m.g[ctx.size()].find(ctx); if (c != m.g[ctx.size()].end()) bo += c->second.b; ctx.erase(ctx.begin()); } }
static double sentence(const Model& m, const S& s, int N) { S c = {"<s>"}; double t = 0; S w = s; w.push_back("</s>"); for (auto& v : w) { t += score(m, c, v, N); c.push_back(v); } return t; }
static bool near(double a, double b) { if (std::isinf(a) || std::isinf(b)) return a == b; return fabs(a - b) <= 4e-5 * (1 + fabs(b)); }
static string text(const Corpus& c) { string t; for (auto& s : c) t += join(s) + "\n"; return t; }
static bool compare(vc::X& x, const Corpus& c, const Opt& o, const Ref& R, const Model& m) {
  for (int n = 1; n <= o.N; ++n) { for (auto& g : R.g[n]) { auto it = m.g[n].find(g.first); if (!x.check(it != m.g[n].end(), "gram-missing", [&] { return "'" + join(g.first) + "' is missing"; })) return false; if (n == 1 && g.first[0] == "<s>") { if (o.N > 1 && !x.check(near(it->second.b, g.second.b), "backoff", [&] { return "back-off of <s>: " + num(it->second.b) + ", expected " + num(g.second.b); })) return false; continue; }
      if (!x.check(near(it->second.p, g.second.p), "probability", [&] { return "log10 p of '" + join(g.first) + "': " + num(it->second.p) + ", expected " + num(g.second.p); })) return false;
      if (!x.check(it->second.hasb == (n < o.N) && (n == o.N || near(it->second.b, g.second.b)), "backoff", [&] { return "log10 back-off of '" + join(g.first) + "': " + num(it->second.b) + ", expected " + num(g.second.b); })) return false; }
    for (auto& g : m.g[n]) if (!x.check(R.g[n].count(g.first), "gram-extra", [&] { return "'" + join(g.first) + "' should not be there"; })) return false; }
  // every context is a distribution
  S W; for (auto& g : m.g[1]) if (g.first[0] != "<s>") W.push_back(g.first[0]); set<S> ctx = {{}}; for (int n = 1; n < o.N; ++n) for (auto& g : m.g[n]) if (g.first.back() != "</s>") ctx.insert(g.first); const int V = max(o.pad, R.vocab);
  for (auto& k : ctx) { double t = 0; for (auto& w : W) t += pow(10, score(m, k, w, o.N)) * (w == "<unk>" && o.pad > R.vocab ? o.pad - R.vocab + 1 : 1); x.step(); if (!x.check(fabs(t - 1) < 2e-4, "sum", [&] { return "after '" + join(k) + "' the probabilities of the " + to_string(V) + " words sum to " + num(t); })) return false; }
  return true; }
static void one(vc::X& x, const Corpus& c, const Opt& o, const S& mem = ROOMY) {
  Ref R = define(c, o); if (c.size() > 1) x.nontrivial(); string in = text(c);
  Out r = run(x, argv(x, o, mem), in); if (!x.check(!r.hung, "hang", "lmplz did not end")) return;
  if (!R.valid) { x.check(r.code != 0 && r.out.find("\\end\\") == string::npos, "undefined-discounts", [&] { return "a model although the discounts are undefined:\n" + r.out; }); x.stat("refused"); return; }
  x.stat("models"); Model m = parse(r.out, o.N); if (!x.check(r.code == 0 && m.ok, "file", [&] { return m.why + ", exit " + to_string(r.code) + "/" + to_string(r.sig) + "\n" + r.err.substr(r.err.size() > 400 ? r.err.size() - 400 : 0); })) return;
  if (!o.q) { compare(x, c, o, R, m); x.state(vc::hstr(r.out)); return; }
  // collapsed values: the same sentence probabilities, no back-off
  Opt o2 = o; o2.q = false; Ref R2 = define(c, o2); Model d; d.g = R2.g; set<string> W; for (auto& s : c) for (auto& w : s) W.insert(w); vector<S> sents = {{}}; for (size_t i = 0; i < sents.size() && sents[i].size() < 3; ++i) for (auto& w : W) { S t = sents[i]; t.push_back(w); sents.push_back(t); if (sents.size() > 400) break; } for (auto& s : c) sents.push_back(s);
  for (auto& g : m.g) for (auto& e : g) if (!x.check(e.second.b == 0, "collapsed-backoff", [&] { return "'" + join(e.first) + "' has a back-off of " + num(e.second.b); })) return;
  for (int n = 1; n <= o.N; ++n) if (!x.check(m.g[n].size() == R2.g[n].size(), "collapsed-grams", [&] { return to_string(m.g[n].size()) + " entries of order " + to_string(n); })) return;
  // a context that leaves nothing for other words: the collapsed values divide by zero
  for (auto& g : R2.g) for (auto& e : g) if (std::isinf(e.second.b)) { x.stat("collapsed_undefined"); return; }
  // the back-off of <s> is in the value of <s> itself, which no sentence score contains
  double s0 = o.N > 1 ? R2.g[1][{"<s>"}].b : 0; for (auto& s : sents) { double a = sentence(m, s, o.N) + s0, b = sentence(d, s, o.N); x.step(); if (!x.check(fabs(a - b) <= 1e-4 * (1 + fabs(b)), "collapsed-sentence", [&] { return "'" + join(s) + "' scores " + num(a) + ", with back-off " + num(b); })) return; }
  x.state(vc::hstr(r.out)); }
static const vector<vector<double>> FB = {{0.5, 1, 1.5}, {0.25}, {0, 0.5}, {1, 2, 3}};
// a larger corpus made by a rule
static Corpus grown(int k, int n) { Corpus c; unsigned s = 12345 + 7919 * k; const int A = 3 + k % 4; for (int i = 0; i < n; ++i) { S t; int len = (i * (k + 3)) % 7; int cur = i % A; for (int j = 0; j < len; ++j) { s = s * 1103515245u + 12345u; cur = (s >> 16) % 3 == 0 ? (cur + 1) % A : (s >> 20) % 5 < 2 ? cur : (cur * 2 + j) % A; t.push_back(string(1, 'a' + cur) + ((s >> 8) % 23 == 0 ? to_string(i) : "")); } c.push_back(t); } return c; }
static void small(vc::X& x, bool th) {
  vector<S> sents = {{}}; for (size_t i = 0; i < sents.size() && sents[i].size() < 3; ++i) for (const char* w : {"a", "b"}) { S t = sents[i]; t.push_back(w); sents.push_back(t); }
  vector<Opt> opts; for (int N = 1; N <= 4; ++N) for (int f = 0; f < 4; ++f) { Opt o; o.N = N; o.fb = FB[f]; if (f == 0 || N == 2) opts.push_back(o); if (f < 2) { if (f == 0) { o.interp = false; opts.push_back(o); o.interp = true; o.pad = 9; opts.push_back(o); o.pad = 0; o.q = true; opts.push_back(o); o.q = false; } if (N >= 2) { vector<vector<int>> P = {{0, 1}, {0, 2}}; if (N >= 3) { P.push_back({0, 0, 1}); P.push_back({0, 1, 2}); } if (N == 4) { P.push_back({0, 0, 0, 1}); P.push_back({0, 1, 1, 3}); } for (auto& p : P) { o.prune = p; opts.push_back(o); if (f == 0 && p.back() == 1 && N >= 3) { o.q = true; opts.push_back(o); o.q = false; o.interp = false; opts.push_back(o); o.interp = true; } } o.prune.clear(); } } }
  { Opt o; o.N = 2; opts.push_back(o); }
  const int M = sents.size(); unsigned long cse = 0;
  auto each = [&](const Corpus& c) { for (size_t k = 0; k < opts.size(); ++k) { ++cse; if ((cse + cse / opts.size()) % (th ? 3 : 24)) continue; if (!x.take()) continue; Opt o = opts[k]; x.desc([=] { return show(o) + "\n" + text(c); }); one(x, c, o); } };
  for (int i = 0; i < M; ++i) each({sents[i]}); for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) each({sents[i], sents[j]}); for (int i = 0; i < M; ++i) for (int j = i; j < M; ++j) for (int k = j; k < M; ++k) each({sents[i], sents[j], sents[k]}); }
static void large(vc::X& x, bool th) {
  for (int k = 0; k < (th ? 40 : 8); ++k) for (int n : {12, 60, 200, 900}) for (int N = 1; N <= 5; ++N) for (int v = 0; v < 7; ++v) { if (n == 900 && k > 1) continue; if (!th && (k + N + v) % 2) continue; Opt o; o.N = N; if (v) o.fb = FB[v == 6 ? 1 : v % 4]; if (v == 2) o.prune = {0, 0, 1}; if (v == 3) o.prune = {0, 1, 2}; if (v == 5) o.prune = {0, 1}; if (v == 4) o.q = true; if (v == 6) { o.q = true; o.prune = {0, 2}; } if ((int)o.prune.size() > N) o.prune.resize(N); if (!x.take()) continue; x.desc([=] { return show(o) + ", corpus " + to_string(k) + " of " + to_string(n) + " lines"; }); one(x, grown(k, n), o); } }
// the same bytes at any memory setting
static void memory(vc::X& x, bool th) {
  const long SZ[] = {3000, 6000, 9000, 20000, 50000, 200000, 4000000}; const long MB[] = {1, 64, 300, 2000}; const long SB[] = {1000, 3000, 100000}; const int BC[] = {2, 3, 5, 1};
  for (int k = 0; k < (th ? 6 : 2); ++k) for (int n : {1, 12, 200}) for (int N = 1; N <= (th ? 4 : 3); ++N) for (int pr = 0; pr < (N > 1 ? 3 : 1); ++pr) { Opt o; o.N = N; o.fb = FB[0]; if (pr == 1) o.prune = {0, 1}; if (pr == 2) o.prune = N == 2 ? vector<int>{0, 3} : vector<int>{0, 0, 1}; Corpus c = grown(k, n); string want; int e = 0;
        for (long S_ : SZ) for (long mb : MB) for (long sb : SB) for (int bc : BC) { ++e; if ((e + k + n + N) % (th ? 2 : 9)) continue; if (!x.take()) continue; x.desc([=] { return show(o) + ", corpus " + to_string(k) + " of " + to_string(n) + " lines, memory " + to_string(S_) + " minimum block " + to_string(mb) + " sort block " + to_string(sb) + " block count " + to_string(bc); });
            if (want.empty()) { Out w = run(x, argv(x, o, ROOMY), text(c)); want = w.out; if (!x.check(w.code == 0 && want.size() > 10, "memory-roomy", "no model with plenty of memory: " + w.err.substr(w.err.size() > 300 ? w.err.size() - 300 : 0))) continue; x.state(vc::hstr(want)); }
            Out r = run(x, argv(x, o, {"-S", to_string(S_) + "b", "--minimum_block", to_string(mb) + "b", "--sort_block", to_string(sb) + "b", "--block_count", to_string(bc), "--vocab_estimate", "1"}), text(c)); x.nontrivial();
            if (!x.check(!r.hung, "memory-hang", "lmplz did not end")) continue;
            if (r.code != 0) { x.stat("refused_memory"); x.check(r.out.find("\\end\\") == string::npos && (mb < 300 ? S_ < 100000 : r.code == 1 && (min(sb, S_ / 4) < mb || S_ < mb * N * bc)), "memory-refused", [&] { return "exit " + to_string(r.code) + "/" + to_string(r.sig) + ": " + r.err.substr(r.err.size() > 600 ? r.err.size() - 600 : 0); }); continue; }
            x.check(r.out == want, "memory-output", [&] { return "another model than with plenty of memory:\n" + r.out.substr(0, 300); }); } } }
// the text: separators, special symbols, header, vocabulary file
static void texts(vc::X& x, bool th) {
  const vector<pair<string, Corpus>> T = {{"a b\nb\n", {{"a", "b"}, {"b"}}}, {"a b\nb", {{"a", "b"}, {"b"}}}, {" a\t b \n\n\tb\r\n", {{"a", "b"}, {}, {"b"}}}, {string("a\0b\nb\n", 6), {{"a", "b"}, {"b"}}}, {"\n", {{}}}, {"a\n\n\n", {{"a"}, {}, {}}}, {"a <s> b\nb </s>\n<unk> a\n", {{"a", "b"}, {"b"}, {"a"}}}, {"<s>\n", {{}}}, {"<S> <UNK> <unkn>\n", {{"<S>", "<UNK>", "<unkn>"}}}, {"\xc3\xa9 \xc3\xa9\xe2\x80\x83x\n", {{"\xc3\xa9", "\xc3\xa9\xe2\x80\x83x"}}}};
  for (size_t t = 0; t < T.size(); ++t) for (int N = 1; N <= 3; ++N) for (int how = 0; how < 8; ++how) { if (!x.take()) continue; Opt o; o.N = N; o.fb = FB[0]; const string in = T[t].first; const Corpus& c = T[t].second; x.desc([=] { return show(o) + " text '" + vc::esc(in) + "' variant " + to_string(how); }); x.nontrivial(); bool special = in.find("<s>") != string::npos || in.find("</s>") != string::npos || in.find("<unk>") != string::npos;
        S a = argv(x, o, ROOMY); if (how & 1) a.push_back("--skip_symbols"); string f = x.dir + "/text", arpa = x.dir + "/arpa", vf = x.dir + "/voc"; unlink(arpa.c_str()); unlink(vf.c_str()); if (how & 2) { put(f, in); a.insert(a.end(), {"--text", f, "--arpa", arpa}); } if (how & 4) a.insert(a.end(), {"--verbose_header", "--vocab_file", vf});
        Out r = run(x, a, how & 2 ? "" : in); string got = how & 2 ? get(arpa) : r.out; if (special && !(how & 1)) { x.check(r.code != 0 && got.find("\\end\\") == string::npos, "symbols", "special symbols accepted"); continue; }
        if (how & 4) { long tok = 0; for (auto& s : c) tok += s.size(); x.check(got.find("# Token count: " + to_string(tok) + "\n") != string::npos, "token-count", [&] { return got.substr(0, 200); }); if (how & 2) x.check(got.find("# Input file: " + f + "\n") != string::npos, "input-file", [&] { return got.substr(0, 200); });
          S W = {"<unk>", "<s>", "</s>"}; for (auto& s : c) for (auto& w : s) if (find(W.begin(), W.end(), w) == W.end()) W.push_back(w); string v; for (auto& w : W) v += w + string(1, '\0'); x.check(get(vf) == v, "vocabulary-file", [&] { return vc::esc(get(vf)); }); }
        Model m = parse(got, N, how & 4); if (!x.check(r.code == 0 && m.ok, "text-file", [&] { return m.why + ", exit " + to_string(r.code) + "\n" + r.err.substr(r.err.size() > 400 ? r.err.size() - 400 : 0); })) continue; compare(x, c, o, define(c, o), m); x.state(vc::hstr(got)); }
  // options that must be refused
  const vector<S> BAD = {{"--prune", "1"}, {"--prune", "0", "2", "1"}, {"--prune", "0", "1", "1", "1"}, {"--prune", "0", "x"}, {"--discount_fallback", "2"}, {"--discount_fallback", "0.5", "1", "4"}, {"--discount_fallback", "-0.5"}, {"--discount_fallback", "0.1", "0.1", "0.1", "0.1"}, {"--vocab_pad", "10", "--interpolate_unigrams", "0"}};
  for (auto& b : BAD) { if (!x.take()) continue; x.desc([=] { return "options " + join(b); }); S a = {"-o", "3", "-T", x.dir + "/tmp"}; a.insert(a.end(), ROOMY.begin(), ROOMY.end()); if (b[0] != "--discount_fallback") a.push_back("--discount_fallback"); a.insert(a.end(), b.begin(), b.end()); Out r = run(x, a, "a b\n"); x.nontrivial(); x.check(r.code != 0 && r.out.find("\\end\\") == string::npos, "bad-options", "accepted"); }
}
static void run_all(vc::X& x) { bool th = x.thorough; small(x, th); large(x, th); memory(x, th); texts(x, th); }
VC_MAIN(run_all)
