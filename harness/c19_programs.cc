// C19, second part: the training programs themselves (real mains) against definitions of what they optimise.
#include "compat.h"
#include "vc.h"
#include "hgreal.h"
#include "hg_io.h"
#include "filelib.h"
#include "ns.h"
#include "decoder.h"
#include "ff_register.h"
#include "weights.h"
#include "verbose.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <fcntl.h>
#include <ftw.h>
#include <functional>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
typedef vector<string> S;
typedef long double LD;
typedef map<string, LD> W;      // weights or features by name
static void put(const string& f, const string& t) { ofstream o(f.c_str(), ios::binary); o << t; }
static string get(const string& f) { ReadFile r(f); ostringstream o; o << r.stream()->rdbuf(); return o.str(); }
static string raw(const string& f) { ifstream i(f.c_str(), ios::binary); return string(istreambuf_iterator<char>(i), istreambuf_iterator<char>()); }
static bool there(const string& f) { struct stat s; return !stat(f.c_str(), &s); }
static S lines(const string& t) { S r; istringstream i(t); string l; while (getline(i, l)) r.push_back(l); return r; }
static S words(const string& t) { S r; istringstream i(t); string l; while (i >> l) r.push_back(l); return r; }
static string join(const S& w) { string o; for (auto& s : w) o += (o.empty() ? "" : " ") + s; return o; }
static string num(double d) { ostringstream o; o.precision(17); o << d; return o.str(); }
static string ws(const W& w) { string o; for (auto& e : w) o += e.first + "=" + num(e.second) + " "; return o; }
static W feats(const string& t) { W r; for (auto& f : words(t)) { size_t p = f.rfind('='); r[f.substr(0, p)] = atof(f.c_str() + p + 1); } return r; }
static W weights(const string& t) { W r; for (auto& l : lines(t)) { if (l.empty() || l[0] == '#') continue; S w = words(l); if (w.size() == 2) r[w[0]] = atof(w[1].c_str()); } return r; }
static LD at(const W& w, const string& k) { auto i = w.find(k); return i == w.end() ? 0 : i->second; }
static LD dot(const W& a, const W& b) { LD s = 0; for (auto& e : a) s += e.second * at(b, e.first); return s; }
static string wfile(const W& w) { string t; for (auto& e : w) t += e.first + " " + num(e.second) + "\n"; return t; }
static int drop(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static string BASE; static long SEQ;
// a directory of its own for every case
static void fresh(vc::X& x) { if (BASE.empty()) BASE = x.dir; if (SEQ) nftw(x.dir.c_str(), drop, 16, FTW_DEPTH | FTW_PHYS); x.dir = BASE + "/" + to_string(++SEQ); mkdir(x.dir.c_str(), 0755); }
struct Out { int code, sig; bool hung; string out, err; };
static Out run(vc::X& x, const char* var, S a, const string& in, double limit = 20) {
  string i = x.dir + "/in", o = x.dir + "/out", e = x.dir + "/err"; put(i, in); a.insert(a.begin(), getenv(var)); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(0); x.step(); const char* cwd = x.dir.c_str();
  pid_t p = vfork(); if (!p) { int fi = open(i.c_str(), O_RDONLY), fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); if (chdir(cwd)) _exit(126); execv(v[0], v.data()); _exit(127); }
  int st = 0; bool hung = false; for (int k = 0;; ++k) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; usleep(k < 50 ? 500 : 5000); if (k > limit * 200) { hung = true; kill(p, 9); waitpid(p, &st, 0); break; } }
  return {WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, hung, raw(o), raw(e)}; }
static bool ran(vc::X& x, const Out& o, const string& what) { return x.check(!o.hung && o.code == 0, what + "-failed", [&] { return string(o.hung ? "does not end" : "exit " + to_string(o.code) + " signal " + to_string(o.sig)) + ": " + o.err.substr(o.err.size() > 400 ? o.err.size() - 400 : 0); }); }
// ---- candidates
struct Cand { string w; double a, b; };
typedef vector<Cand> Sent;
struct Item { string w; W f; double cost; double score; };
struct Scorer { EvaluationMetric* m; vector<boost::shared_ptr<SegmentEvaluator>> ev; bool err;
  Scorer(const string& name, const vector<S>& refs) { m = EvaluationMetric::Instance(name); err = m->IsErrorMetric(); for (auto& r : refs) { vector<vector<WordID>> v; for (auto& l : r) { v.emplace_back(); TD::ConvertSentence(l, &v.back()); } ev.push_back(m->CreateSegmentEvaluator(v)); } }
  double score(int s, const string& w) { vector<WordID> v; TD::ConvertSentence(w, &v); SufficientStats t; ev[s]->Evaluate(v, &t); return m->ComputeScore(t); }
  double cost(int s, const string& w) { double q = score(s, w); return err ? q : 1 - q; } };
static void forest(const Sent& s, const string& file) { Hypergraph hg; hg.AddNode(-TD::Convert("X")); for (auto& c : s) { TRulePtr r(new TRule("[X] ||| f ||| e")); r->e_.clear(); for (auto& w : words(c.w)) r->e_.push_back(TD::Convert(w)); auto* e = hg.AddEdge(r, Hypergraph::TailNodeVector()); if (c.a) e->feature_values_.set_value(FD::Convert("F0"), c.a); if (c.b) e->feature_values_.set_value(FD::Convert("F1"), c.b); hg.ConnectEdgeToHeadNode(e->id_, 0); } WriteFile w(file); HypergraphIO::WriteToBinary(hg, w.stream()); }
static string f6(LD a, LD b) { ostringstream o; o.precision(6); o << double(a) << "," << double(b); return o.str(); }
typedef map<pair<string, string>, Cand> Pool;
// the k best of a sentence, merged into what is there; false when a tie makes the choice unspecified
static bool merge(const Sent& s, const W& w, size_t k, Pool* p) { vector<pair<double, int>> v; for (size_t i = 0; i < s.size(); ++i) v.push_back({-(s[i].a * double(at(w, "F0")) + s[i].b * double(at(w, "F1"))), int(i)}); sort(v.begin(), v.end()); if (v.size() > k) { if (fabs(v[k].first - v[k - 1].first) < 1e-9) return false; v.resize(k); } for (auto& q : v) { auto& c = s[q.second]; p->insert({{join(words(c.w)), f6(c.a, c.b)}, c}); } return true; }
static bool repo(vc::X& x, const string& file, const Pool& p, int sent, Scorer& sc, const char* key) {
  if (!x.check(there(file), string(key) + "-missing", [&] { return file.substr(file.rfind('/') + 1) + " was not written"; })) return false;
  S l = lines(get(file)); set<pair<string, string>> got; for (size_t i = 0; i + 2 < l.size() + 0; i += 3) { W f = feats(l[i + 1]); got.insert({join(words(l[i])), f6(at(f, "F0"), at(f, "F1"))}); SufficientStats t(l[i + 2]); double q = sc.m->ComputeScore(t), want = sc.score(sent, l[i]); if (!x.check(fabs(q - want) < 1e-4, string(key) + "-statistics", [&] { return file.substr(file.rfind('/') + 1) + ": '" + l[i] + "' is stored with score " + num(q) + " instead of " + num(want); })) return false; }
  set<pair<string, string>> want; for (auto& e : p) want.insert(e.first); return x.check(l.size() == 3 * p.size() && got == want, key, [&] { string t = file.substr(file.rfind('/') + 1) + " has " + to_string(l.size() / 3) + " candidates:"; for (auto& e : got) if (!want.count(e)) t += " extra '" + e.first + "' " + e.second; for (auto& e : want) if (!got.count(e)) t += " lost '" + e.first + "' " + e.second; return t; }); }
static const vector<vector<Sent>> DOCS = {
  {{{"a b c d", 1, 0}, {"a", 0, 1}, {"a b c e", -1, 3}}},
  {{{"a b c d", 0.5, 0.25}, {"e", 0.5, 2}}, {{"b c d e", 1, 1}, {"a b c d e", -0.5, 1.5}, {"a b", 2, -1}}},
  {{{"a b c d", 1, 1}}, {{"a", 1, 0}, {"a b c d e", 1, 1}, {"a b d c", 0.25, 0.5}}, {{"e b", 0.125, 0}, {"e e b a", 0, 0.125}}},
  {{{"", 1, 0}, {"a b c d", 0, 1}}, {{"a b c", 0, 0}, {"", 1, 1}, {"e b a b c", 3, -1}}},
  {{{"a b c", 1, 2}}},
  {{{"a b c d", 1, 2}, {"a b c d", 1, 3}, {"a b c d", 1, 2.0000000001}, {"d", 2, 2}}, {{"a b c d", 1, 1}, {"a b c d", 1, 1}, {"a b c d", 1, 0.999}}}};
static const vector<vector<Sent>> NEXT = {   // what the decoder produces for the same document with the next weights
  {{{"a b c d e", 0.5, 0.75}, {"a", 0, 1}}},
  {{{"e a b c d", 0.75, 2}}, {{"a b", 2, -1}, {"b c d e", 1, -3}}},
  {{{"a b", 0, 1}, {"a b c d", 1, 1}}, {{"a", 1, 0.5}}, {{"e b", 0.125, 0}, {"e b", 0, 0}}},
  {{{"a", 1, 5}}, {{"", 1, 1.5}, {"a b c", 0, 0}}},
  {{{"a b c", 1, 2}}},
  {{{"d", 2, 2}, {"d d", 0.25, 2}}, {{"a b c d", 1, 1}}}};
static const vector<S> REFS = {{"a b c d", "a b"}, {"a b c d e", "e b a"}, {"e b", "e e b"}};
static const vector<W> START = {{{"F0", 1}, {"F1", 0.5}}, {{"F0", -0.3}, {"F1", 2}}, {{"F0", 0}, {"F1", 0}}, {{"F0", 0.01}, {"F1", -0.02}}, {{"F1", -1}}};
struct Setup { vector<Sent> s; vector<int> id; string refs[2], agenda; vector<S> rf; };
static const int ORDER[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
// the document with its sentences presented in some order
static Setup lay(vc::X& x, const vector<Sent>& d, int order, const string& tag) { Setup r; string dir = x.dir + "/f" + tag; mkdir(dir.c_str(), 0755); for (int k = 0; k < 3; ++k) { int i = ORDER[order][k]; if (i >= int(d.size())) continue; string f = dir + "/" + to_string(i) + ".gz"; forest(d[i], f); r.s.push_back(d[i]); r.id.push_back(i); r.agenda += f + " " + to_string(i) + "\n"; } for (int q = 0; q < 2; ++q) { string t; for (size_t i = 0; i < d.size(); ++i) t += REFS[i][q] + "\n"; put(x.dir + "/ref" + to_string(q), t); } r.rf.assign(REFS.begin(), REFS.begin() + d.size()); return r; }
static string show(const vector<Sent>& d) { string o; for (size_t i = 0; i < d.size(); ++i) { o += "sentence " + to_string(i) + ":"; for (auto& c : d[i]) o += " '" + c.w + "' F0=" + num(c.a) + " F1=" + num(c.b) + ";"; o += "\n"; } return o; }
// ---- minimum risk
struct Val { LD v; W g; };
static Val risk(const vector<vector<Item>>& d, const W& w, LD T) { Val r; r.v = 0; for (auto& c : d) { vector<LD> s, p; LD mx = -1e300L, z = 0; for (auto& i : c) { s.push_back(dot(i.f, w)); mx = max(mx, s.back()); } for (LD q : s) z += expl(q - mx); W mean; for (size_t i = 0; i < c.size(); ++i) { p.push_back(expl(s[i] - mx) / z); for (auto& e : c[i].f) mean[e.first] += p[i] * e.second; } for (size_t i = 0; i < c.size(); ++i) { LD lp = s[i] - mx - logl(z), u = c[i].cost + (p[i] > 0 ? T * lp : 0); r.v += p[i] * u; for (const char* k : {"F0", "F1"}) r.g[k] += p[i] * (at(c[i].f, k) - at(mean, k)) * u; } } return r; }
static void stationary(vc::X& x, const W& g, const W& w, LD C1, LD tol, const string& key, const string& what) { for (auto& e : g) { LD v = at(w, e.first), q = v ? fabsl(e.second + (v > 0 ? C1 : -C1)) : max(LD(0), fabsl(e.second) - C1); if (!x.check(q <= tol, key, [&] { return what + ": not at an optimum, slope " + num(e.second) + " for " + e.first + " at " + ws(w); })) return; } }
static void minrisk(vc::X& x, bool th) {
  const char* M[] = {"IBM_BLEU", "TER", "KOEHN_BLEU"};
  for (size_t d = 0; d < DOCS.size(); ++d) for (size_t st = 0; st < START.size(); ++st) for (int m = 0; m < (th ? 3 : 2); ++m) for (int v = 0; v < 8; ++v) for (int ord = 0; ord < 2; ++ord) { if (!th && (d + st + m + v + ord) % 3) continue; if (!x.take()) continue; fresh(x); const double T = v % 4 == 1 ? 0.5 : v % 4 == 2 ? 0.01 : 0, C = v % 4 == 3 ? 0.05 : v % 4 == 2 ? 0.001 : 0; const bool rp = v < 4 || v == 6; const size_t k = v >= 4 ? v - 3 : 100;
      x.desc([=] { return "minrisk " + string(M[m]) + " T " + num(T) + " C " + num(C) + " k " + to_string(k) + " repository " + to_string(rp) + " order " + to_string(ord) + " weights " + ws(START[st]) + "\n" + show(DOCS[d]); }); x.nontrivial();
      vector<Pool> pool(DOCS[d].size()); W w = START[st]; bool good = true; Scorer sc(M[m], vector<S>(REFS.begin(), REFS.begin() + DOCS[d].size()));
      for (int round = 0; good && round < (rp ? 2 : 1); ++round) { Setup u = lay(x, round ? NEXT[d] : DOCS[d], ord, to_string(round)); put(x.dir + "/w", wfile(w)); S a = {"-r", x.dir + "/ref0", "-r", x.dir + "/ref1", "-w", x.dir + "/w", "-m", M[m], "-T", num(T), "-C", num(C), "-k", to_string(k)}; if (rp) a.insert(a.end(), {"-R", x.dir + "/repo"});
        LD n2 = at(w, "F0") * at(w, "F0") + at(w, "F1") * at(w, "F1"); W w0 = w; if (n2 > 0) for (auto& e : w0) e.second /= sqrtl(n2); for (size_t i = 0; i < u.s.size(); ++i) good = good && merge(u.s[i], w0, k, &pool[u.id[i]]); if (!good) { x.stat("skipped_ties"); break; }
        Out o = run(x, "VC_MINRISK", a, u.agenda); if (!ran(x, o, "minrisk")) break; if (rp) for (size_t i = 0; good && i < pool.size(); ++i) good = repo(x, x.dir + "/repo/kbest." + to_string(i) + ".txt.gz", pool[i], i, sc, "minrisk-repository"); if (!good) break;
        vector<vector<Item>> D; for (size_t i = 0; i < pool.size(); ++i) { D.emplace_back(); for (auto& e : pool[i]) { Item t; t.w = e.second.w; t.f["F0"] = e.second.a; t.f["F1"] = e.second.b; t.cost = sc.cost(i, t.w); D.back().push_back(t); } }
        W r = weights(o.out); auto full = [&](const W& q) { return risk(D, q, T).v + C * (fabsl(at(q, "F0")) + fabsl(at(q, "F1"))); }; LD before = full(w0), after = full(r); if (!x.check(after <= before + 1e-5, "minrisk-worse", [&] { return "objective " + num(after) + " at the result " + ws(r) + ", " + num(before) + " at the start " + ws(w0); })) break;
        size_t p = o.err.find("status code = "); int code = p == string::npos ? -9999 : atoi(o.err.c_str() + p + 14); if (code >= 0 && p != string::npos) stationary(x, risk(D, r, T).g, r, C, 2e-4 * max(LD(1), sqrtl(at(r, "F0") * at(r, "F0") + at(r, "F1") * at(r, "F1"))), "minrisk-stationary", "status " + to_string(code)); else x.stat("status_" + to_string(-code));
        x.state(vc::hstr(o.out)); w = r; } } }
// ---- pairwise ranking: sampling
static void promap(vc::X& x, bool th) {
  const char* M[] = {"IBM_BLEU", "TER", "QCRI_BLEU", "WER"};
  for (size_t d = 0; d < DOCS.size(); ++d) for (size_t st = 0; st < START.size(); ++st) for (int m = 0; m < 4; ++m) for (int v = 0; v < 6; ++v) for (int ord = 0; ord < 2; ++ord) { if (!th && (d + st + m + v + ord) % 4) continue; if (!x.take()) continue; fresh(x); const size_t k = v == 3 ? 1 : v == 4 ? 2 : 100, xi = v == 1 ? 1 : v == 2 ? 0 : v == 5 ? 3 : 50; const int gamma = v == 5 ? 7 : 200;
      x.desc([=] { return "pro map " + string(M[m]) + " k " + to_string(k) + " pairs " + to_string(xi) + " of " + to_string(gamma) + " order " + to_string(ord) + " weights " + ws(START[st]) + "\n" + show(DOCS[d]); }); x.nontrivial();
      vector<Pool> pool(DOCS[d].size()); W w = START[st]; bool good = true; Scorer sc(M[m], vector<S>(REFS.begin(), REFS.begin() + DOCS[d].size()));
      for (int round = 0; good && round < 2; ++round) { Setup u = lay(x, round ? NEXT[d] : DOCS[d], ord, to_string(round)); put(x.dir + "/w", wfile(w)); for (size_t i = 0; i < u.s.size(); ++i) good = good && merge(u.s[i], w, k, &pool[u.id[i]]); if (!good) { x.stat("skipped_ties"); break; }
        Out o = run(x, "VC_PROMAP", {"-r", x.dir + "/ref0", "-r", x.dir + "/ref1", "-w", x.dir + "/w", "-m", M[m], "-K", x.dir + "/repo", "-k", to_string(k), "-G", to_string(gamma), "-X", to_string(xi), "-S", to_string(7 + v)}, u.agenda, 5); if (!ran(x, o, "pro-map")) { good = false; break; } for (size_t i = 0; good && i < pool.size(); ++i) good = repo(x, x.dir + "/repo/kbest." + to_string(i) + ".txt.gz", pool[i], i, sc, "pro-map-repository"); if (!good) break;
        // every line is the difference of two candidates of one sentence, labelled by which one the metric prefers; it is followed by its mirror image
        S l = lines(o.out); if (!x.check(l.size() % 2 == 0, "pro-map-lines", "odd number of lines")) break; vector<vector<tuple<W, int, double>>> all(pool.size()); size_t possible = 0; for (size_t i = 0; i < pool.size(); ++i) for (auto& a : pool[i]) for (auto& b : pool[i]) if (&a != &b) { double ga = sc.score(i, a.second.w), gb = sc.score(i, b.second.w); if (float(ga) == float(gb)) continue; W f; LD fa = LD(a.second.a) - b.second.a, fb = LD(a.second.b) - b.second.b; if (fabsl(fa) > 1e-8) f["F0"] = fa; if (fabsl(fb) > 1e-8) f["F1"] = fb; if (f.empty()) continue; all[i].push_back(make_tuple(f, (ga > gb) != sc.err, fabs(ga - gb))); ++possible; }
        auto match = [&](const W& f, int y, size_t from) { for (size_t q = from; q < u.id.size(); ++q) for (auto& t : all[u.id[q]]) if (get<1>(t) == y) { W g = get<0>(t); if (fabsl(at(g, "F0") - at(f, "F0")) < 1e-5 * (1 + fabsl(at(f, "F0"))) && fabsl(at(g, "F1") - at(f, "F1")) < 1e-5 * (1 + fabsl(at(f, "F1")))) return int(q); } return -1; };
        size_t from = 0, cnt = 0; for (size_t i = 0; good && i < l.size(); i += 2) { W f[2]; int y[2]; for (int k2 = 0; k2 < 2; ++k2) { good = good && l[i + k2].size() > 2 && (l[i + k2][0] == '0' || l[i + k2][0] == '1') && l[i + k2][1] == '\t'; if (good) { y[k2] = l[i + k2][0] - '0'; f[k2] = feats(l[i + k2].substr(2)); } } if (!x.check(good, "pro-map-line", [&] { return "'" + l[i] + "'"; })) break; W neg = f[0]; for (auto& e : neg) e.second = -e.second; if (!x.check(y[0] != y[1] && ws(neg) == ws(f[1]), "pro-map-mirror", [&] { return l[i] + " is followed by " + l[i + 1]; })) { good = false; break; }
          int q = match(f[0], y[0], from); if (!x.check(q >= 0, "pro-map-pair", [&] { return "'" + l[i] + "' is not the labelled difference of two candidates of " + (match(f[0], y[0], 0) >= 0 ? "the remaining sentences" : match(f[0], !y[0], 0) >= 0 ? "a sentence (the label is wrong)" : "any sentence"); })) { good = false; break; } if (size_t(q) > from) { from = q; cnt = 0; } ++cnt; }
        x.check(l.size() / 2 <= xi * u.s.size(), "pro-map-too-many", [&] { return to_string(l.size() / 2) + " pairs"; }); if (gamma == 200 && xi == 50 && possible) x.check(l.size(), "pro-map-none", "no pairs although candidates differ in quality"); x.state(vc::hstr(o.out)); w = {{"F0", 0.5}, {"F1", 0.125}}; } } }
// ---- pairwise ranking: learning
struct Ex { bool y; W f; };
static const vector<vector<Ex>> TRAIN = {
  {{true, {{"A", 1}}}, {false, {{"A", -1}}}}, {{true, {{"A", 1}, {"B", -0.5}}}, {false, {{"A", -1}, {"B", 0.5}}}, {true, {{"B", 2}}}, {false, {{"B", -2}}}}, {{true, {{"A", 3}}}, {true, {{"B", 1}}}, {false, {{"A", 1}, {"B", 1}}}, {true, {{"C", -1}, {"A", 0.25}}}}, {{true, {{"A", 1}}}, {true, {{"A", -1}}}, {true, {{"B", 0.125}}}}, {{false, {{"C", 40}}}, {true, {{"C", 41}, {"A", -1}}}, {false, {{"A", 1e-3}}}}};
static const vector<vector<Ex>> HELD = {{}, {{true, {{"A", -4}, {"B", -1}}}, {true, {{"C", 3}}}}, {{true, {{"A", 1}}}, {false, {{"B", -1}}}, {true, {{"D", 1}}}}};
static string corpus(const vector<Ex>& c) { string t; for (auto& e : c) { t += e.y ? "1\t" : "0\t"; bool first = true; for (auto& f : e.f) { t += string(first ? "" : " ") + f.first + "=" + num(f.second); first = false; } t += "\n"; } return t; }
static LD logistic(const vector<Ex>& c, const W& w, LD bias, W* g, LD* gb) { LD o = 0; for (auto& e : c) { LD s = dot(e.f, w) + bias, z = e.y ? s : -s; o += z > 0 ? log1pl(expl(-z)) : -z + log1pl(expl(z)); LD p = -1 / (1 + expl(z)) * (e.y ? 1 : -1); if (g) for (auto& f : e.f) (*g)[f.first] += p * f.second; if (gb) *gb += p; } return o; }
// best bias for given weights: a convex problem in one variable
static LD best_bias(const vector<Ex>& c, const W& w, LD C, LD T, LD C1) { auto slope = [&](LD b) { LD g = 0; logistic(c, w, b, 0, &g); return g + 2 * (C + T) * b; }; if (fabsl(slope(0)) <= C1) return 0; LD sh = slope(0) > 0 ? -C1 : C1; LD lo = -1e4, hi = 1e4; for (int i = 0; i < 200; ++i) { LD m = (lo + hi) / 2; if (slope(m) + sh > 0) hi = m; else lo = m; } return (lo + hi) / 2; }
// the smooth optimum, by Newton's method with a safeguard
static LD solve(const vector<Ex>& c, LD C, LD T, const W& prev, W* w, const set<string>& fs) { vector<string> n(fs.begin(), fs.end()); const int k = n.size() + 1; *w = prev; LD b = 0; for (auto& s : n) (*w)[s]; auto obj = [&](const W& q, LD bb) { LD o = logistic(c, q, bb, 0, 0) + (C + T) * bb * bb; for (auto& s : n) { LD v = at(q, s), dv = v - at(prev, s); o += C * v * v + T * dv * dv; } return o; };
  for (int it = 0; it < 200; ++it) { W g; LD gb = 0; logistic(c, *w, b, &g, &gb); vector<vector<LD>> H(k, vector<LD>(k + 1, 0)); for (auto& e : c) { LD s = dot(e.f, *w) + b, p = 1 / (1 + expl(-s)), q = p * (1 - p); vector<LD> f; for (auto& s2 : n) f.push_back(at(e.f, s2)); f.push_back(1); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) H[i][j] += q * f[i] * f[j]; } LD n2 = 0; for (int i = 0; i < k; ++i) { H[i][i] += 2 * (C + T); LD gi = i + 1 < k ? g[n[i]] + 2 * C * (*w)[n[i]] + 2 * T * ((*w)[n[i]] - at(prev, n[i])) : gb + 2 * (C + T) * b; H[i][k] = gi; n2 += gi * gi; } if (n2 < 1e-26L) break; for (int i = 0; i < k; ++i) { int pv = i; for (int r = i; r < k; ++r) if (fabsl(H[r][i]) > fabsl(H[pv][i])) pv = r; swap(H[i], H[pv]); for (int r = 0; r < k; ++r) if (r != i && H[i][i] != 0) { LD f = H[r][i] / H[i][i]; for (int q = i; q <= k; ++q) H[r][q] -= f * H[i][q]; } } LD o0 = obj(*w, b), step = 1; for (int h = 0; h < 40; ++h, step /= 2) { W w2 = *w; for (int i = 0; i + 1 < k; ++i) w2[n[i]] -= step * H[i][k] / H[i][i]; LD b2 = b - step * H[k - 1][k] / H[k - 1][k - 1]; if (obj(w2, b2) <= o0) { *w = w2; b = b2; break; } } }
  return b; }
static void proreduce(vc::X& x, bool th) {
  const vector<W> PREV = {{}, {{"A", 1}, {"B", -0.5}}, {{"A", 0.1}, {"C", -3}, {"D", 0.75}}, {{"A", 0}, {"B", 0}, {"C", 0}}};
  for (size_t t = 0; t < TRAIN.size(); ++t) for (size_t h = 0; h < HELD.size(); ++h) for (size_t p = 0; p < PREV.size(); ++p) for (double C : {0.0, 0.05, 2.0}) for (double T : {0.0, 0.3}) for (double C1 : {0.0, 0.1, 3.0}) for (double psi : {1.0, 0.25, 0.0}) for (int tune = 0; tune < 2; ++tune) { if (C + T == 0 && !(C1 > 0)) continue; if (psi != 1 && p == 0) continue; if (tune && (h == 0 || C != 2.0)) continue; if (!th && (t + h + p + int(C * 20) + int(psi * 4) + int(C1 * 10)) % 3) continue; if (!x.take()) continue; fresh(x);
      x.desc([=] { return "pro reduce C " + num(C) + " T " + num(T) + " l1 " + num(C1) + " psi " + num(psi) + " tune " + to_string(tune) + " previous " + ws(PREV[p]) + "\n" + corpus(TRAIN[t]) + "held out\n" + corpus(HELD[h]); }); x.nontrivial();
      S a = {"-C", num(C), "-y", num(T), "--l1", num(C1), "-p", num(psi)}; if (p) { put(x.dir + "/prev", wfile(PREV[p])); a.insert(a.end(), {"-w", x.dir + "/prev"}); } if (h) { put(x.dir + "/held", corpus(HELD[h])); a.insert(a.end(), {"-t", x.dir + "/held"}); } if (tune) a.insert(a.end(), {"-T", "-r", "0.01", "-R", "20"});
      Out o = run(x, "VC_PROREDUCE", a, corpus(TRAIN[t])); if (!ran(x, o, "pro-reduce")) continue; W y = weights(o.out); set<string> fs; for (auto& e : TRAIN[t]) for (auto& f : e.f) fs.insert(f.first); for (auto& e : HELD[h]) for (auto& f : e.f) fs.insert(f.first); for (auto& e : PREV[p]) fs.insert(e.first); for (auto& e : y) if (!x.check(fs.count(e.first), "pro-reduce-feature", "weight for a feature that does not occur")) break;
      S l = lines(o.out); LD usedC = C; LD ppl = -1; if (!x.check(l.size() && l[0].find("# C=") == 0 && l[0].find("perplexity=") != string::npos, "pro-reduce-header", [&] { return l.empty() ? string("no output") : l[0]; })) continue; usedC = atof(l[0].c_str() + 4); string pp = l[0].substr(l[0].find("perplexity=") + 11); if (!x.check((pp == "N/A") == (h == 0), "pro-reduce-header", [&] { return l[0]; })) continue; if (h) ppl = atof(pp.c_str()); if (!tune && !x.check(fabsl(usedC - C) < 1e-12, "pro-reduce-strength", [&] { return l[0]; })) continue;
      auto perplexity = [&](const W& w, LD b) { return powl(2, logistic(HELD[h], w, b, 0, 0) / (logl(2) * HELD[h].size())); };
      if (tune) { vector<array<double, 3>> sw; for (auto& s : l) if (s.find('\t') != string::npos && s.find("# C=") != 0 && s[0] == '#') { array<double, 3> v; if (sscanf(s.c_str(), "# %lf\t%lf\t%lf", &v[0], &v[1], &v[2]) == 3) sw.push_back(v); } if (!x.check(sw.size() >= 18, "pro-reduce-sweep", "too few strengths tried")) continue; bool ok = true; size_t best = 0; for (size_t i = 0; ok && i < sw.size(); ++i) { double c = 0.01 * pow(2000, i / 18.0); double sm = i == 0 || i + 1 == sw.size() ? sw[i][1] : 0.2 * sw[i - 1][1] + 0.6 * sw[i][1] + 0.2 * sw[i + 1][1]; ok = x.check(fabs(sw[i][0] - c) < 1e-6 * c && fabs(sw[i][2] - sm) < 1e-9 * (1 + sm), "pro-reduce-sweep", [&] { return "strength " + num(sw[i][0]) + " perplexity " + num(sw[i][1]) + " smoothed " + num(sw[i][2]) + " expected " + num(sm); }); if (sw[i][2] < sw[best][2]) best = i; if (ok && C1 == 0) { W w; LD b = solve(TRAIN[t], sw[i][0], T, PREV[p], &w, fs); ok = x.check(fabsl(sw[i][1] - perplexity(w, b)) < 2e-3 * perplexity(w, b), "pro-reduce-sweep-perplexity", [&] { return "strength " + num(sw[i][0]) + ": held-out perplexity " + num(sw[i][1]) + ", at the optimum it is " + num(perplexity(w, b)); }); } } if (!ok) continue; if (!x.check(fabsl(usedC - sw[best][0]) < 1e-9 * usedC, "pro-reduce-choice", [&] { return "uses strength " + num(usedC) + " although " + num(sw[best][0]) + " has the best held-out perplexity"; })) continue; }
      size_t sp = o.err.rfind("status code = "); int code = sp == string::npos ? -9999 : atoi(o.err.c_str() + sp + 14); if (code < 0) x.stat("status_" + to_string(-code));
      if (psi == 0) { bool same = true; for (auto& f : fs) same = same && fabsl(at(y, f) - at(PREV[p], f)) < 1e-12; x.check(same, "pro-reduce-interpolation", [&] { return ws(y) + " although only the previous weights count"; }); continue; }
      W w; for (auto& f : fs) { w[f] = psi == 1 ? at(y, f) : (at(y, f) - (1 - psi) * at(PREV[p], f)) / psi; if (fabsl(w[f]) < 1e-15) w[f] = 0; } LD b = best_bias(TRAIN[t], w, usedC, T, C1); W g; for (auto& f : fs) g[f]; logistic(TRAIN[t], w, b, &g, 0); LD n2 = b * b; for (auto& f : fs) { g[f] += 2 * usedC * w[f] + 2 * T * (w[f] - at(PREV[p], f)); n2 += w[f] * w[f]; }
      if (code >= 0) stationary(x, g, w, C1, 3e-4 * max(LD(1), sqrtl(n2)) * (1 + usedC + T), "pro-reduce-optimum", "bias " + num(b) + " status " + to_string(code)); else { auto full = [&](const W& q) { LD bb = best_bias(TRAIN[t], q, usedC, T, C1), r = logistic(TRAIN[t], q, bb, 0, 0) + (usedC + T) * bb * bb + C1 * fabsl(bb); for (auto& f : fs) { LD dv = at(q, f) - at(PREV[p], f); r += usedC * at(q, f) * at(q, f) + T * dv * dv + C1 * fabsl(at(q, f)); } return r; }; W best = w; LD fb = full(w); for (auto& f : fs) for (double s : {0.01, -0.01, 0.1, -0.1}) { W q = w; q[f] += s; x.check(full(q) >= fb - 1e-4 * (1 + fb), "pro-reduce-status", [&] { return "status " + to_string(code) + ": moving " + f + " by " + num(s) + " from " + ws(w) + " improves the objective from " + num(fb) + " to " + num(full(q)); }); } }
      if (h && code >= 0) x.check(fabsl(ppl - perplexity(w, b)) < 3e-3 * perplexity(w, b), "pro-reduce-perplexity", [&] { return "held-out perplexity " + num(ppl) + ", at the result it is " + num(perplexity(w, b)); }); x.state(vc::hstr(o.out)); } }
// ---- rampion
static void rampion(vc::X& x, bool th) {
  const char* M[] = {"IBM_BLEU", "TER", "KOEHN_BLEU", "WER"};
  for (size_t d = 0; d < DOCS.size(); ++d) for (size_t st = 0; st < START.size(); ++st) for (int m = 0; m < 4; ++m) for (int v = 0; v < 8; ++v) for (int ord = 0; ord < 3; ++ord) { if (!th && (d + st + m + v + ord) % 5) continue; if (!x.take()) continue; fresh(x); const unsigned tp = v == 1 ? 0 : v == 2 ? 1 : v == 3 ? 3 : 10, tpp = v == 2 ? 1 : v == 4 ? 0 : v == 5 ? 7 : 5; const double eta = v == 0 ? 1e-4 : v == 6 ? 0.5 : 0.01, C = v == 3 ? 0 : v == 5 ? 10 : 1, al = v == 6 ? 1 : v == 7 ? 0 : 10; const bool rp = v % 2; const size_t k = v == 7 ? 2 : 100;
      x.desc([=] { return "rampion " + string(M[m]) + " I " + to_string(tp) + " J " + to_string(tpp) + " eta " + num(eta) + " C " + num(C) + " alpha " + num(al) + " k " + to_string(k) + " order " + to_string(ord) + " weights " + ws(START[st]) + "\n" + show(DOCS[d]); }); x.nontrivial();
      vector<Pool> pool(DOCS[d].size()); W w = START[st]; bool good = true; Scorer sc(M[m], vector<S>(REFS.begin(), REFS.begin() + DOCS[d].size()));
      for (int round = 0; good && round < (rp ? 2 : 1); ++round) { Setup u = lay(x, round ? NEXT[d] : DOCS[d], ord, to_string(round)); put(x.dir + "/w", wfile(w)); for (size_t i = 0; i < u.s.size(); ++i) good = good && merge(u.s[i], w, k, &pool[u.id[i]]); if (!good) { x.stat("skipped_ties"); break; }
        S a = {"-r", x.dir + "/ref0", "-r", x.dir + "/ref1", "-w", x.dir + "/w", "-m", M[m], "-I", to_string(tp), "-J", to_string(tpp), "--eta", num(eta), "-C", num(C), "-a", num(al), "-k", to_string(k)}; if (rp) a.insert(a.end(), {"-R", x.dir + "/repo"}); Out o = run(x, "VC_RAMPION", a, u.agenda); if (!ran(x, o, "rampion")) { good = false; break; } if (rp) for (size_t i = 0; good && i < pool.size(); ++i) good = repo(x, x.dir + "/repo/kbest." + to_string(i) + ".txt.gz", pool[i], i, sc, "rampion-repository"); if (!good) break;
        W q = w; bool tie = false; const size_t n = u.id.size(); auto best = [&](int s, double sign) { LD b = -1e300L, b2 = -1e300L; const Cand *bc = 0, *b2c = 0; for (auto& e : pool[s]) { LD v2 = e.second.a * at(q, "F0") + e.second.b * at(q, "F1") + sign * al * LD(float(sc.cost(s, e.second.w))); if (v2 > b) { b2 = b; b2c = bc; b = v2; bc = &e.second; } else if (v2 > b2) { b2 = v2; b2c = &e.second; } } if (b2c && b - b2 < 1e-6 && f6(bc->a, bc->b) != f6(b2c->a, b2c->b)) tie = true; return bc; };
        vector<const Cand*> goal(n); for (unsigned i = 0; i < tp; ++i) { for (size_t s = 0; s < n; ++s) goal[s] = best(u.id[s], -1); for (unsigned j = 0; j < tpp; ++j) for (size_t s = 0; s < n; ++s) { auto* f = best(u.id[s], 1); for (auto& e : q) e.second -= e.second * (eta * C / n); q["F0"] += (LD(goal[s]->a) - f->a) * eta; q["F1"] += (LD(goal[s]->b) - f->b) * eta; x.step(); } }
        if (tie) { x.stat("skipped_ties"); break; } W r = weights(o.out); for (const char* f : {"F0", "F1"}) good = good && x.check(fabsl(at(r, f) - at(q, f)) < 1e-6 * (1 + fabsl(at(q, f))), "rampion-update", [&] { return "result " + ws(r) + ", expected " + ws(q) + " from " + ws(w); }); x.state(vc::hstr(o.out)); w = r; } } }
// ---- conditional likelihood
struct Forests : public DecoderObserver { vector<RDeriv> d; bool any = false; void NotifyTranslationForest(const SentenceMetadata&, Hypergraph* hg) { any = HGReal::goal_derivs(*hg, &d); } };
struct Pair { string src, ref; vector<pair<W, bool>> d; };   // derivations and whether they yield the reference
static void likelihood(vc::X& x, bool th) {
  const string RU = "[X] ||| a ||| A ||| P=1 L=0.5\n[X] ||| a ||| B ||| P=-0.5 Q=1\n[X] ||| b ||| B ||| P=0.25\n[X] ||| b ||| C ||| Q=-1 L=1\n[X] ||| a b ||| A B ||| R=1\n[X] ||| a b ||| C A ||| R=0.5 Q=0.25\n[X] ||| a [X,1] ||| A [1] ||| P=1 R=-0.25\n[X] ||| [X,1] a ||| [1] B ||| L=-1\n[X] ||| [X,1] b ||| B [1] ||| L=0.3 Q=0.1\n";
  const string GL[] = {"[S] ||| [X,1] ||| [1] ||| U=1\n[S] ||| [S,1] [X,2] ||| [1] [2] ||| G=1\n", "[S] ||| [X,1] ||| [1] ||| U=0.5\n"};
  const vector<vector<pair<string, string>>> CORP = {{{"a", "A"}}, {{"a", "A"}, {"a b", "A B"}}, {{"a b", "B A"}, {"b", "C"}, {"a", "B"}}, {{"a b a", "A B B"}, {"b a", "B A"}, {"b a", "C C"}}, {{"a", "C"}, {"b", "B"}}, {{"a a b", "A A B"}, {"b b", "B B"}}};
  const vector<W> START2 = {{}, {{"P", 0.5}, {"Q", -0.25}, {"R", 1}, {"L", 0.125}}, {{"P", -1}, {"Q", 2}, {"G", -0.5}, {"U", 3}, {"Z", 1}}}; const vector<W> MEANS = {{}, {{"P", 0.5}, {"L", -1}, {"Z", 2}}};
  static bool reg = false; if (!reg) { register_feature_functions(); SetSilent(true); reg = true; }
  for (int gl = 0; gl < 2; ++gl) for (size_t c = 0; c < CORP.size(); ++c) for (size_t st = 0; st < START2.size(); ++st) for (int v = 0; v < 10; ++v) { if (!th && (gl + c + st + v) % 2) continue; if (!x.take()) continue; fresh(x); const size_t tc = (c + 1 + v) % CORP.size();
      x.desc([=] { string t = "likelihood glue " + to_string(gl) + " weights " + ws(START2[st]) + " variant " + to_string(v); for (auto& p : CORP[c]) t += " (" + p.first + " -> " + p.second + ")"; return t; }); x.nontrivial();
      put(x.dir + "/g", RU + GL[gl]); put(x.dir + "/ini", "formalism=scfg\ngrammar=" + x.dir + "/g\nscfg_no_hiero_glue_grammar=true\n"); istringstream ini("formalism=scfg\ngrammar=" + x.dir + "/g\nscfg_no_hiero_glue_grammar=true\n"); W start = START2[st]; if (start.empty()) start["P"] = 0;
      Decoder dec(&ini); auto load = [&](const vector<pair<string, string>>& cp) { vector<Pair> r; for (auto& p : cp) { Pair q; q.src = p.first; q.ref = p.second; Forests f; dec.Decode(p.first, &f); for (auto& d : f.d) { W w; for (auto& e : d.feats) w[FD::Convert(e.first)] = e.second; q.d.push_back({w, d.estr() == p.second}); } r.push_back(q); } return r; };
      auto value = [&](const vector<Pair>& ps, const W& w, W* g, int* nw) { LD o = 0; for (auto& p : ps) { LD z[2] = {0, 0}; W m[2]; for (auto& d : p.d) { LD e = expl(dot(d.first, w)); z[0] += e; if (d.second) z[1] += e; for (auto& f : d.first) { m[0][f.first] += e * f.second; if (d.second) m[1][f.first] += e * f.second; } } if (!(z[1] > 0)) continue; o += logl(z[0]) - logl(z[1]); if (nw) *nw += words(p.ref).size(); if (g) for (auto& e : m[0]) (*g)[e.first] += e.second / z[0] - at(m[1], e.first) / z[1]; } return o; };
      auto P = load(CORP[c]), TP = load(CORP[tc]); auto text = [](const vector<pair<string, string>>& cp) { string t; for (auto& p : cp) t += p.first + " ||| " + p.second + "\n"; return t; }; put(x.dir + "/train", text(CORP[c])); put(x.dir + "/test", text(CORP[tc])); put(x.dir + "/w", wfile(start));
      auto close = [](LD a, LD b) { return fabsl(a - b) <= 2e-5 * (1 + fabsl(b)); }; auto field = [](const string& t, const string& k) { size_t p = t.find(k); return p == string::npos ? nan("") : atof(t.c_str() + p + k.size()); };
      if (v < 2) { int nw = 0; const W w0 = v ? start : W(); LD o = value(P, w0, 0, &nw); S a = {"-t", x.dir + "/train", "-c", x.dir + "/ini"}; if (v) a.insert(a.end(), {"-w", x.dir + "/w"}); Out r = run(x, "VC_CLLH", a, ""); if (!ran(x, r, "cllh")) continue; x.check(close(field(r.out, "LOG_e LIKELIHOOD: "), o) && close(field(r.out, "LOG_2 LIKELIHOOD: "), o / logl(2)), "cllh", [&] { return r.out + "expected " + num(o); }); if (nw) x.check(close(field(r.out, "CONDITIONAL ENTROPY: "), o / logl(2) / nw) && close(field(r.out, "PERPLEXITY: "), powl(2, o / logl(2) / nw)), "cllh-perplexity", [&] { return r.out + "expected entropy " + num(o / logl(2) / nw); }); x.state(vc::hstr(r.out)); continue; }
      const bool prior = v != 2 && v != 3, means = v == 6 || v == 7, test = v == 4 || v == 6 || v == 3, rprop = v % 2; const LD sq = v == 8 ? 0.1 : v == 9 ? 10 : v == 5 ? 0.5 : 1; W mu = means ? MEANS[1] : W();
      S a = {"-w", x.dir + "/w", "-t", x.dir + "/train", "-c", x.dir + "/ini", "-m", rprop ? "rprop" : "lbfgs"}; if (prior) a.insert(a.end(), {"-p", "--sigma_squared", num(sq)}); if (means) { put(x.dir + "/mu", wfile(mu)); a.insert(a.end(), {"-u", x.dir + "/mu"}); } if (test) a.insert(a.end(), {"-T", x.dir + "/test"}); if (v == 8) a.insert(a.end(), {"-M", "3"});
      set<string> fs = {"P", "Q", "R", "L", "U"}; if (gl == 0) fs.insert("G"); for (auto& e : start) fs.insert(e.first); auto full = [&](const W& w, W* g) { LD o = value(P, w, g, 0); if (prior) for (auto& f : fs) { LD dv = at(w, f) - at(mu, f); o += dv * dv / (2 * sq); if (g) (*g)[f] += dv / sq; } return o; };
      // without a prior the optimum may be at infinity: only run when the slope at the start is zero already or a finite optimum exists is not known, so limit the time
      W g0; LD o0 = full(start, &g0), n0 = 0; for (auto& e : g0) n0 += e.second * e.second; Out r = run(x, "VC_BATCH", a, "", prior ? 20 : 3); if (!prior && r.hung) { x.stat("unbounded_without_prior"); } else if (!ran(x, r, "batch")) continue;
      x.check(close(field(r.err, "EVALUATION #1 OBJECTIVE: "), o0), "batch-objective", [&] { return "first objective " + num(field(r.err, "EVALUATION #1 OBJECTIVE: ")) + " expected " + num(o0) + " at " + ws(start); }); x.check(fabsl(field(r.err, "GNORM=") - sqrtl(n0)) < 2e-5 * (1 + sqrtl(n0)), "batch-gradient", [&] { return "first gradient norm " + num(field(r.err, "GNORM=")) + " expected " + num(sqrtl(n0)) + " at " + ws(start); });
      if (test) { LD t = value(TP, start, 0, 0); x.check(close(field(r.err, "TEST CORPUS: ln p(f|e)="), t), "batch-test", [&] { return "test objective " + num(field(r.err, "TEST CORPUS: ln p(f|e)=")) + " expected " + num(t); }); } if (r.hung || !prior) continue;
      if (!x.check(there(x.dir + "/weights.final.gz"), "batch-final", "weights.final.gz was not written")) continue; string ft = get(x.dir + "/weights.final.gz"); unlink((x.dir + "/weights.final.gz").c_str()); W w = weights(ft); W g; LD o = full(w, &g), n = 0, wn = 0; for (auto& e : g) n += e.second * e.second; for (auto& e : w) wn += e.second * e.second; x.check(o <= o0 + 1e-9, "batch-worse", [&] { return "objective " + num(o) + " at the end, " + num(o0) + " at the start"; }); x.check(close(field(ft, "Objective = "), o), "batch-final-objective", [&] { return "the final weights are labelled with objective " + num(field(ft, "Objective = ")) + ", theirs is " + num(o); });
      x.check(sqrtl(n) <= 1e-2 * max(LD(1), sqrtl(wn)), "batch-optimum", [&] { return "slope " + num(sqrtl(n)) + " at the final weights " + ws(w); }); x.state(vc::hstr(ft)); } }
static void run_all(vc::X& x) { bool th = x.thorough; SetSilent(true); minrisk(x, th); promap(x, th); proreduce(x, th); rampion(x, th); likelihood(x, th); }
VC_MAIN(run_all)
