// C34: the language model filter keeps exactly the n-grams usable with the given vocabulary, sentence by sentence, under every schedule of its threads.
#include "vc.h"
#include "vsched.h"
#include "util/file.hh"
#include <fcntl.h>
#include <unistd.h>
#define main filter_main
#include "lm/filter/filter_main.cc"
#undef main
#include <sys/wait.h>
using namespace std;
typedef vector<string> W; typedef vector<W> S;                      // words; a sentence is a list of phrases (or one list of words)
struct NG { W w; string line; };
static W split(const string& s) { W r; istringstream i(s); string t; while (getline(i, t, ' ')) if (!t.empty()) r.push_back(t); return r; }
static bool tag(const string& w) { return w[0] == '<' && w[w.size() - 1] == '>'; }
static string cat(const W& w, const char* sep = " ") { string r; for (auto& x : w) r += (r.empty() ? "" : sep) + x; return r; }
// is w a piece of some sequence of the phrases?
static bool tiles(const S& ph, const W& w, size_t at, size_t in_phrase, size_t off) { for (size_t j = off; j < ph[in_phrase].size(); ++j) { if (at == w.size()) return true; if (ph[in_phrase][j] != w[at]) return false; ++at; } if (at == w.size()) return true; for (size_t p = 0; p < ph.size(); ++p) if (tiles(ph, w, at, p, 0)) return true; return false; }
static bool covers(const S& ph, const W& w) { if (w.empty()) return true; for (size_t p = 0; p < ph.size(); ++p) for (size_t o = 0; o < ph[p].size(); ++o) if (tiles(ph, w, 0, p, o)) return true; return false; }
struct Opt { string mode; bool phrase, context, raw; int threads, batch; bool vocab_file; string str() const { return mode + (context ? " context" : "") + (phrase ? " phrase" : "") + (raw ? " raw" : " arpa") + " threads:" + to_string(threads) + " batch_size:" + to_string(batch) + (vocab_file ? " vocab:" : " model:"); } };
static vector<bool> keep(const Opt& o, const vector<S>& sent, W w) {    // which of the sentences the n-gram can be used in
  vector<bool> r(sent.size()); if (o.context && !w.empty()) w.pop_back();
  if (o.phrase) { W v; for (size_t i = 0; i < w.size(); ++i) { if (!i && tag(w[0])) continue; if (w[i] == "</s>") break; v.push_back(w[i]); } for (size_t i = 0; i < sent.size(); ++i) r[i] = covers(sent[i], v); }
  else for (size_t i = 0; i < sent.size(); ++i) { r[i] = true; for (auto& t : w) if (!tag(t)) { bool in = false; for (auto& p : sent[i]) for (auto& q : p) in = in || q == t; if (!in) r[i] = false; } }
  return r;
}
struct Out { vector<vector<string>> o; bool operator==(const Out& b) const { return o == b.o; } };
struct Collect { Out* out; void ReserveForCounts(streampos) {} void BeginLength(unsigned l) { out->o.resize(l); } void AddNGram(const StringPiece&, const StringPiece& line) { out->o.back().push_back(line.as_string()); } void EndLength(unsigned) {} void Finish() {} };
static string slurp(const string& f) { ifstream i(f.c_str()); stringstream s; s << i.rdbuf(); return s.str(); }
static string read(const string& f, bool raw, Out& out) {
  if (access(f.c_str(), R_OK)) return "no file"; out.o.clear(); string t = slurp(f);
  if (raw) { out.o.resize(1); istringstream i(t); string l; while (getline(i, l)) out.o[0].push_back(l); if (!t.empty() && t[t.size() - 1] != '\n') return "does not end in a newline"; return ""; }
  if (t.size() > 2 && !(t[0] == '\n' && t[1] == '\\')) return "does not begin like an ARPA file"; int in = open(f.c_str(), O_RDONLY); try { util::FilePiece p(in); Collect c{&out}; lm::ReadARPA(p, c); } catch (const std::exception& e) { return string("unreadable: ") + e.what(); } return "";
}
static string model_text(const vector<vector<NG>>& m, bool raw) { ostringstream o; if (raw) { for (auto& v : m) for (auto& g : v) o << g.line << '\n'; return o.str(); } o << "\\data\\\n"; for (size_t n = 0; n < m.size(); ++n) o << "ngram " << n + 1 << '=' << m[n].size() << '\n'; for (size_t n = 0; n < m.size(); ++n) { o << "\n\\" << n + 1 << "-grams:\n"; for (auto& g : m[n]) o << g.line << '\n'; } o << "\n\\end\\\n"; return o.str(); }
static void save(const string& f, const string& t) { ofstream o(f.c_str()); o << t; }
static int call(int (*f)(int, char**), const W& a) { vector<char*> v; for (auto& s : a) v.push_back(const_cast<char*>(s.c_str())); v.push_back(0); return f(a.size(), &v[0]); }
// one run of the program; "" or what is wrong
static string judge(const string& dir, const Opt& o, const vector<vector<NG>>& m, const vector<S>& sent, const string& vocab, const string& mfile, const string& vfile) {
  size_t files = o.mode == "multiple" ? sent.size() : 1; string base = dir + "/out"; for (size_t i = 0; i < files + 2; ++i) unlink((base + (o.mode == "multiple" ? to_string(i) : "")).c_str());
  W a = {"filter"}; a.push_back(o.mode); if (o.context) a.push_back("context"); if (o.phrase) a.push_back("phrase"); if (o.raw) a.push_back("raw"); a.push_back("threads:" + to_string(o.threads)); a.push_back("batch_size:" + to_string(o.batch)); a.push_back(o.vocab_file ? "vocab:" + vfile : "model:" + mfile); a.push_back(base);
  istringstream vi(vocab); streambuf* ci = cin.rdbuf(vi.rdbuf()); cin.clear(); int keep0 = -1; if (o.vocab_file) { keep0 = dup(0); int f = open(mfile.c_str(), O_RDONLY); dup2(f, 0); close(f); }
  int rc = call(filter_main, a); cin.rdbuf(ci); if (keep0 >= 0) { dup2(keep0, 0); close(keep0); }
  if (rc) return "exit status " + to_string(rc);
  for (size_t i = 0; i < files; ++i) {
    Out want, got; if (o.raw) want.o.resize(1);
    for (size_t n = 0; n < m.size(); ++n) { if (!o.raw) want.o.resize(n + 1); for (auto& g : m[n]) { if (g.line.empty()) continue; vector<bool> k = keep(o, sent, g.w); bool in = o.mode == "copy" || (o.mode == "multiple" ? k[i] : find(k.begin(), k.end(), true) != k.end()); if (in) want.o.back().push_back(g.line); } }
    string f = base + (o.mode == "multiple" ? to_string(i) : ""), e = read(f, o.raw, got); if (!e.empty()) return "output " + to_string(i) + ": " + e;
    if (!(got == want)) { ostringstream s; s << "output " << i << " differs:"; for (size_t n = 0; n < max(got.o.size(), want.o.size()); ++n) { if (n >= got.o.size() || n >= want.o.size()) { s << " order " << n + 1 << " only in one"; break; } multiset<string> A(got.o[n].begin(), got.o[n].end()), B(want.o[n].begin(), want.o[n].end()); int c = 0; for (auto& l : A) if (A.count(l) > B.count(l) && c++ < 6) s << "\n   not to be kept: " << l; c = 0; for (auto& l : B) if (B.count(l) > A.count(l) && c++ < 6) s << "\n   missing: " << l; if (A == B && got.o[n] != want.o[n]) s << "\n   in another order"; } return s.str(); }
  }
  if (o.mode == "multiple" && !access((base + to_string(files)).c_str(), F_OK)) { unlink((base + to_string(files)).c_str()); return "more files than sentences"; }
  return "";
}
static NG gram(const W& w, bool raw, int& k, bool last) { NG g; g.w = w; ++k; if (raw) g.line = cat(w) + (k % 3 ? "\t" + to_string(k % 7) : "") + (k % 5 ? "" : k % 3 ? " more text\tand a tab" : ""); else g.line = "-" + to_string(k % 9) + "." + to_string(k) + "\t" + cat(w) + (last || k % 4 == 0 ? "" : "\t-0." + to_string(k % 10)); return g; }
static vector<vector<NG>> model(int which, bool raw) {
  vector<vector<NG>> m; int k = 0; W all = {"a", "b", "cc", "<s>", "</s>", "<unk>"};
  if (which == 0) { m.resize(5); for (int n = 1; n <= 5; ++n) { size_t b = n <= 3 ? 6 : n == 4 ? 3 : 2, N = 1; for (int i = 0; i < n; ++i) N *= b; for (size_t q = 0; q < N; ++q) { W w; size_t t = q; for (int i = 0; i < n; ++i) { w.push_back(all[t % b]); t /= b; } m[n - 1].push_back(gram(w, raw, k, n == 5)); } } for (W w : {W{"<s>", "a", "b", "a", "</s>"}, W{"<s>", "b", "b", "cc", "a"}, W{"a", "cc", "cc", "b", "</s>"}}) m[4].push_back(gram(w, raw, k, true)); }
  if (which == 1) { m.resize(2); for (W w : {W{"a"}, W{"<s>"}, W{"\xc3\xa4\xff"}, W{"a<"}, W{"<"}, W{">"}, W{"<b>c"}, W{"</s>"}, W{string(300, 'q')}, W{"aa"}}) m[0].push_back(gram(w, raw, k, false)); for (auto& g : vector<NG>(m[0])) for (auto& h : vector<NG>(m[0])) m[1].push_back(gram({g.w[0], h.w[0]}, raw, k, true)); }
  if (which == 2) { m.resize(3); if (raw) m[0].push_back(NG()); m[0].push_back(gram({"a"}, raw, k, false)); m[0].push_back(gram({"b"}, raw, k, false)); m[1].push_back(gram({"a", "b"}, raw, k, false)); }   // an order without n-grams
  if (which == 3) { m.resize(2); for (int i = 0; i < 130; ++i) { m[0].push_back(gram({"w" + to_string(i)}, raw, k, false)); m[1].push_back(gram({"w" + to_string(i), "w" + to_string(i * 7 % 130)}, raw, k, true)); } }
  return m;
}
static string words_text(const vector<S>& sent, int style) { string t; for (size_t i = 0; i < sent.size(); ++i) { for (size_t p = 0; p < sent[i].size(); ++p) t += string(p ? style == 1 ? " \t" : "\t" : "") + cat(sent[i][p], style == 1 ? "  " : " "); if (i + 1 < sent.size() || style != 2) t += style == 1 ? " \n" : "\n"; } return t; }
static void run(vc::X& x) {
  sched::pin(x.shard); static ofstream nul("/dev/null"); streambuf* ce = cerr.rdbuf(); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  string mf = x.dir + "/model", vf = x.dir + "/vocab";
  W pool = {"a", "b", "cc", "a b", "b a", "b b", "a cc", "cc a b", "a b a", "b a b cc", "a a", "<unk> b"}; vector<S> phr; auto S1 = [&](initializer_list<int> l) { S s; for (int i : l) s.push_back(split(pool[i])); return s; };
  for (int i = 0; i < (int)pool.size(); ++i) phr.push_back(S1({i})); for (int i = 0; i < (int)pool.size(); ++i) for (int j = 0; j < i; ++j) phr.push_back(S1({i, j})); size_t two = phr.size(); for (int i = 2; i < (int)pool.size(); i += 2) for (int j = 1; j < i; j += 2) for (int k = 0; k < j; k += 1 + !x.thorough) phr.push_back(S1({i, j, k}));
  vector<S> voc; for (int b = 1; b < 16; ++b) { S s(1); for (int i = 0; i < 4; ++i) if (b >> i & 1) s[0].push_back(W{"a", "b", "cc", "<unk>"}[i]); voc.push_back(s); } voc.push_back({{"b", "a", "b", "\xc3\xa4\xff", "<", "w7"}}); voc.push_back({{string(300, 'q'), "aa", "w14", "w98", "w10", "a<"}}); voc.push_back({{"<b>c", ">"}});
  for (int which = 0; which < 4; ++which) for (int raw = 0; raw < 2; ++raw) {
    auto m = model(which, raw); string text = model_text(m, raw);
    auto one = [&](const string& mode, bool phrase, const vector<S>& sent, int style) { for (int context = 0; context < (mode == "copy" ? 1 : 2); ++context) for (int vfile = 0; vfile < 2; ++vfile) { if (vfile && style == 0 && sent.size() % 2) continue; string v = words_text(sent, style); if (vfile) save(vf, v); Opt o{mode, phrase, (bool)context, (bool)raw, 1, 25000, (bool)vfile};
      string e = judge(x.dir, o, m, sent, v, mf, vf); x.step(); x.check(e.empty(), e.substr(0, 12) + mode, [&] { return o.str() + ", model " + to_string(which) + ", vocabulary\n" + v + e; }); x.state(vc::hstr(o.str() + v, which)); } };
    auto batch = [&](const string& d, const function<void()>& f) { if (!x.take()) return; x.desc([=] { return "model " + to_string(which) + (raw ? " raw, " : " arpa, ") + d; }); save(mf, text); f(); x.nontrivial(); };
    batch("words, one sentence", [&] { one("copy", false, {voc[0]}, 0); for (auto& a : voc) for (int st = 0; st < 3; ++st) for (auto md : {"single", "union", "multiple"}) one(md, false, {a}, st); });
    for (size_t i = 0; i < voc.size(); ++i) { if (which && i % 3 != (size_t)which % 3) continue; batch("words, sentence " + to_string(i) + " with others", [&] { for (size_t j = 0; j < voc.size(); ++j) { for (auto md : {"union", "multiple"}) { one(md, false, {voc[i], voc[j]}, (i + j) % 3); if (which == 0) for (size_t l = j % 3; l < voc.size(); l += x.thorough ? 3 : 9) one(md, false, {voc[i], voc[j], voc[l]}, 0); } } }); }
    for (size_t i = 0; i < phr.size(); ++i) { if (which == 3 || (which && i % 4)) continue; batch("phrases, sentence " + to_string(i), [&] { for (auto md : {"union", "multiple"}) { for (int st = 0; st < 3; ++st) one(md, true, {phr[i]}, st); if (which == 0) for (size_t j = i % 7; j < phr.size(); j += x.thorough ? 7 : 49) { one(md, true, {phr[i], phr[j]}, 0); one(md, true, {phr[j], phr[(i + j) % two], phr[i]}, 0); } } }); }
  }
  // vocabulary of the target sides of a phrase table
  { W src = {"a", "b", "a b", "b a", "a b a", "b b a b", "a  b", " a", "a a a a a a a", "a a a a a a a a", "a\tb"}; W table = {"a ||| x ||| 1", "b ||| y z ||| 2", "a b ||| x w ||| 1", "b a ||| \xc3\xa4  v", "a a a a a a a ||| seven", "a a a a a a a a ||| eight", "c ||| never"};
    for (size_t i = 0; i < src.size(); ++i) { if (!x.take()) continue; x.desc([=] { return "target words for " + src[i]; }); x.nontrivial();
      for (size_t j = 0; j < src.size(); ++j) for (int rot = 0; rot < (int)table.size(); ++rot) { W t = table; rotate(t.begin(), t.begin() + rot, t.end()); if (rot % 2) t.pop_back(); save(vf, src[i] + "\n" + src[j] + "\n"); save(mf, cat(t, "\n") + "\n"); string of = x.dir + "/words";
        pid_t c = fork(); if (!c) { int f = open(mf.c_str(), O_RDONLY), g = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), h = open("/dev/null", O_WRONLY); dup2(f, 0); dup2(g, 1); dup2(h, 2); execl(getenv("VC_PTVOCAB"), "phrase_table_vocab", vf.c_str(), (char*)0); _exit(99); } int rc = 0; waitpid(c, &rc, 0);
        vector<set<string>> want, got; for (auto& s : {src[i], src[j]}) { W w; string q = s; replace(q.begin(), q.end(), '\t', ' '); w = split(q); set<string> r(w.begin(), w.end()); for (auto& l : t) { size_t b = l.find(" ||| "), e = l.find(" ||| ", b + 5); W p = split(l.substr(0, b)); if (p.size() > 7) continue; if (search(w.begin(), w.end(), p.begin(), p.end()) != w.end()) for (auto& y : split(l.substr(b + 5, e == string::npos ? e : e - b - 5))) r.insert(y); } want.push_back(r); }
        istringstream in(slurp(of)); string l; while (getline(in, l)) { W w = split(l); got.push_back(set<string>(w.begin(), w.end())); x.check(got.back().size() == w.size(), "vocab-twice", [&] { return "a word is listed twice: " + l; }); } x.step();
        x.check(!rc && got == want, "vocab", [&] { string s = "sentences \"" + src[i] + "\" \"" + src[j] + "\", table:\n" + cat(t, "\n") + "\nwritten:\n" + slurp(of) + "expected:"; for (auto& r : want) { s += "\n"; for (auto& w : r) s += w + " "; } return s; }); } } }
  // threads: every schedule
  struct T { int threads, batch, pre; }; vector<T> ts = {{2, 1, -1}, {2, 2, -1}, {2, 3, -1}, {2, 100, -2}, {3, 1, -1}, {3, 2, -1}};
  W grams = {"a", "b", "cc", "a b", "b a", "b b", "a cc"};
  for (auto t : ts) for (int raw = 0; raw < 2; ++raw) for (auto md : {"single", "union", "multiple", "phrase union", "phrase multiple"}) for (int shape = 0; shape < 5; ++shape) for (int context = 0; context < 2; ++context) {
    if (context && (shape || t.batch > 2)) continue; string mode = md; bool ph = mode.compare(0, 6, "phrase") == 0; if (ph) mode = mode.substr(7); if (ph && !x.thorough && (t.threads > 2 || shape % 2)) continue;
    if (shape == 4 && (ph || mode == "union" || (t.threads > 2 && !x.thorough))) continue;
    if (!x.take()) continue; int k = 0; vector<vector<NG>> m(2); int n1 = shape, n2 = 4 - shape; if (shape == 4) { n1 = 0; for (int i = 0; i < 7; ++i) { NG g; g.w = {i % 3 ? "a" : "b"}; g.line = raw ? g.w[0] + "\t" + to_string(i) : "-0." + to_string(i) + "\t" + g.w[0]; m[0].push_back(g); } }   // the last: lines of one length, which take the same place in a batch used again
     for (int i = 0; i < n1; ++i) m[0].push_back(gram({grams[i]}, raw, k, false)); for (int i = 0; i < n2; ++i) m[1].push_back(gram(split(grams[3 + i]), raw, k, true)); if (!n1 && shape < 4) { m.erase(m.begin()); for (auto& g : m[0]) (void)g; if (!raw) m.insert(m.begin(), vector<NG>()); }
    vector<S> sent = {{{"a"}}, {{"b"}, {"a"}}}; if (!ph) sent[1] = {{"b", "a"}}; if (mode == "single") sent = {{{"a", "b"}}};
    Opt o{mode, ph, (bool)context, (bool)raw, t.threads, t.batch, false}; x.desc([=] { return "schedules: " + o.str() + ", " + to_string(m[0].size()) + " and " + to_string(n2) + " n-grams, " + to_string(-t.pre) + " deviations from round robin"; });
    save(mf, model_text(m, raw)); string v = words_text(sent, 0), dir = x.dir; sched::Options so; so.max_execs = x.thorough ? 400000 : 2000; so.delay = true; so.preemptions = -t.pre + x.thorough - (t.threads > 2 && t.pre < -1);
    sched::Result r = sched::explore(so, [&] { return judge(dir, o, m, sent, v, mf, vf); }, [&] { x.step(); }); x.stat("schedules", r.execs); x.stat("scheduling_points", r.points); x.stat(r.complete ? "complete_explorations" : "incomplete_explorations"); if (r.execs > 1) x.nontrivial(); x.state(vc::hstr(o.str(), r.points));
    if (!r.kind.empty()) x.fail("threads-" + r.kind, r.error + "\nin schedule " + to_string(r.execs) + "; " + r.trace.substr(0, 2000));
  }
  cerr.rdbuf(ce);
}
VC_MAIN(run)
