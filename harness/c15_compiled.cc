// C15: compiled extractor data, orders of sentences, and every thread schedule (bounded) of the real extraction programs.
#include "corpus.h"
#include "vsched.h"
#include "extractor/alignment.h"
#include "extractor/scorer.h"
#include "phrase.h"
#include "rule.h"
#include "extractor/grammar.h"
#include "grammar_extractor.h"
#include "precomputation.h"
#include "translation_table.h"
#include "features/count_source_target.h"
#include "features/feature.h"
#include "features/is_source_singleton.h"
#include "features/is_source_target_singleton.h"
#include "features/max_lex_source_given_target.h"
#include "features/max_lex_target_given_source.h"
#include "features/sample_source_count.h"
#include "features/target_given_source_coherent.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <pthread.h>
#include <zlib.h>
#include <unordered_set>
using namespace std;
using namespace extractor;
typedef Corpus::Sents Sents; typedef vector<pair<int, int>> Links;
int sacompile_main(int, char**); int extract_main(int, char**); int run_extractor_main(int, char**);
struct Bi { Sents f, e; vector<Links> al; string lt() const { string t; for (auto& l : al) { string o; for (auto& p : l) o += (o.empty() ? "" : " ") + to_string(p.first) + "-" + to_string(p.second); t += o + "\n"; } return t; } string text() const { return Corpus::text(f) + "--\n" + Corpus::text(e) + "--\n" + lt(); } };
struct Set { int freq, super, plen, minf, span, syms, gap, nts, samples; bool loo, tight; };
static vector<string> sorted(const string& t) { vector<string> v; istringstream i(t); string l; while (getline(i, l)) v.push_back(l); sort(v.begin(), v.end()); return v; }
struct Mem { shared_ptr<DataArray> fd, ed; shared_ptr<SuffixArray> sa; shared_ptr<Alignment> al; shared_ptr<Vocabulary> vo; shared_ptr<Precomputation> pc; shared_ptr<TranslationTable> tt; shared_ptr<GrammarExtractor> ge;
  void make(const Set& s) { using namespace features; vector<shared_ptr<Feature>> fs = {make_shared<TargetGivenSourceCoherent>(), make_shared<SampleSourceCount>(), make_shared<CountSourceTarget>(), make_shared<MaxLexSourceGivenTarget>(tt), make_shared<MaxLexTargetGivenSource>(tt), make_shared<IsSourceSingleton>(), make_shared<IsSourceTargetSingleton>()}; ge = make_shared<GrammarExtractor>(sa, ed, al, pc, make_shared<Scorer>(fs), vo, s.gap, s.span, s.nts, s.syms, s.samples, s.tight); }
  void build(const string& dir, const Set& s) { fd.reset(new DataArray(dir + "/f")); ed.reset(new DataArray(dir + "/e")); sa.reset(new SuffixArray(fd)); al.reset(new Alignment(dir + "/a")); vo.reset(new Vocabulary); pc.reset(new Precomputation(vo, sa, s.freq, s.super, s.span, s.syms, s.gap, s.plen, s.minf)); tt.reset(new TranslationTable(fd, ed, al)); make(s); }
  string grammar(const string& in, const unordered_set<int>& bl) { ostringstream o; o << ge->GetGrammar(in, bl); return o.str(); } };
template <class T> static string save(const T& t) { ostringstream o; { boost::archive::binary_oarchive a(o); a << t; } return o.str(); }
template <class T> static void load(T& t, const string& s) { istringstream i(s); boost::archive::binary_iarchive a(i); a >> t; }
static void files(const Bi& b, const string& dir) { Corpus::put(dir + "/f", Corpus::text(b.f)); Corpus::put(dir + "/e", Corpus::text(b.e)); Corpus::put(dir + "/a", b.lt()); string t; for (size_t i = 0; i < b.f.size(); ++i) { for (auto& w : b.f[i]) t += w + " "; t += "|||"; for (auto& w : b.e[i]) t += " " + w; t += "\n"; } Corpus::put(dir + "/bi", t); }
static string slurp(const string& f) { gzFile g = gzopen(f.c_str(), "rb"); if (!g) return "<missing>"; string o; char b[65536]; int n; while ((n = gzread(g, b, sizeof b)) > 0) o.append(b, n); gzclose(g); return o; }
typedef int (*Main)(int, char**);
static int call(Main m, vector<string> a, const string& in, string* out) { vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(0); istringstream i(in); ostringstream o; streambuf* ci = cin.rdbuf(i.rdbuf()); streambuf* co = cout.rdbuf(o.rdbuf()); cin.clear(); int r; try { r = m(a.size(), v.data()); } catch (exception& e) { r = 99; o << e.what(); } cin.rdbuf(ci); cout.rdbuf(co); cin.clear(); if (out) *out = o.str(); return r; }
static vector<string> lim(const Set& s) { return {"--max_rule_span", to_string(s.span), "--max_rule_symbols", to_string(s.syms), "--min_gap_size", to_string(s.gap)}; }
static vector<string> pre(const Set& s) { return {"--frequent", to_string(s.freq), "--super_frequent", to_string(s.super), "--max_phrase_len", to_string(s.plen), "--min_frequency", to_string(s.minf)}; }
static vector<string> ext(const Set& s) { vector<string> v = {"--max_nonterminals", to_string(s.nts), "--max_samples", to_string(s.samples), "--tight_phrases", s.tight ? "true" : "false"}; if (s.loo) v.push_back("--leave_one_out"); return v; }
static vector<string> operator+(vector<string> a, const vector<string>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static string ss(const Set& s) { ostringstream o; o << "frequent " << s.freq << "/" << s.super << " length " << s.plen << " min " << s.minf << " span " << s.span << " symbols " << s.syms << " gap " << s.gap << " nonterminals " << s.nts << " samples " << s.samples << (s.loo ? " leave one out" : "") << (s.tight ? "" : " loose"); return o.str(); }
// what a run of an extraction program left: the grammars and the tagged input
static string outcome(const string& gdir, size_t n, bool gz, const string& out, const vector<string>& in, const vector<vector<string>>& want) {
  istringstream o(out); string l; for (size_t i = 0; i < n; ++i) { string fn = gdir + "/grammar." + to_string(i) + (gz ? ".gz" : ""); size_t p = in[i].find("|||"); string s = in[i].substr(0, p), suf = p == string::npos ? "" : in[i].substr(p);
    string exp = "<seg grammar=\"" + fn + "\" id=\"" + to_string(i) + "\"> " + s + " </seg> " + suf; if (!getline(o, l)) return "output line " + to_string(i) + " is missing"; if (l != exp) return "output line " + to_string(i) + " is\n" + l + "\ninstead of\n" + exp;
    vector<string> g = sorted(slurp(fn)); if (g != want[i]) { string d; for (auto& r : g) if (!binary_search(want[i].begin(), want[i].end(), r)) d += "+ " + r + "\n"; for (auto& r : want[i]) if (!binary_search(g.begin(), g.end(), r)) d += "- " + r + "\n"; return "grammar " + to_string(i) + " differs (" + to_string(g.size()) + " rules for " + to_string(want[i].size()) + "):\n" + d.substr(0, 1500); } }
  if (getline(o, l)) return "extra output " + l; return "";
}
static void rm(const string& d, size_t n) { for (size_t i = 0; i < n; ++i) { unlink((d + "/grammar." + to_string(i)).c_str()); unlink((d + "/grammar." + to_string(i) + ".gz").c_str()); } }
static vector<vector<string>> expected(const string& dir, const Set& s, const vector<string>& in) { vector<vector<string>> w; for (size_t i = 0; i < in.size(); ++i) { Mem m; m.build(dir, s); unordered_set<int> bl; if (s.loo) bl.insert(i); w.push_back(sorted(m.grammar(in[i].substr(0, in[i].find("|||")), bl))); } return w; }
// every way of getting the grammars, one thread
static void paths(vc::X& x, const Bi& b, const Set& s, const vector<string>& in) {
  if (!x.take()) return; x.desc([=] { string t = b.text() + ss(s) + "\ninput:\n"; for (auto& l : in) t += l + "\n"; return t; });
  const string d = x.dir; files(b, d); auto want = expected(d, s, in); string inp; for (auto& l : in) inp += l + "\n"; for (auto& w : want) { if (w.size() > 1) x.nontrivial(); for (auto& r : w) x.state(vc::hstr(r)); }
  // the structures themselves
  Mem m; m.build(d, s); Mem c; c.fd.reset(new DataArray); c.ed.reset(new DataArray); c.sa.reset(new SuffixArray); c.al.reset(new Alignment); c.vo.reset(new Vocabulary); c.pc.reset(new Precomputation); c.tt.reset(new TranslationTable);
  string sfd = save(*m.fd), sed = save(*m.ed), ssa = save(*m.sa), sal = save(*m.al), spc = save(*m.pc), svo = save(*m.vo), stt = save(*m.tt);
  load(*c.fd, sfd); load(*c.ed, sed); load(*c.sa, ssa); load(*c.al, sal); load(*c.pc, spc); load(*c.vo, svo); load(*c.tt, stt);
  x.check(*c.fd == *m.fd && *c.ed == *m.ed, "data-array", "a data array differs after reading it back"); x.check(*c.sa == *m.sa, "suffix-array", "the suffix array differs after reading it back"); x.check(*c.al == *m.al, "alignment", "the alignment differs after reading it back"); x.check(*c.pc == *m.pc, "precomputation", "the precomputation differs after reading it back"); x.check(*c.vo == *m.vo, "vocabulary", "the vocabulary differs after reading it back"); x.check(*c.tt == *m.tt, "table", "the translation table differs after reading it back");
  for (int side = 0; side < 2; ++side) { auto& p = side ? m.ed : m.fd; auto& q = side ? c.ed : c.fd; const Sents& st = side ? b.e : b.f; vector<string> fl = Corpus::flat(st); bool ok = q->GetSize() == (int)fl.size() && q->GetNumSentences() == (int)st.size() && q->GetVocabularySize() == p->GetVocabularySize(); int pos = 0; for (size_t i = 0; ok && i < st.size(); ++i) { ok = q->GetSentenceStart(i) == pos && q->GetSentenceLength(i) == (int)st[i].size(); for (size_t j = 0; ok && j <= st[i].size(); ++j, ++pos) { ok = q->GetSentenceId(pos) == (int)i; if (ok && j < st[i].size()) ok = q->GetWordAtIndex(pos) == st[i][j] && q->GetWordId(st[i][j]) == q->AtIndex(pos) && q->GetWord(q->AtIndex(pos)) == st[i][j] && p->GetWordId(st[i][j]) == q->GetWordId(st[i][j]); } } x.check(ok && q->GetWordId("never seen") == -1, "data-content", "a data array read back does not describe the corpus"); }
  { bool ok = c.sa->GetSize() == m.sa->GetSize() && c.sa->BuildLCPArray() == m.sa->BuildLCPArray(); for (int i = 0; ok && i < m.sa->GetSize(); ++i) ok = c.sa->GetSuffix(i) == m.sa->GetSuffix(i); x.check(ok, "suffixes", "the suffix array read back has other suffixes"); }
  for (size_t i = 0; i < b.al.size(); ++i) x.check(c.al->GetLinks(i) == b.al[i], "links", "links read back differ");
  { set<string> fw = {"__NULL__", "nope"}, ew = fw; for (auto& l : b.f) fw.insert(l.begin(), l.end()); for (auto& l : b.e) ew.insert(l.begin(), l.end()); for (auto& f : fw) for (auto& e : ew) x.check(c.tt->GetTargetGivenSourceScore(f, e) == m.tt->GetTargetGivenSourceScore(f, e) && c.tt->GetSourceGivenTargetScore(f, e) == m.tt->GetSourceGivenTargetScore(f, e), "table-score", [&] { return "translation scores of " + f + "/" + e + " change when read back"; }); }
  { Vocabulary v, w; load(v, svo); load(w, svo); vector<string> ws = {"new1", "a", "b", "c", "new2"}; for (auto& q : ws) { int i = v.GetTerminalIndex(q); x.check(i == m.vo->GetTerminalIndex(q) && v.GetTerminalValue(i) == q, "vocabulary-use", [&] { return "the vocabulary read back gives " + q + " another number"; }); } }
  x.check(save(*c.fd) == sfd && save(*c.sa) == ssa && save(*c.al) == sal, "bytes", "writing what was read gives other bytes");
  c.make(s); for (size_t i = 0; i < in.size(); ++i) { unordered_set<int> bl; if (s.loo) bl.insert(i); string se = in[i].substr(0, in[i].find("|||")); x.check(sorted(c.grammar(se, bl)) == want[i], "loaded-grammar", [&] { return "the grammar of '" + se + "' from structures read back differs from the one built in memory"; }); x.step(); }
  // all orders of processing on one extractor, each sentence also twice
  { vector<int> p(in.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i; do { Mem o; o.build(d, s); for (int rep = 0; rep < 2; ++rep) for (int i : p) { unordered_set<int> bl; if (s.loo) bl.insert(i); x.check(sorted(o.grammar(in[i].substr(0, in[i].find("|||")), bl)) == want[i], "order", [&] { return "the grammar of sentence " + to_string(i) + " depends on the sentences before it: order " + vc::str(p) + (rep ? " second round" : ""); }); x.step(); } } while (next_permutation(p.begin(), p.end())); }
  // the programs
  for (int bi = 0; bi < 2; ++bi) { vector<string> src = bi ? vector<string>{"-b", d + "/bi"} : vector<string>{"-f", d + "/f", "-e", d + "/e"}; string out; src = src + vector<string>{"-a", d + "/a"};
    int r = call(sacompile_main, vector<string>{"sacompile"} + src + vector<string>{"-o", d + "/sa", "-c", d + "/ini"} + pre(s) + lim(s), "", &out); x.check(r == 0, "sacompile", "sacompile failed: " + out);
    for (int gz = 0; gz < 2; ++gz) { rm(d + "/g", in.size()); r = call(extract_main, vector<string>{"extract", "-c", d + "/ini", "-g", d + "/g", "-t", "1"} + (gz ? vector<string>{"-z"} : vector<string>()) + lim(s) + ext(s), inp, &out); string er = r ? "exit " + to_string(r) + " " + out : outcome(d + "/g", in.size(), gz, out, in, want); x.check(er.empty(), "extract", [&] { return "compiled extraction: " + er; }); x.step(); }
    rm(d + "/g", in.size()); r = call(run_extractor_main, vector<string>{"run_extractor", "-g", d + "/g", "-t", "1"} + src + pre(s) + lim(s) + ext(s), inp, &out); string er = r ? "exit " + to_string(r) + " " + out : outcome(d + "/g", in.size(), false, out, in, want); x.check(er.empty(), "run_extractor", [&] { return "direct extraction: " + er; }); x.step(); }
}
static void explore(vc::X& x, const string& key, sched::Options o, function<string()> body) {
  sched::Result r = sched::explore(o, body, [&] { x.step(); }); x.stat("schedules", r.execs); x.stat("scheduling_points", r.points); x.stat(r.complete ? "complete_explorations" : "incomplete_explorations"); if (r.execs > 1) x.nontrivial(); x.state(vc::hstr(key, r.points));
  if (!r.kind.empty()) x.fail(r.kind + ":" + key, r.error + "\nin schedule " + to_string(r.execs) + "; " + r.trace.substr(0, 2000));
}
static void threads(vc::X& x, const Bi& b, const Set& s, const vector<string>& in, int nt, bool compiled, bool gz, int dev, uint64_t mx) {
  if (!x.take()) return; x.desc([=] { string t = b.text() + ss(s) + (compiled ? "\ncompiled, " : "\ndirect, ") + to_string(nt) + " threads, " + to_string(dev) + " deviations\ninput:\n"; for (auto& l : in) t += l + "\n"; return t; });
  const string d = x.dir; files(b, d); auto want = expected(d, s, in); string inp; for (auto& l : in) inp += l + "\n"; vector<string> src = {"-f", d + "/f", "-e", d + "/e", "-a", d + "/a"};
  if (compiled) call(sacompile_main, vector<string>{"sacompile"} + src + vector<string>{"-o", d + "/sa", "-c", d + "/ini"} + pre(s) + lim(s), "", 0);
  sched::Options o; o.delay = true; o.preemptions = dev; o.max_execs = mx; o.max_points = 2000000;
  explore(x, compiled ? "extract" : "run_extractor", o, [&]() -> string { string out; rm(d + "/g", in.size()); int r = compiled ? call(extract_main, vector<string>{"extract", "-c", d + "/ini", "-g", d + "/g", "-t", to_string(nt)} + (gz ? vector<string>{"-z"} : vector<string>()) + lim(s) + ext(s), inp, &out) : call(run_extractor_main, vector<string>{"run_extractor", "-g", d + "/g", "-t", to_string(nt)} + src + pre(s) + lim(s) + ext(s), inp, &out); if (r) return "exit " + to_string(r); return outcome(d + "/g", in.size(), compiled && gz, out, in, want); });
}
// the shared vocabulary alone, with all orders
struct VT { Vocabulary* v; const char* ops; int ids[8]; string back[8]; static void* go(void* p) { VT* t = (VT*)p; int k = 0; for (const char* c = t->ops; *c; ++c, ++k) { t->ids[k] = t->v->GetTerminalIndex(string(1, *c)); t->back[k] = t->v->GetTerminalValue(t->ids[k]); } return 0; } };
static void vocab(vc::X& x, const vector<string>& ops, int pre) {
  if (!x.take()) return; x.desc([=] { return "vocabulary used by threads inserting " + vc::str(ops) + ", " + to_string(pre) + " preemptions"; });
  sched::Options o; o.preemptions = pre; o.max_execs = 400000;
  explore(x, "vocabulary", o, [&]() -> string { Vocabulary v; v.GetTerminalIndex("p"); vector<VT> t(ops.size()); vector<pthread_t> th(ops.size()); for (size_t i = 0; i < t.size(); ++i) { t[i].v = &v; t[i].ops = ops[i].c_str(); pthread_create(&th[i], 0, VT::go, &t[i]); } for (auto& h : th) pthread_join(h, 0);
    map<string, int> id; map<int, string> w; id["p"] = 0; w[0] = "p"; for (size_t i = 0; i < t.size(); ++i) for (size_t k = 0; k < ops[i].size(); ++k) { string q(1, ops[i][k]); if (t[i].back[k] != q) return "word " + q + " was read back as " + t[i].back[k]; if (id.count(q) && id[q] != t[i].ids[k]) return "word " + q + " got two numbers"; if (w.count(t[i].ids[k]) && w[t[i].ids[k]] != q) return "two words share a number"; id[q] = t[i].ids[k]; w[t[i].ids[k]] = q; }
    for (auto& k : id) { if (v.GetTerminalIndex(k.first) != k.second || v.GetTerminalValue(k.second) != k.first) return "word " + k.first + " has another number afterwards"; if (k.second < 0 || k.second >= (int)id.size()) return "numbers are not consecutive"; } return ""; });
}
static void run(vc::X& x) {
  sched::pin(x.shard); static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf()); int T = x.thorough;
  vector<Set> sets = {{0, 0, 1, 1, 10, 5, 1, 2, 300, false, true}, {100, 10, 2, 1, 10, 5, 1, 2, 300, false, true}, {100, 100, 3, 2, 10, 5, 1, 3, 300, true, true}, {3, 1, 2, 1, 5, 5, 2, 2, 2, false, true}, {100, 10, 2, 1, 15, 5, 1, 2, 1, true, false}, {100, 10, 4, 1000, 15, 3, 1, 1, 300, true, true}};
  vector<Links> als; for (int i = 0; i < 16; ++i) { Links l; for (int b = 0; b < 4; ++b) if (i >> b & 1) l.push_back({b / 2, b % 2}); als.push_back(l); }
  vector<vector<string>> ins = {{"a b", "b a", "a zz b"}, {"a b a ||| A B ||| more", "", "c a b c a"}, {"a", "a", "b b"}, {"zz a", "a b b", "zz"}};
  auto W = [](int n, int code, const char* A) { vector<string> v; for (int i = 0; i < n; ++i) v.push_back(string(1, A[(code >> i) & 1])); return v; };
  auto mk = [&](int f1, int f2, const Links& l, bool big) { Bi b; b.f = {W(2, f1, "ab"), W(3, f2, "ab")}; b.e = {W(2, f2, "AB"), W(3, f1 * 2 + 1, "AB")}; b.al = {l, {{0, 0}, {1, 2}, {2, 1}}}; if (big) { b.f.push_back({"c", "a", "b", "c", "a"}); b.e.push_back({"C", "A", "B", "A"}); b.al.push_back({{0, 0}, {1, 1}, {2, 2}, {3, 0}, {4, 3}}); b.f.push_back({}); b.e.push_back({}); b.al.push_back({}); b.f.push_back({"b", "\xc3\xbc", "a\"b"}); b.e.push_back({"__NULL__x"}); b.al.push_back({{0, 0}, {1, 0}}); } return b; };
  uint64_t r = 0;
  for (int f1 = 0; f1 < 4; ++f1) for (int f2 = 0; f2 < 8; ++f2) for (auto& l : als) for (int big = 0; big < 2; ++big) { ++r; if (!T && r % 9) continue; paths(x, mk(f1, f2, l, big), sets[r / 9 % sets.size()], ins[r / 5 % ins.size()]); }
  vector<vector<string>> vs = {{"ab", "ab"}, {"ab", "ba"}, {"abc", "cab"}, {"aa", "bp"}, {"ab", "bc", "ca"}, {"a", "a", "a"}, {"ab", "b", "p"}}; for (auto& v : vs) vocab(x, v, (v.size() == 2 ? 4 : v[0].size() == 1 ? 3 : 2) + T);
  vector<vector<string>> tin = {{"a b", "b a"}, {"a zz", "zz b"}, {"a", "c a", "b"}, {"u v", "v u", "a ||| t"}};
  r = 0; for (int f1 = 0; f1 < 4; ++f1) for (int f2 = 0; f2 < 8; f2 += 3) for (auto& in : tin) for (int comp = 0; comp < 2; ++comp) { ++r; const Set& s = sets[r % sets.size()]; bool small = in.size() == 2; threads(x, mk(f1, f2, als[(r * 5) % 16], r % 3 == 0), s, in, small ? 2 : 2 + r % 2, comp, r % 2, 1 + T, T ? 60000 : 3000); }
  for (int comp = 0; comp < 2; ++comp) { Bi b = mk(1, 2, als[9], false); Set s = sets[5]; s.span = 3; threads(x, b, s, {"a", "b"}, 2, comp, false, 2 + T, 60000); threads(x, b, s, {"z", "z"}, 2, comp, false, 2 + T, 60000); }
}
VC_MAIN(run)
