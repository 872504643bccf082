// C07: rule text means what it says, in any company and layout; bad lines are rejected.
#include "vc.h"
#include "trule.h"
#include "grammar.h"
#include "tdict.h"
#include "fdict.h"
#include "verbose.h"
#include "rule_lexer.h"
using namespace std;
struct R {
  string lhs; vector<string> f; vector<string> e;      // nonterminals: "[C]" on the source, "<k>" (0-based) on the target
  map<string, double> ft; vector<pair<int, int>> al; string text;
};
static string show(const R& r, bool al = true) { ostringstream o; o.precision(5); o << '[' << r.lhs << "] |||"; for (auto& s : r.f) o << ' ' << s; o << " |||"; for (auto& s : r.e) o << ' ' << s; o << " |||"; for (auto& kv : r.ft) o << ' ' << kv.first << '=' << kv.second; if (al) { o << " |||"; for (auto& a : r.al) o << ' ' << a.first << '-' << a.second; } return o.str(); }
static R read(const TRule& t) {
  R r; r.lhs = t.lhs_ < 0 ? TD::Convert(-t.lhs_) : "none"; for (WordID w : t.f_) r.f.push_back(w < 0 ? "[" + string(TD::Convert(-w)) + "]" : "'" + string(TD::Convert(w))); for (WordID w : t.e_) r.e.push_back(w <= 0 ? "<" + to_string(-w) + ">" : "'" + string(TD::Convert(w)));
  const TRule& c = t; for (SparseVector<double>::const_iterator i = c.scores_.begin(); i != c.scores_.end(); ++i) r.ft[FD::Convert(i->first)] = i->second; for (auto& a : t.a_) r.al.push_back({a.s_, a.t_}); return r;
}
static bool same(const R& a, const R& b, bool feats = true, double tol = 1e-12) { if (a.lhs != b.lhs || a.f != b.f || a.e != b.e) return false; if (!feats) return true; if (a.al != b.al || a.ft.size() != b.ft.size()) return false; for (auto& kv : a.ft) { auto i = b.ft.find(kv.first); if (i == b.ft.end() || !vc::close(i->second, kv.second, tol)) return false; } return true; }
static int arity(const R& r) { int n = 0; for (auto& s : r.f) n += s[0] == '['; return n; }
static void quiet_compare(vc::X& x, const R& want, const TRule& t, const char* key, const string& how) {
  R got = read(t);
  x.check(same(got, want), key, [&] { return how + ": " + want.text + "\n  was read as  " + show(got) + "\n  expected     " + show(want); });
  x.check(t.Arity() == arity(want), "arity", [&] { return how + ": " + want.text + " has arity " + to_string(t.Arity()); });
}
// the rules held by a grammar: those in the trie for the given source side, and unary ones
static vector<TRulePtr> lookup(const Grammar& g, const R& r) {
  vector<TRulePtr> out;
  if (r.f.size() == 1 && r.f[0][0] == '[') { int c = -TD::Convert(r.f[0].substr(1, r.f[0].size() - 2)); for (auto& p : g.GetUnaryRulesForRHS(c)) out.push_back(p); return out; }
  const GrammarIter* it = g.GetRoot(); for (auto& s : r.f) { if (!it) return out; it = it->Extend(s[0] == '[' ? -TD::Convert(s.substr(1, s.size() - 2)) : TD::Convert(s.substr(1))); }
  if (!it || !it->GetRules()) return out; const RuleBin* b = it->GetRules(); for (int i = 0; i < b->GetNumRules(); ++i) out.push_back(b->GetIthRule(i)); return out;
}
static void count(const GrammarIter* n, const vector<WordID>& al, int depth, int* c) { if (n->GetRules()) *c += n->GetRules()->GetNumRules(); if (depth > 0) for (WordID w : al) if (const GrammarIter* k = n->Extend(w)) count(k, al, depth - 1, c); }
static void in_grammar(vc::X& x, const vector<const R*>& rs, const string& text, const string& how, const TextGrammar& g) {
  map<string, vector<string>> want; for (auto r : rs) { string k; for (auto& s : r->f) k += s + " "; want[k].push_back(show(*r)); }
  int unary = 0, total = 0; for (auto r : rs) { ++total; if (r->f.size() == 1 && r->f[0][0] == '[') ++unary; }
  for (auto r : rs) { string k; for (auto& s : r->f) k += s + " "; vector<string> got; for (auto& p : lookup(g, *r)) got.push_back(show(read(*p))); vector<string> w = want[k]; vector<string> gs = got, ws = w; sort(gs.begin(), gs.end()); sort(ws.begin(), ws.end());
    x.check(gs == ws, "grammar", [&] { string s = how + ":\n" + text + "rules found for source side " + k + ":"; for (auto& q : got) s += "\n   " + q; s += "\nexpected:"; for (auto& q : w) s += "\n   " + q; return s; }); }
  x.check((int)g.GetAllUnaryRules().size() == unary, "grammar-unary", [&] { return how + ":\n" + text + "unary rules: " + to_string(g.GetAllUnaryRules().size()) + " expected " + to_string(unary); });
  set<WordID> a; for (auto r : rs) for (auto& s : r->f) a.insert(s[0] == '[' ? -TD::Convert(s.substr(1, s.size() - 2)) : TD::Convert(s.substr(1))); size_t depth = 0; for (auto r : rs) depth = max(depth, r->f.size());
  if (depth < 6) { int c = 0; count(g.GetRoot(), vector<WordID>(a.begin(), a.end()), depth, &c); x.check(c == total - unary, "grammar-count", [&] { return how + ":\n" + text + to_string(c) + " rules in the grammar, expected " + to_string(total - unary); }); }
}
static string capture_stdout(function<void()> f, const string& file) {   // text written to fd 1 meanwhile (the lexer echoes what it does not understand)
  fflush(stdout); int old = dup(1); int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old); lseek(fd, 0, SEEK_SET); string s; char b[256]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s;
}
static void single(vc::X& x, const R& r) {
  { TRule t(r.text); quiet_compare(x, r, t, "read", "TRule(text)"); TRule t2(r.text + "\n"); quiet_compare(x, r, t2, "read", "TRule(text + newline)");
    string p = t.AsString(); TRule b(p); R want = read(t), got = read(b);
    bool bracket_word = false; for (auto& s : r.e) if (s.size() > 1 && s[0] == '\'' && s[1] == '[') bracket_word = true;
    if (!bracket_word) x.check(same(got, want, true, 1e-4), "print", [&] { return r.text + "\n  is printed as " + p + "\n  which reads as " + show(got); });
    string p2 = t.AsString(false); TRule b2(p2); R g2 = read(b2); x.check(same(g2, want, false) && b2.scores_.empty(), "print-brief", [&] { return r.text + "\n  is printed briefly as " + p2; });
    TRule cp(t); x.check(same(read(cp), want), "copy", "a copied rule differs"); TRule as; as = t; x.check(same(read(as), want), "assign", "an assigned rule differs"); }
  { istringstream in(r.text + "\n"); TextGrammar g(&in); in_grammar(x, {&r}, r.text + "\n", "grammar", g); }
  x.step(6); x.state(vc::hstr(show(r))); if (r.f.size() + r.e.size() > 2) x.nontrivial();
}
static string join(const vector<string>& v, const string& sep) { string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? sep : "") + v[i]; return s; }
struct Spec { string lhs; vector<string> f, e; int style; int feat, al, layout; };
static const char* FT[] = {"", "0.5", "-1 2e-3 3", "F=1", "F=1.25 G=-3e+2", "F=1;G=2", "0.25 Rare_name:x|y=+4", "F=0", "F=1 F=2", "7. F=1.e2"};
static map<string, double> feats(int i) {
  switch (i) { case 1: return {{"PhraseModel_0", 0.5}}; case 2: return {{"PhraseModel_0", -1}, {"PhraseModel_1", 2e-3}, {"PhraseModel_2", 3}}; case 3: return {{"F", 1}}; case 4: return {{"F", 1.25}, {"G", -300}}; case 5: return {{"F", 1}, {"G", 2}}; case 6: return {{"PhraseModel_0", .25}, {"Rare_name:x|y", 4}}; case 7: return {{"F", 0}}; case 8: return {{"F", 2}}; case 9: return {{"PhraseModel_0", 7}, {"F", 100}}; } return {};
}
static const char* AL[] = {"", "0-0", "0-1 1-0", "12-3 2-30"};
static vector<pair<int, int>> als(int i) { if (i == 1) return {{0, 0}}; if (i == 2) return {{0, 1}, {1, 0}}; if (i == 3) return {{12, 3}, {2, 30}}; return {}; }
// style bit 0: source indices written; bit 1: category written on the target side
static bool is_nt(const string& w) { return w.size() > 2 && w[0] == '[' && w.back() == ']' && w.find(',') == string::npos; }
static R render(const Spec& s) {
  R r; r.lhs = s.lhs; r.ft = feats(s.feat); r.al = als(s.al); static const char* GAP[] = {" ", "  ", "\t", " \t "}; string sp = GAP[s.layout & 3]; vector<string> tf, te, cats; int k = 0;
  for (auto& w : s.f) if (is_nt(w)) { string c = w.substr(1, w.size() - 2); cats.push_back(c); ++k; r.f.push_back(w); tf.push_back(s.style & 1 ? "[" + c + "," + to_string(k) + "]" : w); } else { r.f.push_back("'" + w); tf.push_back(w); }
  for (auto& w : s.e) if (w[0] == '<' && isdigit(w[1])) { int q = atoi(w.c_str() + 1); r.e.push_back(w); te.push_back(s.style & 2 ? "[" + cats[q] + "," + to_string(q + 1) + "]" : "[" + to_string(q + 1) + "]"); } else { r.e.push_back("'" + w); te.push_back(w); }
  r.text = "[" + s.lhs + "]" + sp + "|||" + sp + join(tf, sp) + sp + "|||" + sp + join(te, sp); if (s.feat || s.al) r.text += sp + "|||" + sp + FT[s.feat]; if (s.al) r.text += sp + "|||" + sp + AL[s.al]; if (s.layout & 4) r.text += " "; return r;
}
static void run(vc::X& x) {
  SetSilent(true); static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  // 1. single lines
  vector<vector<string>> F, E0; const vector<string> SF = {"a", "it's", "[X]", "[NP-2]"}, W1 = {"a", "it's", "1", "=", "|", "||||", "[,]", "[X,0]", "]", "\xc3\xa9", "F=1", "0-0", "[", "[a", "0.5", ";", "<s>", "*EPS*"};
  for (size_t n = 1; n <= 3; ++n) { size_t p = 1; for (size_t i = 0; i < n; ++i) p *= SF.size(); for (size_t m = 0; m < p; ++m) { vector<string> f; size_t q = m; for (size_t i = 0; i < n; ++i) { f.push_back(SF[q % SF.size()]); q /= SF.size(); } F.push_back(f); } }
  vector<R> line; int rot = 0;
  auto targets = [](int k) { vector<vector<string>> out; vector<int> p(k); for (int i = 0; i < k; ++i) p[i] = i; do { for (int m = 0; m < (1 << (k + 1)); ++m) { vector<string> e; for (int i = 0; i <= k; ++i) { if (m >> i & 1) e.push_back(i & 1 ? "B" : "it's"); if (i < k) e.push_back("<" + to_string(p[i]) + ">"); } if (!e.empty()) out.push_back(e); } } while (next_permutation(p.begin(), p.end())); return out; };
  for (auto& f : F) { int k = 0; for (auto& w : f) k += w[0] == '['; for (auto& e : targets(k)) for (int style = 0; style < (k ? 4 : 1); ++style) for (int v = 0; v < (x.thorough ? 40 : 5); ++v) { if (!x.take()) continue; Spec s{rot % 3 == 0 ? "S" : rot % 3 == 1 ? "NP-2" : "X", f, e, style, x.thorough ? v % 10 : rot % 10, x.thorough ? v / 10 : (rot / 10) % 4, (rot / 3) % 8}; ++rot; R r = render(s); x.desc([r] { return r.text; }); single(x, r); } }
  for (auto& w : W1) for (auto& v : W1) for (int feat = 0; feat < 10; ++feat) for (int al = 0; al < 4; ++al) for (int lay : {0, 3, 6}) { if (!x.take()) continue; Spec s{al & 1 ? "X" : "$,|", {w}, {v}, 0, feat, al, lay}; if (al & 1) { s.lhs = "X"; } else s.lhs = "Goal"; R r = render(s); x.desc([r] { return r.text; }); single(x, r); }
  // up to 12 nonterminals, rotated, two-digit indices
  for (int k = 1; k <= 12; ++k) for (int sh = 0; sh < k; ++sh) for (int style = 0; style < 4; ++style) { if (!x.take()) continue; Spec s{"X", {}, {}, style, 3, 0, 0}; for (int i = 0; i < k; ++i) { s.f.push_back(i & 1 ? "[Y]" : "[X]"); s.e.push_back("<" + to_string((i + sh) % k) + ">"); } R r = render(s); x.desc([r] { return r.text; }); single(x, r); }
  // long sides, many features, many links
  for (int n : {40, 199, 200, 201, 250, 400, 1200}) for (int kind = 0; kind < 5; ++kind) { if (!x.take()) continue; Spec s{"X", {"a", "[X]"}, {"b", "<0>"}, 1, 0, 0, 0};
    if (kind == 0) for (int i = 0; i < n; ++i) s.f.push_back("w" + to_string(i % 7)); if (kind == 1) for (int i = 0; i < n; ++i) s.e.push_back("w" + to_string(i % 7));
    R r = render(s); if (kind >= 2) r.text += " ||| ";
    if (kind == 2) for (int i = 0; i < n; ++i) { r.text += " M" + to_string(i) + "=" + to_string(i % 5 - 2); r.ft["M" + to_string(i)] = i % 5 - 2; }
    if (kind == 3) { if (n > 200) { x.step(); continue; } for (int i = 0; i < n; ++i) { r.text += " " + to_string(i % 5 - 2); r.ft["PhraseModel_" + to_string(i)] = i % 5 - 2; } }
    if (kind == 4) { r.text += "||| "; for (int i = 0; i < n * 2; ++i) { r.text += " " + to_string(i % 50) + "-" + to_string(i / 50); r.al.push_back({i % 50, i / 50}); } }
    x.desc([r] { return r.text.substr(0, 300) + "..."; }); single(x, r); }
  // 2. every sequence of up to three lines, read as a stream, twice, with and without final newline, between single rules
  vector<Spec> sp = {{"X", {"a"}, {"b"}, 0, 0, 0, 0}, {"X", {"a"}, {"c", "d"}, 0, 3, 1, 0}, {"X", {"a", "[X]"}, {"<0>", "b"}, 1, 4, 0, 0}, {"X", {"[X]", "a", "[Y]"}, {"<1>", "<0>"}, 3, 2, 2, 0}, {"S", {"[X]"}, {"<0>"}, 1, 0, 0, 0}, {"S", {"[X]"}, {"q", "<0>"}, 0, 1, 0, 4},
                        {"X", {"[X]", "[X]"}, {"<1>", "z", "<0>"}, 2, 9, 3, 1}, {"Y", {"a", "b", "c"}, {"d"}, 0, 0, 1, 2}, {"X", {"|"}, {"||||"}, 0, 5, 0, 0}, {"X", {"[Y]"}, {"<0>", "e"}, 1, 8, 1, 3}};
  vector<R> ls; for (auto& s : sp) ls.push_back(render(s)); const int N = ls.size();
  vector<vector<int>> seqs; for (int a = 0; a < N; ++a) { seqs.push_back({a}); for (int b = 0; b < N; ++b) { seqs.push_back({a, b}); for (int c = 0; c < N; ++c) seqs.push_back({a, b, c}); } }
  for (auto& q : seqs) for (int v = 0; v < 4; ++v) { if (!x.take()) continue;   // v bit 0: no final newline, bit 1: blank line between
    string text; vector<const R*> rs; for (size_t i = 0; i < q.size(); ++i) { text += ls[q[i]].text + "\n"; if (v & 2) text += "\n"; rs.push_back(&ls[q[i]]); } if (v & 1) while (text.back() == '\n') text.erase(text.size() - 1);
    x.desc([=] { return "grammar text (" + string(v & 1 ? "no final newline" : "final newline") + "):\n" + text; });
    string echo = capture_stdout([&] {
      istringstream in(text); TextGrammar g(&in); in_grammar(x, rs, text + "\n", "first grammar", g);
      TRule t(ls[q[0]].text); quiet_compare(x, ls[q[0]], t, "read-after", "TRule(text) after reading a grammar");
      istringstream in2(text); TextGrammar g2(&in2); in_grammar(x, rs, text + "\n", "second reading", g2);
      string fn = x.dir + "/g"; { ofstream o(fn.c_str()); o << text; } TextGrammar g3(fn); in_grammar(x, rs, text + "\n", "from a file", g3); g3.ReadFromFile(fn); vector<const R*> two = rs; two.insert(two.end(), rs.begin(), rs.end()); in_grammar(x, two, text + "\n", "file read twice into one grammar", g3);
      TRule t2(ls[q.back()].text); quiet_compare(x, ls[q.back()], t2, "read-after", "TRule(text) after reading grammars");
    }, x.dir + "/echo");
    x.check(echo.empty(), "stdout", [&] { return "reading a grammar writes to standard output: '" + echo + "'"; });
    x.step(5); x.state(vc::hstr(text)); x.nontrivial(); }
  // 3. monolingual, phrase table and lexical rules after any other rule
  for (int a = 0; a < N; ++a) for (auto& f : F) { if (!x.take()) continue; string text = "[LHS] ||| " + join(f, " ") + (a & 1 ? " ||| F=2 G=3" : ""); x.desc([text] { return "monolingual " + text; }); TRule before(ls[a].text);
    unique_ptr<TRule> m(TRule::CreateRuleMonolingual(text)); R w; w.text = text; w.lhs = "LHS"; int k = 0; for (auto& s : f) { if (s[0] == '[') { w.f.push_back(s); w.e.push_back("<" + to_string(k++) + ">"); } else { w.f.push_back("'" + s); w.e.push_back("'" + s); } } if (a & 1) w.ft = {{"F", 2}, {"G", 3}}; R got = read(*m); got.al.clear(); x.check(same(got, w), "mono", [&] { return text + " after " + ls[a].text + "\n read as " + show(got) + "\n expected " + show(w); }); x.check(m->Arity() == k, "mono-arity", "arity of a monolingual rule");
    TRule after(ls[a].text); quiet_compare(x, ls[a], after, "read-after", "TRule(text) after a monolingual rule");
    if (!k) { string pt = join(f, " ") + " ||| u v ||| 0.5 F=1"; unique_ptr<TRule> p(TRule::CreateRulePhrasetable(pt)); R pw; pw.lhs = "X"; pw.text = pt; for (auto& s : f) pw.f.push_back("'" + s); pw.e = {"'u", "'v"}; pw.ft = {{"PhraseModel_0", .5}, {"F", 1}}; x.check(p && same(read(*p), pw), "phrase", pt); unique_ptr<TRule> sy(TRule::CreateRuleSynchronous("[Q] ||| " + pt)); pw.lhs = "Q"; x.check(sy && same(read(*sy), pw), "sync", pt);
      unique_ptr<TRule> lx(TRule::CreateLexicalRule(TD::Convert(f[0]), TD::Convert("tgt"))); R lw; lw.f = {"'" + f[0]}; lw.e = {"'tgt"}; R lg = read(*lx); x.check(lg.f == lw.f && lg.e == lw.e && lx->Arity() == 0, "lexical", "lexical rule"); }
    x.step(3); x.state(vc::hstr(text + to_string(a))); }
  // 4. malformed lines: rejected (the process stops or no rule results), never a rule
  vector<string> bad = {"[X] ||| a [X,1] ||| b", "[X] ||| a ||| [1] b", "[X] ||| a ||| [X,1] b", "[X] ||| [X,1] [X,2] ||| [1]", "[X] ||| [X,1] [X,2] ||| [1] [1]", "[X] ||| [X,1] ||| [1] [1]", "[X] ||| [X,1] ||| [2]", "[X] ||| [X,2] ||| [1]", "[X] ||| [X,2] [X,1] ||| [1] [2]", "[X] ||| [X,1] [X,1] ||| [1] [2]",
    "[X] ||| [X,1] ||| [Y,1]", "[X] ||| [X,1] [Y,2] ||| [Y,1] [X,2]", "[X] ||| a ||| b ||| F=x", "[X] ||| a ||| b ||| F=", "[X] ||| a ||| b ||| F", "[X] ||| a ||| b ||| F=.5.5", "[X] ||| a ||| b ||| 1.2.3", "[X] ||| a ||| b ||| F=1x", "[X] ||| a ||| b ||| x F=1", "[X] ||| a ||| b ||| F= 1", "[X] ||| a ||| b ||| F=1 ||| 0", "[X] ||| a ||| b ||| F=1 ||| a-b", "[X] ||| a ||| b ||| F=1 ||| 0-x", "[X] ||| a ||| b ||| F=1 ||| -1-0", "X ||| a ||| b", "a ||| b", "[X ||| a ||| b", "[X,1] ||| a ||| b", "[] ||| a ||| b", "[X] a ||| b", "[X] || a ||| b", "x [X] ||| a ||| b", "[X] ||| [X,1] a ||| b [12]", "[X] ||| a ||| b ||| F=--1", "[X] ||| a ||| b ||| F=nan", "[X] ||| a ||| b ||| =1"};
  vector<string> good = {""}; for (auto& r : ls) good.push_back(r.text + "\n");
  for (auto& b : bad) for (size_t g = 0; g < good.size(); ++g) { if (!x.take()) continue; string text = good[g] + b + "\n"; x.desc([text] { return "malformed last line:\n" + text; });
    int p[2]; if (pipe(p)) abort(); pid_t pid = fork(); if (!pid) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); signal(SIGABRT, SIG_DFL); close(p[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); istringstream in(text); static int n = 0; n = 0; struct G { static void cb(const TRulePtr&, const unsigned int, const TRulePtr&, void*) { ++n; } }; RuleLexer::ReadRules(&in, &G::cb, "g", NULL); char c = (char)(n + 1); if (write(p[1], &c, 1) != 1) _exit(3); _exit(0); }
    close(p[1]); char c = 0; ssize_t n = ::read(p[0], &c, 1); close(p[0]); int st; waitpid(pid, &st, 0); int rules = n == 1 ? c - 1 : -1; x.check(rules <= (g ? 1 : 0), "accepted", [&] { return "a malformed line was accepted (" + to_string(rules) + " rules from)\n" + text; }); x.step(); x.state(vc::hstr(text)); }
}
VC_MAIN(run)
