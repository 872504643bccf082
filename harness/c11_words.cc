// C11: lexical translation and alignment, tagging, compound splitting, tree-to-string: exactly the licensed derivations.
#include "c11_trans.h"
#include "lextrans.h"
#include "lexalign.h"
#include "tagger.h"
#include "csplit.h"
static vector<vector<string>> seqs(const vector<string>& al, int lo, int hi) { vector<vector<string>> r = {{}}; size_t a = 0; for (int n = 0; n < hi; ++n) { size_t b = r.size(); for (; a < b; ++a) for (auto& w : al) { auto s = r[a]; s.push_back(w); r.push_back(s); } } vector<vector<string>> o; for (auto& s : r) if ((int)s.size() >= lo) o.push_back(s); return o; }
static Lattice ref_of(const vector<string>& e) { Lattice l; LatticeTools::ConvertTextToLattice(words(e), &l); return l; }
static string pos_piece(const HG::Edge& e) { return e.tail_nodes_.empty() ? " " + to_string(e.prev_i_) + "," + to_string(e.prev_j_) + "<" + to_string(e.i_) + "," + to_string(e.j_) + ":" + TD::GetString(e.rule_->f_) + ">" + TD::GetString(e.rule_->e_) : ""; }
static string src_piece(const HG::Edge& e) { return e.tail_nodes_.empty() ? " " + to_string(e.i_) + "," + to_string(e.j_) + ":" + TD::GetString(e.rule_->f_) + ">" + TD::GetString(e.rule_->e_) : ""; }
struct Opt { string e, f; Fe s; int i; };
static void product(const vector<vector<Opt>>& o, bool prev, Bag* b) { vector<size_t> ix(o.size()); for (auto& v : o) if (v.empty()) return; while (true) { string e, pc; Fe s; for (size_t k = 0; k < o.size(); ++k) { const Opt& p = o[k][ix[k]]; e += (e.empty() ? "" : " ") + p.e; s += p.s; pc += " " + (prev ? to_string(k) + "," + to_string(k + 1) + "<" : "") + to_string(p.i) + "," + to_string(p.i + 1) + ":" + p.f + ">" + p.e; } ++(*b)[expect(e, s, pc)]; size_t k = 0; for (; k < o.size(); ++k) { if (++ix[k] < o[k].size()) break; ix[k] = 0; } if (k == o.size()) return; } }
// every order of a reference reachable by swapping disjoint adjacent pairs
static void swaps(const vector<string>& e, size_t at, vector<string>& cur, vector<vector<string>>* out) { if (at >= e.size()) { out->push_back(cur); return; } cur.push_back(e[at]); swaps(e, at + 1, cur, out); cur.pop_back(); if (at + 1 < e.size()) { cur.push_back(e[at + 1]); cur.push_back(e[at]); swaps(e, at + 2, cur, out); cur.pop_back(); cur.pop_back(); } }
static void lextrans(vc::X& x, int mask, int opt, const vector<vector<string>>& fs, const vector<vector<string>>& es) {
  const char* T[7][3] = {{"a", "x", "F1"}, {"a", "y", "F2"}, {"b", "x", "F3"}, {"b", "y", "F4"}, {"<eps>", "x", "F5"}, {"<eps>", "z", "F6"}, {"a", "x", "F7"}}; string g; map<string, vector<Opt>> t; bool null = opt & 1, only = opt & 2, dyna = opt & 4;
  for (int i = 0; i < 7; ++i) if (mask >> i & 1) { g += string(T[i][0]) + " ||| " + T[i][1] + " ||| " + T[i][2] + "=" + to_string(i + 1) + "\n"; Opt o; o.f = T[i][0]; o.e = T[i][1]; o.s[T[i][2]] = i + 1; t[o.f].push_back(o); }
  if (!x.take()) return; x.desc([=] { return string("lexical translation") + (null ? ", null" : "") + (only ? ", align only" : "") + (dyna ? ", dynasearch" : "") + ", table:\n" + g; });
  vector<string> args = {"-g", file(x, "lex", g)}; if (null) args.push_back("--lextrans_use_null"); if (only) args.push_back("--lextrans_align_only"); if (dyna) args.push_back("--lextrans_dynasearch"); LexicalTrans tr(dec_conf(args));
  for (auto& f : fs) for (auto& e : es) { Lattice ref = ref_of(e); SentenceMetadata sm(0, ref); Hypergraph hg; bool ret = run(tr, words(f), &sm, &hg); tr.SentenceComplete(); string what = words(f) + " / " + words(e); Bag want; bool miss = false; set<string> voc(e.begin(), e.end()); vector<Opt> all; for (int j = null && !dyna ? -1 : 0; j < (int)f.size(); ++j) { auto it = t.find(j < 0 ? "<eps>" : f[j]); if (it == t.end()) { miss = true; continue; } for (auto o : it->second) { if ((only || dyna) && !voc.count(o.e)) continue; o.i = j; all.push_back(o); } }
    if (miss) { x.check(!ret, "lextrans-missing", [&] { return what + ": translated although a word is unknown"; }); x.step(); continue; }
    if (!x.check(ret, "lextrans-return", [&] { return what + ": refused"; })) continue;
    if (!dyna) product(vector<vector<Opt>>(e.size(), all), true, &want); else { vector<vector<string>> orders; vector<string> cur; swaps(e, 0, cur, &orders); for (auto& o : orders) { vector<vector<Opt>> pos; for (auto& w : o) { pos.push_back({}); for (auto& a : all) if (a.e == w) pos.back().push_back(a); } product(pos, false, &want); } }
    if (dyna) compare(x, "dynasearch", ret, hg, want, src_piece, what); else compare(x, "lextrans", ret, hg, want, pos_piece, what); x.check(sm.GetSourceLength() == (int)f.size(), "source-length", what); }
}
static void lexalign(vc::X& x, bool null, const vector<vector<string>>& fs, const vector<vector<string>>& es) {
  if (!x.take()) return; x.desc([=] { return string("lexical alignment") + (null ? ", null" : ""); }); vector<string> args; if (null) args.push_back("--lexcrf_use_null"); LexicalAlign tr(dec_conf(args));
  for (auto& f : fs) for (auto& e : es) { Lattice ref = ref_of(e); SentenceMetadata sm(0, ref); Hypergraph hg; bool ret = run(tr, words(f), &sm, &hg); tr.SentenceComplete(); Bag want; vector<vector<Opt>> pos; for (auto& w : e) { pos.push_back({}); for (int j = null ? -1 : 0; j < (int)f.size(); ++j) { Opt o; o.i = j; o.f = j < 0 ? "<eps>" : f[j]; o.e = w; o.s["Lx:" + o.f + "_" + w] = 1; pos.back().push_back(o); } } product(pos, true, &want); compare(x, "lexalign", ret, hg, want, pos_piece, words(f) + " / " + words(e)); }
}
static void tagger(vc::X& x, const vector<string>& tags, int style, const vector<vector<string>>& in) {
  if (!x.take()) return; x.desc([=] { return "tagger, tags " + words(tags) + ", file style " + to_string(style); }); string t; for (size_t i = 0; i < tags.size(); ++i) t += (style == 2 ? "  " : "") + tags[i] + (style == 0 ? "\n" : style == 1 ? (i + 1 < tags.size() ? " " : "") : "\t\n\n"); Tagger tr(dec_conf({"-t", file(x, "tags", t)}));
  for (auto& s : in) { Lattice ref; SentenceMetadata sm(0, ref); Hypergraph hg; bool ret = run(tr, words(s), &sm, &hg); tr.SentenceComplete(); Bag want; vector<vector<Opt>> pos; for (size_t i = 0; i < s.size(); ++i) { pos.push_back({}); for (auto& g : tags) { Opt o; o.i = i; o.f = s[i]; o.e = g; pos.back().push_back(o); } } product(pos, true, &want); compare(x, "tagger", ret, hg, want, pos_piece, words(s)); }
}
// ---- compound splitting: pieces of at least three characters; "s"/"es" and the n of "en" may be dropped inside the word
static string cs_piece(const HG::Edge& e) { return e.tail_nodes_.size() == 1 && e.rule_->f_.size() == 2 ? " " + to_string(e.i_) + "-" + to_string(e.j_) + ":" + TD::Convert(e.rule_->f_[1]) + ">" + TD::Convert(e.rule_->e_[1]) : ""; }
static void csplit_ref(const vector<string>& c, size_t at, const string& e, const Fe& s, const string& pc, Bag* b) {
  size_t n = c.size(); if (at == n) { ++(*b)[expect(e, s, pc)]; return; }
  for (size_t j = at + 1; j <= n; ++j) { bool whole = at == 0 && j == n; if (!whole && (j - at < 3 || (j < n && n - j < 3))) continue; string y; for (size_t k = at; k < j; ++k) y += c[k]; size_t len = j - at; vector<pair<string, string>> alt = {{y, ""}};
    if (j < n) { if (len > 5 && c[j - 1] == "s" && c[j - 2] == "e") alt.push_back({y.substr(0, y.size() - 2), "FugS"}); else if (len > 4 && c[j - 1] == "s") alt.push_back({y.substr(0, y.size() - 1), "FugS"}); else if (len > 5 && c[j - 2] == "e" && c[j - 1] == "n") alt.push_back({y.substr(0, y.size() - 1), "FugN"}); }
    for (auto& a : alt) { Fe t = s; if (!a.second.empty()) t[a.second] += 1; csplit_ref(c, j, e + (e.empty() ? "" : " ") + a.first, t, pc + " " + to_string(at) + "-" + to_string(j) + ":" + y + ">" + a.first, b); } }
}
static void csplit(vc::X& x, const vector<vector<string>>& in) {
  if (!x.take()) return; auto join = [](const vector<string>& c) { string s; for (auto& k : c) s += k; return s; }; x.desc([=] { return "compound splitting, " + join(in[0]) + " to " + join(in.back()); }); CompoundSplit tr(dec_conf({}));
  for (auto& c : in) { Lattice ref; SentenceMetadata sm(0, ref); Hypergraph hg; string w = join(c); bool ret = run(tr, w, &sm, &hg); tr.SentenceComplete(); Bag want, got; csplit_ref(c, 0, "", Fe(), "", &want); Bag w2; for (auto& k : want) { string s = k.first; size_t p = s.find(" ||| "); string e = "#"; for (auto& t : split(s.substr(0, p))) e += " " + t; w2[e + s.substr(p)] += k.second; }
    // the template starts every word with "#"
    compare(x, "csplit", ret, hg, w2, cs_piece, w); int e = CompoundSplit::GetFullWordEdgeIndex(hg); x.check(TD::Convert(hg.edges_[e].rule_->f_[1]) == w && TD::Convert(hg.edges_[e].rule_->e_[1]) == w, "csplit-full", [&] { return w + ": the edge of the full word is that of " + hg.edges_[e].rule_->AsString(); }); }
}
// ---- tree to string
struct Tn { string cat; vector<Tn> kid; bool leaf = false; bool site = false; };       // leaf: a word; site: a nonterminal to fill
static Tn parse(const string& s, size_t& p) { Tn t; if (s[p] == '(') { ++p; size_t q = s.find_first_of(" )", p); t.cat = s.substr(p, q - p); p = q; while (s[p] == ' ') { ++p; t.kid.push_back(parse(s, p)); } ++p; return t; } size_t q = s.find_first_of(" )", p); t.cat = s.substr(p, q - p); p = q; if (t.cat[0] == '[') { t.cat = t.cat.substr(1, t.cat.size() - 2); t.site = true; } else t.leaf = true; return t; }
static Tn tree(const string& s) { size_t p = 0; return parse(s, p); }
static string str(const Tn& t) { if (t.leaf) return t.cat; if (t.site) return "[" + t.cat + "]"; string o = "(" + t.cat; for (auto& k : t.kid) o += " " + str(k); return o + ")"; }
struct Rl { Tn src; vector<string> trg; Fe s; };      // trg: words or [k]
static bool match(const Tn& r, const Tn& t, vector<const Tn*>* sites) { if (r.leaf != t.leaf || r.cat != t.cat) return false; if (r.leaf) return true; if (r.site) { sites->push_back(&t); return true; } if (r.kid.size() != t.kid.size()) return false; for (size_t i = 0; i < r.kid.size(); ++i) if (!match(r.kid[i], t.kid[i], sites)) return false; return true; }
struct TD1 { vector<string> e, f; Fe s; multiset<string> span; };
typedef map<const Tn*, pair<int, int>> Spans;
static int span(const Tn& t, int l, Spans* s) { if (t.leaf) return l + 1; int r = l; for (auto& k : t.kid) r = span(k, r, s); (*s)[&t] = {l, r}; return r; }
static void words_of(const Tn& r, vector<string>* w) { if (r.leaf) w->push_back(r.cat); else if (r.site) w->push_back(""); else for (auto& k : r.kid) words_of(k, w); }
static vector<TD1> t2s(const Tn& t, const vector<vector<Rl>>& G, const Spans& sp) {
  vector<TD1> out; for (auto& g : G) for (auto& r : g) { vector<const Tn*> site; if (r.src.site || !match(r.src, t, &site)) continue; vector<vector<TD1>> kid; bool empty = false; for (auto* k : site) { kid.push_back(t2s(*k, G, sp)); empty |= kid.back().empty(); } if (empty) continue; vector<size_t> ix(kid.size()); vector<string> fw; words_of(r.src, &fw);
    while (true) { TD1 d; d.s = r.s; auto& q = sp.at(&t); d.span.insert(to_string(q.first) + "-" + to_string(q.second)); for (size_t k = 0; k < kid.size(); ++k) { d.s += kid[k][ix[k]].s; d.span.insert(kid[k][ix[k]].span.begin(), kid[k][ix[k]].span.end()); } for (auto& w : r.trg) if (w[0] == '[') { auto& v = kid[w[1] - '1'][ix[w[1] - '1']].e; d.e.insert(d.e.end(), v.begin(), v.end()); } else d.e.push_back(w); size_t c = 0; for (auto& w : fw) if (w.empty()) { auto& v = kid[c][ix[c]].f; ++c; d.f.insert(d.f.end(), v.begin(), v.end()); } else d.f.push_back(w); out.push_back(d); size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < kid[k].size()) break; ix[k] = 0; } if (k == ix.size()) break; } }
  return out; }
static void passthrough(const Tn& t, const vector<vector<Rl>>& G, set<string>* seen, vector<Rl>* out) {
  if (t.leaf) return; for (auto& k : t.kid) passthrough(k, G, seen, out); Rl r; r.src.cat = t.cat; bool lex = false, nt = false; int n = 0; for (auto& k : t.kid) { Tn c; c.cat = k.cat; if (k.leaf) { c.leaf = lex = true; r.trg.push_back(k.cat); } else { c.site = nt = true; r.trg.push_back("[" + to_string(++n) + "]"); } r.src.kid.push_back(c); } if (!seen->insert(str(r.src)).second) return;
  if (nt && !lex) for (auto& g : G) for (auto& o : g) if (str(o.src) == str(r.src) && o.trg == r.trg) return;
  r.s["PassThrough"] = r.s["PassThrough:" + t.cat] = 1; if (lex && nt) r.s["PassThrough_Mix"] = 1; else if (lex) r.s["PassThrough_Lexical"] = 1; else if (nt) r.s["PassThrough_Abstract"] = 1; out->push_back(r); }
static const vector<string>& rule_texts() { static vector<string> r = {"(S [A] [B]) ||| [1] [2]", "(S [A] [B]) ||| [2] w [1]", "(S (A a) [B]) ||| x [1]", "(A a) ||| x", "(A a) ||| y", "(A [A] [A]) ||| [2] [1]", "(B b) ||| z", "(B [A] b) ||| [1] w", "(S (A [A] (A a)) (B b)) ||| u [1]", "(S [A] (B b)) ||| [1] v"}; return r; }
static Rl rule(int i) { Rl r; const string& s = rule_texts()[i]; size_t p = s.find(" ||| "); r.src = tree(s.substr(0, p)); r.trg = split(s.substr(p + 5)); r.s["R" + to_string(i)] = 1 + i * .5; return r; }
static void trees(int size, map<pair<string, int>, vector<string>>* memo) { auto& m = *memo; for (int n = 1; n <= size; ++n) { vector<string> A, B, S; if (n == 1) { A = {"(A a)", "(A b)"}; B = {"(B b)"}; S = {"(S a)"}; } for (int k = 1; k + 1 < n; ++k) for (auto& u : m[{"A", k}]) for (auto& v : m[{"A", n - 1 - k}]) A.push_back("(A " + u + " " + v + ")"); for (auto& u : m[{"A", n - 1}]) B.push_back("(B " + u + " b)"); for (int k = 1; k + 1 < n; ++k) for (auto& u : m[{"A", k}]) for (auto& v : m[{"B", n - 1 - k}]) S.push_back("(S " + u + " " + v + ")"); if (n > 1) for (auto& u : m[{"A", n - 1}]) S.push_back("(S " + u + ")"); m[{"A", n}] = A; m[{"B", n}] = B; m[{"S", n}] = S; } }
static void t2scase(vc::X& x, int mask, int how, bool pt, const vector<string>& in) {
  // how: 0 one grammar, 1 two grammars, 2 one plus one per sentence, 3 all twice, 4 only per-sentence ones for every other sentence
  if (!x.take()) return; vector<vector<int>> part(2); for (size_t i = 0; i < rule_texts().size(); ++i) if (mask >> i & 1) part[how == 0 || how == 3 || how == 4 ? 0 : i % 2].push_back(i);
  x.desc([=] { string s = string("tree to string") + (pt ? ", pass-through" : "") + ", grammars " + to_string(how) + ":\n"; for (auto& p : part) { for (int i : p) s += rule_texts()[i] + " ||| R" + to_string(i) + "\n"; s += "--\n"; } return s; });
  vector<string> path; vector<vector<Rl>> G; for (int g = 0; g < 2; ++g) { string t = g ? "" : "# comment\n\n"; G.push_back({}); for (int r = 0; r < (how == 3 ? 2 : 1); ++r) for (int i : part[g]) { t += rule_texts()[i] + " ||| " + fstr(rule(i).s) + "\n"; G[g].push_back(rule(i)); } path.push_back(file(x, "g" + to_string(g), t)); }
  vector<string> args; if (how != 4) args = {"-g", path[0]}; if (how == 1) { args.push_back("-g"); args.push_back(path[1]); } if (pt) args.push_back("-P"); Tree2StringTranslator tr(dec_conf(args), false); int k = 0;
  for (auto& s : in) { map<string, string> kv; bool sup = how == 2 || (how == 4 && k++ % 2 == 0); if (sup) kv["grammar"] = path[how == 4 ? 0 : 1]; vector<vector<Rl>> U; if (how != 4 || sup) U.push_back(G[0]); if (how == 1 || (how == 2 && sup)) U.push_back(G[1]); Tn t = tree(s); if (pt) { vector<Rl> P; set<string> seen; passthrough(t, U, &seen, &P); U.push_back(P); }
    Lattice ref; SentenceMetadata sm(0, ref); Hypergraph hg; bool ret = run(tr, s, &sm, &hg, kv); tr.SentenceComplete(); Spans sp; span(t, 0, &sp); Bag want, got; for (auto& d : t2s(t, U, sp)) { string pc; for (auto& q : d.span) pc += " " + q; ++want[expect(words(d.e), d.s, " " + words(d.f) + " |||" + pc)]; }
    x.step(); if (ret) { string snd = HGReal::sound(hg, true, true); if (!x.check(snd.empty(), "t2s-sound", [&] { return s + ": " + snd; })) continue; vector<RDeriv> R; if (!x.check(HGReal::goal_derivs(hg, &R, 20000), "t2s-derivations", s)) continue; for (auto& d : R) { Fe f; for (auto& q : d.feats) f[FD::Convert(q.first)] = q.second; multiset<string> spn; for (size_t e = 0; e + 1 < d.edges.size(); ++e) { auto& ed = hg.edges_[d.edges[e]]; spn.insert(to_string(ed.i_) + "-" + to_string(ed.j_)); } string pc; for (auto& q : spn) pc += " " + q; ++got[d.estr() + " ||| " + fstr(f) + " ||| " + to_string(llround(d.lp * 1e4)) + " ||| " + d.fstr() + " |||" + pc]; } }
    size_t tot = 0; for (auto& w : want) { tot += w.second; x.state(vc::hstr(w.first)); } if (tot > 1) x.nontrivial(); x.check(got == want, "t2s", [&] { return s + (ret ? "" : " (not translated)") + diff(want, got); }); x.check(ret == !want.empty(), "t2s-return", [&] { return s + ": returned " + to_string(ret); }); }
}
void run_all(vc::X& x) {
  vector<string> n = {"PassThrough", "PassThrough_Mix", "PassThrough_Lexical", "PassThrough_Abstract", "PassThrough:S", "PassThrough:A", "PassThrough:B", "FugS", "FugN"}; for (int i = 0; i < 10; ++i) n.push_back("R" + to_string(i)); for (int i = 1; i < 8; ++i) n.push_back("F" + to_string(i)); for (const char* f : {"a", "b", "<eps>"}) for (const char* e : {"x", "y", "z"}) n.push_back(string("Lx:") + f + "_" + e); know(n);
  auto fs = seqs({"a", "b"}, 1, 3), es = seqs({"x", "y", "z"}, 1, 3);
  for (int m = 0; m < 128; ++m) for (int o = 0; o < 8; ++o) if ((o & 4) == 0 || (o & 3) == 0) { if (x.thorough) { auto e4 = seqs({"x", "y"}, 4, 4); auto es2 = es; es2.insert(es2.end(), e4.begin(), e4.end()); lextrans(x, m, o, fs, es2); } else lextrans(x, m, o, seqs({"a", "b"}, 1, 2), o & 4 ? es : seqs({"x", "y", "z"}, 1, 2)); }
  for (int k = 0; k < 2; ++k) { lexalign(x, k, fs, es); auto rf = fs; reverse(rf.begin(), rf.end()); lexalign(x, k, rf, es); }
  for (auto& t : seqs({"N", "V", "A"}, 1, 3)) for (int st = 0; st < 3; ++st) tagger(x, t, st, seqs({"a", "b"}, 1, x.thorough ? 5 : 4));
  { vector<vector<string>> ws; auto flush = [&](bool all) { if (ws.size() >= 200 || (all && !ws.empty())) { csplit(x, ws); ws.clear(); } }; for (auto& s : seqs({"e", "n", "s", "x"}, 1, x.thorough ? 8 : 6)) { ws.push_back(s); flush(false); } for (int L = 7; L <= (x.thorough ? 13 : 12); ++L) for (int p = 1; p < L; ++p) for (int q = p + 2; q <= L; ++q) for (auto& u : seqs({"e", "n", "s", "x"}, 2, 2)) for (auto& v : seqs({"e", "n", "s", "x"}, 2, 2)) { if (q == L && v[0] + v[1] != "es") continue; vector<string> c(L, "x"); c[p - 1] = u[0]; c[p] = u[1]; if (q < L) { c[q - 1] = v[0]; c[q] = v[1]; } ws.push_back(c); flush(false); } for (auto& s : seqs({"ü", "x", "\xe2\x82\xac"}, 1, 7)) { ws.push_back(s); flush(false); } flush(true); }
  map<pair<string, int>, vector<string>> memo; trees(7, &memo); vector<string> in; for (int k = 1; k <= (x.thorough ? 7 : 6); ++k) { auto& v = memo[{"S", k}]; for (size_t i = 0; i < v.size(); ++i) if (k < 6 || x.thorough || i % 5 == 0) in.push_back(v[i]); } auto rev = in; reverse(rev.begin(), rev.end());
  for (int m = 0; m < 1024; ++m) for (int how = 0; how < 5; ++how) for (int pt = 0; pt < 2; ++pt) { if (!x.thorough && (m * 7 + how * 3 + pt) % 3) continue; if (how == 4 && !m) continue; t2scase(x, m, how, pt, m % 2 ? in : rev); }
}
VC_MAIN(run_all)
