// C31: the features a derivation carries are the ones its feature functions define on the whole derivation, however it is composed and shared.
#include <array>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "vc.h"
#include "decconf.h"
#include "hgreal.h"
#include "apply_models.h"
#include "bottom_up_parser.h"
#include "csplit.h"
#include "ff.h"
#include "ff_factory.h"
#include "ff_register.h"
#include "ffset.h"
#include "grammar.h"
#include "lattice.h"
#include "lexalign.h"
#include "sentence_metadata.h"
#include "tagger.h"
#include "verbose.h"
using namespace std;
typedef vector<string> V;
typedef map<string, double> FV;
struct DecoderImpl { static void attribute(SentenceMetadata& m, const string& k, const string& v) { m.sgml_[k] = v; } };
static string join(const V& v, const string& s) { string o; for (size_t i = 0; i < v.size(); ++i) o += (i ? s : "") + v[i]; return o; }
static string esc(string s) { for (char& c : s) if (c == '=' || c == ';') c = '_'; return s; }
static int bin(int n) { int k = 0; if (!n) return 0; k = (int)(log(n + 1) / log(1.39)); return k - 1; }
// ---- what a feature function may look at
struct Node { string name; int i, j; };                        // of the tree of attribute "parse", topmost first
struct Src { V w; map<pair<int, int>, string> label; vector<Node> nodes; int id; };
static const vector<int>* ALIGN;                               // source position (-1: none) of every word of the yield of the derivation under check
struct Sym { bool t; string s; int ix; };                     // terminal word, or nonterminal of category s and (1-based) index
struct Edge { string lhs; vector<Sym> f, e; int i, j; vector<pair<int, int>> tail; const Src* src; };
typedef function<void(const Edge&, FV&)> Local;
typedef function<void(const V& yield, const Src&, FV&)> Whole;
struct Fn { string name, param; Local local; Whole whole; };
static Edge edge_of(const Hypergraph& g, const HG::Edge& q, const Src& src) {
  Edge r; const TRule& u = *q.rule_; r.lhs = TD::Convert(-u.lhs_); r.i = q.i_; r.j = q.j_; r.src = &src; V nts; int n = 0;
  for (WordID w : u.f_) if (w > 0) r.f.push_back(Sym{true, TD::Convert(w), 0}); else { nts.push_back(TD::Convert(-w)); r.f.push_back(Sym{false, nts.back(), ++n}); }
  for (WordID w : u.e_) if (w > 0) r.e.push_back(Sym{true, TD::Convert(w), 0}); else r.e.push_back(Sym{false, nts[-w], 1 - w});
  for (unsigned t : q.tail_nodes_) { const HG::Edge& c = g.edges_[g.nodes_[t].in_edges_[0]]; r.tail.push_back({c.i_, c.j_}); }
  return r;
}
static int words(const vector<Sym>& v) { int n = 0; for (auto& s : v) n += s.t; return n; }
static const double L10 = 1 / log(10.0);
static string shape(const vector<Sym>& v, bool& ok) { string o; for (size_t i = 0; i < v.size();) { if (o.size() % 2 == 0) { if (v[i].t) { o += '1'; while (i < v.size() && v[i].t) ++i; } else o += '0'; } else { o += '1'; ++i; } } ok = o.size() <= 5; while (o.size() < 5) o += '0'; return o; }
static string esym(const Sym& s) { return s.t ? s.s : '[' + to_string(s.ix) + ']'; }
static map<string, string> MAPF = {{"a", "K1"}, {"b", "K2"}}, MAPE = {{"x", "K1"}, {"y", "K2"}, {"q", "K3"}, {"w", "K2"}};     // word -> class, others unknown
// how many words have to be added to or taken from a span to make it a constituent, and which one (extension before reduction, leftmost extension / least taken from the left first)
static pair<int, string> nearest(const Src& s, int i, int j) {
  auto at = [&](int a, int b) { auto k = s.label.find({a, b}); return k == s.label.end() ? string() : k->second; }; string l = at(i, j); if (!l.empty()) return {0, l}; int n = j - i;
  for (int k = 1; k < n; ++k) for (int m = 0; m <= k; ++m) { l = at(i - m, j + k - m); if (!l.empty()) return {k, l}; l = at(i + m, j - k + m); if (!l.empty()) return {k, l}; }
  return {max(1, n - 1), ""};
}
static vector<Fn> functions(const string& dir, bool tagger) {
  vector<Fn> r; auto none = Whole(); auto no = Local();
  auto put = [](const string& f, const string& s) { ofstream o(f.c_str()); o << s; };
  string voc = dir + "/voc", fm = dir + "/fm", em = dir + "/em", sm = dir + "/sm", sv = dir + "/sv", cl = dir + "/cl", tm = dir + "/tm", fs = dir + "/fs";
  put(voc, "x\n y \n\n\xc3\xa9\nnever\n"); { string a, b, c, d; for (auto& m : MAPF) { a += m.second + " " + m.first + "\n"; c += m.first + " " + m.second + "\n"; } for (auto& m : MAPE) { b += m.second + "\t" + m.first + " 12\n"; d += m.second + " " + m.first + "\n"; } put(fm, a); put(em, b); put(sm, c); put(cl, "# classes\n\n" + d); }
  r.push_back({"WordPenalty", "", [](const Edge& e, FV& o) { o["WordPenalty"] -= words(e.e) * L10; }, none});
  r.push_back({"SourceWordPenalty", "", [](const Edge& e, FV& o) { o["SourceWordPenalty"] -= words(e.f) * L10; }, none});
  for (int mx : {-1, 1}) r.push_back({"ArityPenalty", mx < 0 ? "" : to_string(mx), [mx](const Edge& e, FV& o) { int a = e.tail.size(); if (mx < 0 || a <= mx) o["Arity_" + to_string(a)] += 1; }, none});
  r.push_back({"RuleIdentityFeatures", "", [](const Edge& e, FV& o) { V f, g; for (auto& s : e.f) f.push_back(s.t ? s.s : "N" + s.s); for (auto& s : e.e) g.push_back(s.t ? s.s : "N" + to_string(s.ix)); o[esc("R:" + e.lhs + ":" + join(f, "_") + ":" + join(g, "_"))] += 1; }, none});
  r.push_back({"RuleSourceBigramFeatures", "", [](const Edge& e, FV& o) { string p = "<r>"; for (auto& s : e.f) { o[esc("RBS:" + p + "_" + s.s)] += 1; p = s.s; } o[esc("RBS:" + p + "_</r>")] += 1; }, none});
  r.push_back({"RuleTargetBigramFeatures", "", [](const Edge& e, FV& o) { string p = "<r>"; for (auto& s : e.e) { string c = s.t ? s.s : s.s + to_string(s.ix); o[esc("RBT:" + p + "_" + c)] += 1; p = c; } o[esc("RBT:" + p + "_</r>")] += 1; }, none});
  r.push_back({"NonLatinCount", "", no, [](const V& y, const Src&, FV& o) { for (auto& w : y) { bool n = false; for (char c : w) if ((unsigned char)c > 127) n = true; if (n) o["NonLatinCount"] += 1; } }});
  static const set<string> VOC = {"x", "y", "\xc3\xa9", "never"};
  r.push_back({"WordSet", "-v " + voc + " -N In", no, [](const V& y, const Src&, FV& o) { for (auto& w : y) o["In"] += VOC.count(w); }});
  r.push_back({"WordSet", "-v " + voc + " -N Out --oov", no, [](const V& y, const Src&, FV& o) { for (auto& w : y) o["Out"] += !VOC.count(w); }});
  if (!tagger) {
    r.push_back({"RuleShape", "", [](const Edge& e, FV& o) { bool a, b; string f = shape(e.f, a), g = shape(e.e, b); if (a && b) o["Shape_S" + f + "_T" + g] += 1; }, none});
    for (int k = 0; k < 5; ++k) r.push_back({"RuleShape2", string(k != 1 ? " -e " + em : "") + (k != 0 ? " -f " + fm : "") + (k == 3 ? " -p 1" : k == 4 ? " -p 2" : ""), [k](const Edge& e, FV& o) {
      auto cls = [k](const map<string, string>& m, const Sym& s) { if (!s.t) return string("NT"); auto i = m.find(s.s); string c = i == m.end() ? (s.s == "<s>" || s.s == "</s>") ? s.s : "<unk>" : i->second; if (i != m.end() && (k == 3 || k == 4) && c.size() > size_t(k - 2)) c.resize(k - 2); return c; };
      V f, g; for (auto& s : e.f) f.push_back(cls(MAPF, s)); for (auto& s : e.e) g.push_back(cls(MAPE, s)); o["RS:" + (k == 0 ? join(g, "_") : k == 1 ? join(f, "_") : join(f, "_") + "__" + join(g, "_"))] += 1; }, none});
    r.push_back({"CMR2008ReorderingFeatures", "", [](const Edge& e, FV& o) { if (e.tail.size() != 2 || e.lhs == "S") return; bool sw = false; for (auto& s : e.e) if (!s.t) { sw = s.ix == 2; break; } string n = sw ? "CMRReorder" : "CMRMono"; o[n] += 1; o[n + "_" + to_string(bin(min(e.j - e.i, 15)))] += 1; }, none});
    auto span = [](const Edge& e, bool cls, FV& o) { auto m = [&](int p) { string w = p < 0 ? "BOS" : p >= (int)e.src->w.size() ? "EOS" : e.src->w[p]; if (!cls || w == "BOS" || w == "EOS") return w; auto i = MAPF.find(w); return i == MAPF.end() ? string("OOV") : i->second; };
      string S = e.lhs == "S" ? "S_" : "", bl = m(e.i - 1), b = m(e.i), el = m(e.j - 1), f = m(e.j); o[esc("ES:" + f)] += 1; o[esc("EBI:" + el + "_" + f)] += 1; o[esc("BS:" + bl)] += 1; o[esc("BBI:" + bl + "_" + b)] += 1; o[esc(S + "S:" + bl + "_" + f)] += 1; o[esc(S + "LS:" + to_string(bin(e.j - e.i)) + "_" + bl + "_" + f)] += 1; };
    r.push_back({"SpanFeatures", "", [span](const Edge& e, FV& o) { span(e, false, o); }, none});
    r.push_back({"SpanFeatures", sm, [span](const Edge& e, FV& o) { span(e, true, o); }, none});
    { static map<string, double> VAL; VAL.clear(); int n = 0; string s = "# values\n"; for (string p : {"ES:", "BS:"}) for (string w : {"K1", "K2", "OOV", "BOS", "EOS"}) if (++n % 4) VAL[p + w] = 0.5 * n; for (string p : {"EBI:", "BBI:", "S:", "S_S:", "LS:0_", "LS:1_", "LS:2_", "S_LS:2_", "S_LS:3_"}) for (string w : {"K1", "K2", "OOV", "BOS"}) for (string v : {"K1", "K2", "OOV", "EOS"}) if (++n % 5) VAL[p + w + "_" + v] = 0.25 * n; for (auto& v : VAL) { ostringstream q; q << v.first << ' ' << v.second << '\n'; s += q.str(); } put(sv, s);
      r.push_back({"SpanFeatures", sm + " " + sv, [span](const Edge& e, FV& o) { FV d; span(e, true, d); string X = e.lhs == "S" ? "SSpanContext" : "XSpanContext"; for (auto& k : d) { string n = k.first; double v = VAL.count(n) ? VAL[n] : 0; o[n[0] == 'E' ? "SpanEnd" : n[0] == 'B' ? "SpanBegin" : X] += v * k.second; } }, none}); }
    r.push_back({"SourceSpanSizeFeatures", "", [](const Edge& e, FV& o) { if (e.tail.empty()) return; V f, g; for (auto& s : e.f) f.push_back(s.t ? s.s : "[" + s.s + to_string(bin(e.tail[s.ix - 1].second - e.tail[s.ix - 1].first)) + "]"); for (auto& s : e.e) g.push_back(esym(s)); o["SSS:" + join(f, "_") + ":" + join(g, "_")] += 1; }, none});
    auto lab = [](const Edge& e, pair<int, int> p) { auto i = e.src->label.find(p); return i == e.src->label.end() ? string("XX") : i->second; };
    auto syn = [lab](const Edge& e) { V f, g; for (auto& s : e.f) f.push_back(s.t ? s.s : "[" + lab(e, e.tail[s.ix - 1]) + "]"); for (auto& s : e.e) g.push_back(esym(s)); return "SSYN:" + lab(e, {e.i, e.j}) + ":" + join(f, "_") + ":" + join(g, "_"); };
    r.push_back({"SourceSyntaxFeatures", "", [syn](const Edge& e, FV& o) { o[syn(e)] += 1; }, none});
    put(fs, "SSYN:XX:[N]_[V]:[1]_[2]\nSSYN:NP:[N]_[V]:[2]_[1]\nSSYN:N:a:x\nSSYN:NP:[N]_[NP]:[1]_[2]\nSSYN:XX:[XX]_[V]:[1]_[2]\n"); static const set<string> FS = {"SSYN:XX:[N]_[V]:[1]_[2]", "SSYN:NP:[N]_[V]:[2]_[1]", "SSYN:N:a:x", "SSYN:NP:[N]_[NP]:[1]_[2]", "SSYN:XX:[XX]_[V]:[1]_[2]"};
    r.push_back({"SourceSyntaxFeatures", fs, [syn](const Edge& e, FV& o) { string n = syn(e); if (FS.count(n)) o[n] += 1; }, none});
    r.push_back({"SourceSyntaxFeatures2", "", [lab](const Edge& e, FV& o) { string f; for (size_t i = 0; i < e.f.size(); ++i) if (!e.f[i].t) f += (i ? "_" : "") + ("[" + lab(e, e.tail[e.f[i].ix - 1]) + "]"); V g; for (auto& s : e.e) g.push_back(esym(s)); o["SSYN2:" + lab(e, {e.i, e.j}) + ":" + f + ":" + join(g, "_")] += 1; }, none});
    r.push_back({"SoftSyntaxFeatures", "NP2 VP_ N+ S-", [lab](const Edge& e, FV& o) { string l = lab(e, {e.i, e.j}); o[l == "NP" ? "SOFT:NP_conform" : "SOFT:NP_cross"] += 1; o["SOFT:VP"] += l == "VP" ? 1 : -1; if (l == "N") o["SOFT:N_conform"] += 1; if (l != "S") o["SOFT:S_cross"] += 1; }, none});
    r.push_back({"SoftSyntaxFeaturesMindist", "NP2 VP_ N+ S-", [](const Edge& e, FV& o) { auto d = nearest(*e.src, e.i, e.j); const string& l = d.second; if (l == "NP") o[d.first ? "SOFTM:NP_cross" : "SOFTM:NP_conform"] += 1; if (l == "VP") o["SOFTM:VP"] += d.first ? -1 : 1; if (l == "N" && !d.first) o["SOFTM:N_conform"] += 1; if (l != "S" && d.first) o["SOFTM:S_cross"] += 1; }, none});
    for (char c : {' ', 'b', 'l', 'e', 'r'}) r.push_back({"ParseMatchFeatures", c == ' ' ? "" : string(1, c), [c](const Edge& e, FV& o) { int d = nearest(*e.src, e.i, e.j).first, n = e.j - e.i, s = d; for (auto& t : e.tail) s += nearest(*e.src, t.first, t.second).first; o["PM"] += c == 'l' ? 1.0 / (d + 1) : c == 'e' ? exp(-d) : c == 'r' ? double(n) / (n + d) : s == 0; }, none});
    r.push_back({"SoftSynFeature", "", [](const Edge& e, FV& o) { string top; set<string> cross; for (auto& n : e.src->nodes) { if (n.i == e.i && n.j == e.j) { if (top.empty()) top = n.name; } else if (n.i < e.j && e.i < n.j && !(n.i <= e.i && e.j <= n.j) && !(e.i <= n.i && n.j <= e.j)) cross.insert(n.name); } if (!top.empty()) o[top + "*"] += 1; else for (auto& c : cross) o[c + "+"] += 1; }, none});
  }
  for (int k = 0; k < 9; ++k) { int n = k < 5 ? k + 1 : k == 5 ? 3 : k == 6 ? 4 : k == 7 ? 2 : 5; bool cls = k == 5 || k == 8, opt = k == 6 || k == 8; if (tagger && k > 3) continue; string p = "-o " + to_string(n); if (k == 2) p = ""; if (cls) p += " -c " + cl; if (opt) p += " -n Fx -U u: -B b: -T tri: -4 q: -5 five: -S +";
    r.push_back({"NgramFeatures", p, no, [=](const V& y, const Src&, FV& o) { V s(1, "<s>"); for (auto& w : y) { string c = w; if (cls) { auto i = MAPE.find(w); c = i == MAPE.end() ? "<unk>" : i->second; } s.push_back(c); } s.push_back("</s>");
      static const char* P1[] = {"", "U:", "B:", "T:", "4:", "5:"}; static const char* P2[] = {"", "u:", "b:", "tri:", "q:", "five:"};
      for (int t = 1; t < (int)s.size(); ++t) for (int m = 1; m <= n && m <= t + 1; ++m) { string f = opt ? string("Fx") + P2[m] : P1[m]; for (int q = t - m + 1; q <= t; ++q) f += (q > t - m + 1 ? (opt ? "+" : "_") : "") + esc(s[q]); o[f] += 1; } }}); }
  if (tagger) {
    for (int k = 0; k < 2; ++k) r.push_back({"Tagger_BigramIndicator", k ? "no_uni" : "", no, [k](const V& y, const Src&, FV& o) { string p = "BOS"; for (auto& w : y) { if (!k) o[esc("Uni:" + w)] += 1; o[esc("Bi:" + p + "_" + w)] += 1; p = w; } o[esc("Bi:" + p + "_EOS")] += 1; }});
    put(tm, "N nominal\nV verbal\nD= nominal\n"); static const map<string, string> TM = {{"N", "nominal"}, {"V", "verbal"}, {"D=", "nominal"}};
    auto e3 = [](const string& s) { return s == "=" ? string("__EQ") : s == ";" ? string("__SC") : s == "," ? string("__CO") : s; };
    r.push_back({"LexicalPairIndicator", "", no, [e3](const V& y, const Src& s, FV& o) { for (size_t i = 0; i < y.size(); ++i) o[esc("Id:" + e3(s.w[i]) + ":" + e3(y[i]))] += 1; }});
    r.push_back({"LexicalPairIndicator", "Cls * " + tm, no, [e3](const V& y, const Src& s, FV& o) { for (size_t i = 0; i < y.size(); ++i) { auto m = TM.find(y[i]); o[esc("Cls:" + e3(s.w[i]) + ":" + (m == TM.end() ? y[i] : m->second))] += 1; } }});
    r.push_back({"OutputIndicator", "", no, [e3](const V& y, const Src&, FV& o) { for (auto& w : y) o[esc("T:" + e3(w))] += 1; }});
    r.push_back({"SourcePathFeatures", "", no, [](const V&, const Src& s, FV& o) { for (size_t i = 0; i < s.w.size(); ++i) { o["SU:" + s.w[i]] += 1; if (i) o["SB:" + s.w[i - 1] + "_" + s.w[i]] += 1; } }});
    r.push_back({"InputIndicator", "", no, [e3](const V&, const Src& s, FV& o) { for (auto& w : s.w) o[esc("S:" + e3(w))] += 1; }});
    r.push_back({"SourceBigram", "", no, [e3](const V&, const Src& s, FV& o) { string p = "BOS"; for (auto& w : s.w) { o[esc("SB:" + p + "_" + e3(w))] += 1; p = e3(w); } o[esc("SB:" + p + "_EOS")] += 1; }});
    string wp = dir + "/wp", tr = dir + "/tr"; { string f; for (int pass = 0; pass < 2; ++pass) { for (string w : {"b", "a", "="}) for (string t : pass ? V{"N", ";"} : V{"V", "D="}) f += w + " ||| " + t + " ||| P_" + (w == "=" ? "eq" : w) + "=0." + to_string(1 + pass) + (t == "N" ? "" : " Q_" + to_string(t.size()) + "=-2.5e0") + "\n"; } for (int i = 0; i < 24; ++i) f += "w" + to_string(i) + " ||| zz ||| Z=1\n"; put(wp, f); }
    r.push_back({"WordPairFeatures", wp, no, [](const V& y, const Src& s, FV& o) { for (size_t i = 0; i < y.size(); ++i) { string w = s.w[i], t = y[i]; if (w[0] == 'w') continue; bool p1 = t == "N" || t == ";", p0 = t == "V" || t == "D="; if (p0 || p1) { o["P_" + (w == "=" ? string("eq") : w)] += p1 ? 0.2 : 0.1; if (t != "N") o["Q_" + to_string(t.size())] -= 2.5; } } }});
    put(tr, "u v\n\nw\n"); r.push_back({"LexicalTranslationTrigger", tr, no, [](const V& y, const Src& s, FV& o) { for (string t : s.id == 0 ? V{"u", "v"} : s.id == 1 ? V() : V{"w"}) for (size_t i = 0; i < y.size(); ++i) { o["T:" + t + ":" + s.w[i] + "_" + y[i]] += 1; o["TT:" + t + ":" + y[i]] += 1; } }});
    for (string t : {"U1:%x[-1]_%x[0]|%y[0]", "A:%x[1]/%x[2]/%x[-2]/%y[0]", "L:%y[0]%x[10]", "M:%x[-10]%x[-11]%x[11]%y[0]%x[20]"}) r.push_back({"RuleContextFeatures", "-t " + t, no, [t](const V& y, const Src& s, FV& o) { for (int i = 0; i < (int)y.size(); ++i) { string f; for (size_t p = 0; p < t.size();) if (t[p] == '%') { size_t q = t.find(']', p); int k = atoi(t.substr(p + 3, q - p - 3).c_str()); f += t[p + 1] == 'y' ? y[i] : i + k < 0 ? "<s>" : i + k >= (int)s.w.size() ? "</s>" : s.w[i + k]; p = q + 1; } else f += t[p++]; o[esc(f)] += 1; } }});
  }
  return r;
}
static string showfv(const FV& v) { ostringstream o; for (auto& k : v) if (k.second) o << ' ' << k.first << '=' << k.second; return o.str(); }
static void add(FV& a, const FV& b) { for (auto& k : b) a[k.first] += k.second; }
static double uses(const Hypergraph& g) { vector<double> c(g.nodes_.size()); for (size_t v = 0; v < c.size(); ++v) for (int ei : g.nodes_[v].in_edges_) { double p = 1; for (unsigned t : g.edges_[ei].tail_nodes_) p *= c[t]; c[v] += p; } return c.empty() ? 0 : c.back(); }
struct D { V y; vector<int> al; SparseVector<double> got; FV want; };
typedef boost::shared_ptr<FeatureFunction> FFP;
struct Model { vector<const Fn*> fn; vector<FFP> ff; };
// rescores one unscored forest and compares every derivation
static bool score(vc::X& x, Model& m, const Hypergraph& in, SentenceMetadata& sm, const Src& src, const string& what) {
  vector<const FeatureFunction*> fv; for (auto& f : m.ff) fv.push_back(f.get()); static vector<double> wt(10, 0.0); ModelSet ms(wt, fv); ms.PrepareForInput(sm);
  Hypergraph out; ApplyModelSet(in, sm, ms, IntersectionConfiguration(0, 0), &out); double a = uses(in), b = uses(out);
  string bad = HGReal::sound(out); if (!x.check(bad.empty(), "unsound", [&] { return what + ": " + bad; })) return false;
  if (!x.check(a == b, "count", [&] { return what + ": " + to_string(a) + " derivations before, " + to_string(b) + " after"; })) return false;
  vector<vector<D>> T(out.nodes_.size());
  for (size_t v = 0; v < T.size(); ++v) for (int ei : out.nodes_[v].in_edges_) { const HG::Edge& q = out.edges_[ei]; Edge e = edge_of(out, q, src); FV loc; if (e.lhs != "Goal") for (auto f : m.fn) if (f->local) f->local(e, loc);   // the goal rule is not scored
    vector<size_t> ix(q.tail_nodes_.size());
    while (true) { D d; d.got = q.feature_values_; d.want = loc; for (size_t k = 0; k < ix.size(); ++k) { D& c = T[q.tail_nodes_[k]][ix[k]]; d.got += c.got; add(d.want, c.want); }
      for (auto& s : e.e) if (s.t) { d.y.push_back(s.s); d.al.push_back(q.i_); } else { D& c = T[q.tail_nodes_[s.ix - 1]][ix[s.ix - 1]]; d.y.insert(d.y.end(), c.y.begin(), c.y.end()); d.al.insert(d.al.end(), c.al.begin(), c.al.end()); }
      T[v].push_back(d); size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < T[q.tail_nodes_[k]].size()) break; ix[k] = 0; } if (k == ix.size()) break; } }
  for (D& d : T.back()) { ALIGN = &d.al; for (auto f : m.fn) if (f->whole) f->whole(d.y, src, d.want); FV got; for (auto it = d.got.begin(); it != d.got.end(); ++it) got[FD::Convert(it->first)] += it->second;
    set<string> ks; for (auto& k : got) ks.insert(k.first); for (auto& k : d.want) ks.insert(k.first); string diff; for (auto& k : ks) { double g = got.count(k) ? got[k] : 0, w = d.want.count(k) ? d.want[k] : 0; if (fabs(g - w) > 1e-6 * (1 + fabs(w))) { ostringstream o; o << ' ' << k << ": " << g << " instead of " << w; diff += o.str(); } }
    string key = m.fn.size() == 1 ? m.fn[0]->name : "all"; x.check(diff.empty(), key, [&] { return what + ": the derivation yielding '" + join(d.y, " ") + "' has" + diff; }); x.state(vc::hstr(showfv(d.want), 0)); }
  x.step(T.back().size()); if (T.back().size() > 1) x.nontrivial(); return true;
}
static Model make(vc::X& x, const vector<Fn>& fns, vector<int> which) { Model m; for (int k : which) { const Fn& f = fns[k]; m.fn.push_back(&f); FFP p = ff_registry.Create(f.name, f.param); if (!p) { x.fail("create", "no feature function " + f.name); continue; } m.ff.push_back(p); } return m; }
static const V LEX[] = {{"a ||| x", "b ||| y"}, {"a ||| x y", "b ||| x", "a b ||| x x \xc3\xa9"}, {"a ||| \xc3\xa9 q", "a ||| x=;", "b ||| w"}, {"a ||| x y q w v u", "b ||| y y", "b a ||| = z"}};
static const V PAT = {"[X] ||| [X,1] [X,2] ||| [1] [2]", "[X] ||| [X,1] [X,2] ||| [2] [1]", "[X] ||| a [X,1] ||| [1] x", "[X] ||| [X,1] b ||| y [1]", "[X] ||| [X,1] a [X,2] ||| [2] x y [1]", "[X] ||| a [X,1] b ||| x [1] z", "[X] ||| [X,1] [X,2] ||| [1] x [2]", "[X] ||| [Y,1] [X,2] ||| w [2] [1] w", "[X] ||| b [X,1] ||| [1]"};
// labelled trees over n leaves
static string tree(int k, int n, const V& w, map<pair<int, int>, string>& lab) {
  lab.clear(); auto pre = [&](int i) { string t = (i + k) % 2 ? "V" : "N"; lab[{i, i + 1}] = t; return "(" + t + " " + w[i] + ")"; }; string s;
  if (k == 0) { s = pre(n - 1); for (int i = n - 2; i >= 0; --i) { string l = i == 0 ? "S" : i % 2 ? "VP" : "NP"; s = "(" + l + " " + pre(i) + " " + s + ")"; lab[{i, n}] = l; } }
  else if (k == 1) { s = pre(0); for (int i = 1; i < n; ++i) { string l = i % 2 ? "NP" : "VP"; s = "(" + l + " " + s + " " + pre(i) + ")"; lab[{0, i + 1}] = l; } }
  else if (k == 2) { s = "(S"; for (int i = 0; i < n; ++i) s += " " + w[i]; s += ")"; lab[{0, n}] = "S"; }
  else { s = "(NP"; for (int i = 0; i < n; ++i) s += " " + pre(i); s += ")"; lab[{0, n}] = "NP"; s = "(S (VP " + s + "))"; lab[{0, n}] = "S"; }
  return s;
}
static vector<Node> nodes_of(const string& t) { vector<Node> r; vector<int> st; int n = 0; for (size_t p = 0; p < t.size();) { if (t[p] == '(') { size_t q = t.find(' ', p); st.push_back(r.size()); r.push_back(Node{t.substr(p + 1, q - p - 1), n, n}); p = q + 1; } else if (t[p] == ')') { r[st.back()].j = n; st.pop_back(); ++p; } else if (t[p] == ' ') ++p; else { p = t.find_first_of(" )", p); ++n; } } return r; }
// the tree of attribute src_tree, and another one of attribute parse (or none: then the former stands for it)
static string attach(vc::X& x, int id, const V& w, SentenceMetadata& sm, Src& src) {
  string t = tree(id % 4, w.size(), w, src.label), p = t; { ofstream o((x.dir + "/tree").c_str()); o << t; } DecoderImpl::attribute(sm, "src_tree", x.dir + "/tree");
  if (id % 4 == 2 || id % 5) { map<pair<int, int>, string> l; const int K[] = {1, 0, 3}; p = tree(K[id % 3], w.size(), w, l); if (id % 7 < 3) p = "(ROOT " + p + ")"; ofstream o((x.dir + "/parse").c_str()); o << p << "\n"; DecoderImpl::attribute(sm, "parse", x.dir + "/parse"); }
  src.nodes = nodes_of(p); if (p.compare(0, 6, "(ROOT ") == 0) src.nodes.erase(src.nodes.begin()); return t + (p == t ? "" : " parse " + p);
}
static GrammarPtr grammar(const V& rules) { string s; for (auto& r : rules) s += r + " |||\n"; istringstream i(s); return GrammarPtr(new TextGrammar(&i)); }
static void prepare(SentenceMetadata& sm, const V& w) { LatticeTools::ConvertTextToLattice(join(w, " "), &sm.src_lattice_); sm.SetSourceLength(w.size()); sm.ComputeInputLatticeType(); }
static void hiero(vc::X& x) {
  vector<Fn> fns = functions(x.dir, false); vector<vector<int>> sets; { vector<int> all; for (size_t k = 0; k < fns.size(); ++k) { sets.push_back({(int)k}); if (k != 3 && fns[k].param.find("-o") && !(fns[k].name == "SpanFeatures" && fns[k].param != "") && !(fns[k].name == "SourceSyntaxFeatures" && fns[k].param != "") && fns[k].name != "RuleShape2" && !(fns[k].name == "ParseMatchFeatures" && fns[k].param != "") && fns[k].name != "ArityPenalty") all.push_back(k); } sets.push_back(all); }
  vector<V> sents; for (int n = 1; n <= (x.thorough ? 4 : 3); ++n) for (int b = 0; b < 1 << n; ++b) { V s; for (int i = 0; i < n; ++i) s.push_back((b >> i) & 1 ? "b" : "a"); sents.push_back(s); } if (!x.thorough) for (string t : {"a b a b", "b b a a", "a a b b", "a b b a"}) { istringstream i(t); V s; string w; while (i >> w) s.push_back(w); sents.push_back(s); }
  stable_sort(sents.begin(), sents.end(), [](const V& a, const V& b) { return vc::hstr(join(a, ""), 0) % 97 < vc::hstr(join(b, ""), 0) % 97; });
  vector<vector<int>> pats; for (int a = 0; a < (int)PAT.size(); ++a) for (int b = a + 1; b < (int)PAT.size(); ++b) { pats.push_back({a, b}); if (x.thorough || (a * 7 + b) % 4 == 0) for (int c = b + 1; c < (int)PAT.size(); ++c) pats.push_back({a, b, c}); }
  for (auto& ps : pats) for (int lx = 0; lx < 4; ++lx) {
    if (!x.thorough && (ps[0] + ps[1] + lx) % 2) continue;
    if (!x.take()) continue;
    V rules; for (auto& l : LEX[lx]) rules.push_back("[X] ||| " + l); for (int p : ps) rules.push_back(PAT[p]); rules.push_back("[Y] ||| b ||| q"); rules.push_back("[Y] ||| a b ||| v"); rules.push_back("[S] ||| [X,1] ||| [1]"); rules.push_back(lx % 2 ? "[S] ||| [S,1] [X,2] ||| [1] [2]" : "[S] ||| [S,1] [X,2] ||| [2] [1]");
    x.desc([&] { return "grammar\n  " + join(rules, "\n  "); });
    ExhaustiveBottomUpParser P("S", vector<GrammarPtr>(1, grammar(rules))); vector<Model> ms; for (auto& s : sets) ms.push_back(make(x, fns, s)); int id = 0;
    for (auto& w : sents) { SentenceMetadata sm(id, Lattice()); prepare(sm, w); Hypergraph in; if (!P.Parse(sm.src_lattice_, &in) || uses(in) > 600) continue; Src src; src.w = w; src.id = id; string t = attach(x, id++, w, sm, src);
      for (size_t i = 0; i < ms.size(); ++i) if (!score(x, ms[i], in, sm, src, (i + 1 == ms.size() ? "all functions" : fns[i].name + " " + fns[i].param) + ", sentence " + to_string(id) + " '" + join(w, " ") + "' tree " + t)) return; }
  }
  // long spans
  for (int n = 13; n <= (x.thorough ? 60 : 36); ++n) { if (!x.take()) continue; x.desc([=] { return "a sentence of " + to_string(n) + " words in long phrases"; }); V rules; for (int k : {7, 8, 13, 14, 15, 16, 17, 20}) { V a(k, "a"); rules.push_back("[X] ||| " + join(a, " ") + " ||| x" + (k % 2 ? " y" : "")); } rules.push_back(PAT[0]); rules.push_back(PAT[1]); rules.push_back("[S] ||| [X,1] ||| [1]");
    ExhaustiveBottomUpParser P("S", vector<GrammarPtr>(1, grammar(rules))); V w(n, "a"); SentenceMetadata sm(n, Lattice()); prepare(sm, w); Hypergraph in; if (!P.Parse(sm.src_lattice_, &in) || uses(in) > 20000) continue; Src src; src.w = w; src.id = n; attach(x, n, w, sm, src);
    for (auto& s : sets) { Model m = make(x, fns, s); if (!score(x, m, in, sm, src, s.size() > 1 ? "all functions" : fns[s[0]].name + " " + fns[s[0]].param)) return; } }
}
static void markers(vc::X& x) {   // rules that bring the sentence markers themselves
  vector<Fn> fns; for (int n = 1; n <= 5; ++n) fns.push_back({"NgramFeatures", "-x -o " + to_string(n), Local(), [n](const V& s, const Src&, FV& o) { static const char* P1[] = {"", "U:", "B:", "T:", "4:", "5:"}; for (int t = 1; t < (int)s.size(); ++t) for (int m = 1; m <= n && m <= t + 1; ++m) { string f = P1[m]; for (int q = t - m + 1; q <= t; ++q) f += (q > t - m + 1 ? "_" : "") + esc(s[q]); o[f] += 1; } }});
  for (int p = 0; p < (int)PAT.size(); ++p) for (int p2 = 0; p2 < p; ++p2) for (int lx = 0; lx < 4; ++lx) { if (!x.take()) continue; V rules; for (auto& l : LEX[lx]) rules.push_back("[X] ||| " + l); rules.push_back(PAT[p]); rules.push_back(PAT[p2]); rules.push_back("[Y] ||| b ||| q"); rules.push_back((p + lx) % 3 == 0 ? "[S] ||| [X,1] ||| <s> [1] </s>" : (p + lx) % 3 == 1 ? "[T] ||| [X,1] ||| <s> [1]" : "[T] ||| [X,1] ||| [1] </s>"); if ((p + lx) % 3 == 1) rules.push_back("[S] ||| [T,1] ||| [1] </s>"); if ((p + lx) % 3 == 2) rules.push_back("[S] ||| [T,1] ||| <s> [1]");
    x.desc([&] { return "markers in the grammar\n  " + join(rules, "\n  "); }); ExhaustiveBottomUpParser P("S", vector<GrammarPtr>(1, grammar(rules))); vector<Model> ms; for (int k = 0; k < 5; ++k) ms.push_back(make(x, fns, {k}));
    for (int n = 1; n <= 4; ++n) for (int b = 0; b < 1 << n; ++b) { V w; for (int i = 0; i < n; ++i) w.push_back((b >> i) & 1 ? "b" : "a"); SentenceMetadata sm(0, Lattice()); prepare(sm, w); Hypergraph in; if (!P.Parse(sm.src_lattice_, &in) || uses(in) > 600) continue; Src src; src.w = w; for (int k = 0; k < 5; ++k) if (!score(x, ms[k], in, sm, src, "NgramFeatures " + fns[k].param + ", sentence '" + join(w, " ") + "'")) return; } }
}
static void tagging(vc::X& x) {
  vector<Fn> fns = functions(x.dir, true); vector<vector<int>> sets; vector<int> all; for (size_t k = 0; k < fns.size(); ++k) { sets.push_back({(int)k}); if (fns[k].name != "Tagger_BigramIndicator" || fns[k].param == "") if (fns[k].name != "ArityPenalty" || fns[k].param == "") if (fns[k].name != "NgramFeatures" && fns[k].name != "SourceBigram") all.push_back(k); } sets.push_back(all);
  const V tagsets[] = {{"N"}, {"N", "V"}, {"N", "V", "D="}, {";", ","}}; const V wd = {"a", "b", "="};
  for (int ti = 0; ti < 4; ++ti) for (size_t si = 0; si < sets.size(); ++si) { if (!x.take()) continue; x.desc([&] { return "tags " + join(tagsets[ti], " ") + ", functions " + (si + 1 == sets.size() ? "all" : fns[si].name + " " + fns[si].param); });
    string f = x.dir + "/tags"; { ofstream o(f.c_str()); o << join(tagsets[ti], "\n") << "\n"; } auto conf = dec_conf({"-t", f}); Tagger T(conf); Model m = make(x, fns, sets[si]); vector<V> sents;
    for (int n = 1; n <= (x.thorough ? 5 : 4); ++n) { int c = 1; for (int i = 0; i < n; ++i) c *= 3; for (int b = 0; b < c; ++b) { V w; for (int i = 0, r = b; i < n; ++i, r /= 3) w.push_back(wd[r % 3]); sents.push_back(w); } }
    if (ti == 0) for (int n : {11, 12, 13, 24}) { V w; for (int i = 0; i < n; ++i) w.push_back("w" + to_string(i)); sents.push_back(w); }
    stable_sort(sents.begin(), sents.end(), [](const V& a, const V& b) { return vc::hstr(join(a, ""), 0) % 97 < vc::hstr(join(b, ""), 0) % 97; });
    for (auto& w : sents) { int id = (w.size() + w[0].size() + ti) % 3; SentenceMetadata sm(id, Lattice()); Hypergraph in; T.ProcessMarkupHints(map<string, string>()); static vector<double> wt(10, 0.0); if (!T.Translate(join(w, " "), &sm, wt, &in)) { x.fail("tagger", "no forest"); return; } T.SentenceComplete(); Src src; src.w = w; src.id = id; if (!score(x, m, in, sm, src, "sentence '" + join(w, " ") + "'")) return; } }
}
// lexical alignment: every word of the reference comes from one source word (or none); features of the jumps between neighbours
static vector<Fn> alignment_functions(const string& dir, const vector<V>& cls) {
  vector<Fn> r; auto no = Local(); { ofstream o((dir + "/cls").c_str()); for (auto& c : cls) o << join(c, " ") << '\n'; }
  for (int k = 0; k < 2; ++k) r.push_back({"RelativeSentencePosition", k ? dir + "/cls" : "", no, [k, cls](const V& y, const Src& s, FV& o) { for (size_t j = 0; j < y.size(); ++j) { int a = (*ALIGN)[j]; if (a < 0) continue; double v = fabs(double(a) / s.w.size() - double(j) / y.size()); o["RelativeSentencePosition"] += v; if (k) o["RelPos_FC:" + cls[s.id][a]] += v; } }});
  r.push_back({"LexNullJump", "", no, [](const V& y, const Src&, FV& o) { for (size_t j = 1; j < y.size(); ++j) o[string("Jump") + ((*ALIGN)[j - 1] < 0 ? "Null" : "Lex") + ((*ALIGN)[j] < 0 ? "Null" : "Lex")] += 1; }});
  r.push_back({"Fertility", "", no, Whole()});
  for (int k : {0, 2, 3, 6}) r.push_back({"IdentityCycleDetector", k ? to_string(k) : "", no, [k](const V& y, const Src& s, FV& o) { size_t n = k ? k : 3; for (size_t j = 1; j < y.size(); ++j) { int a = (*ALIGN)[j - 1], b = (*ALIGN)[j]; if (a != b || a < 0) continue; auto id = [&](size_t q) { return y[q] == s.w[a] && y[q].size() >= n; }; if (id(j) != id(j - 1)) o["IdentityCycle_LenGT" + to_string(n)] += 1; } }});
  const V conf = {"", "use_binned_log_lengths", "flen", "elen", "flen elen", "f0", "f-1", "f+1", "fprev", "f0 f-1 f+1 fprev", "use_binned_log_lengths flen elen fprev f0", "elen f+1"};
  for (auto& c : conf) { auto has = [&](const string& o) { return (" " + c + " ").find(" " + o + " ") != string::npos; }; bool bl = has("use_binned_log_lengths"), F = has("flen"), E = has("elen"), C = has("f0"), L = has("f-1"), R = has("f+1"), P = has("fprev");
    r.push_back({"NewJump", c + (C || L || R || P ? (c.empty() ? "" : " ") + string("f:") + dir + "/cls" : ""), no, [=](const V& y, const Src& s, FV& o) {
      int n = s.w.size(), m = y.size(); const V& k = cls[s.id]; auto word = [&](int i) { return i < 0 ? string("BOS") : i >= n ? string("EOS") : k[i]; }; auto len = [&](int l) { return to_string(bl ? min(16, int(log(l + 1) / log(1.3))) : l); };
      auto fire = [&](int p, int c) { int d = c - p; string f = string("J") + (F ? "F" : "") + (E ? "E" : "") + (C ? "C" : "") + (L ? "L" : "") + (R ? "R" : "") + (P ? "P" : "") + ":" + (d > 0 ? "R" : d ? "L" : "S") + len(abs(d)) + (F ? ":" + len(n) : "") + (E ? ":" + len(m) : "") + (C ? ":" + word(c) : "") + (L ? ":" + word(c - 1) : "") + (R ? ":" + word(c + 1) : "") + (P ? ":" + word(p) : ""); o[f] += 1; };
      const vector<int>& a = *ALIGN; if (a[0] >= 0) fire(-1, a[0]); for (int j = 1; j < m; ++j) if (a[j - 1] >= 0 && a[j] >= 0) fire(a[j - 1], a[j]); if (m > 1 && a[m - 1] >= 0) fire(a[m - 1], n); }}); }
  return r;
}
static void aligning(vc::X& x) {
  vector<V> fs, cls; const V wd = {"house", "ab", "haus"}; for (int n = 1; n <= (x.thorough ? 4 : 3); ++n) { int c = 1; for (int i = 0; i < n; ++i) c *= n == 4 ? 2 : 3; for (int b = 0; b < c; ++b) { V w; for (int i = 0, q = b; i < n; ++i, q /= n == 4 ? 2 : 3) w.push_back(wd[q % (n == 4 ? 2 : 3)]); fs.push_back(w); } } for (int n : {5, 12, 70}) fs.push_back(V(n, "long"));
  for (auto& f : fs) { V c; for (size_t i = 0; i < f.size(); ++i) c.push_back("K" + to_string((f[i].size() + i + cls.size()) % 4)); cls.push_back(c); }
  vector<V> es; const V we = {"house", "ab", "long"}; for (int n = 1; n <= 4; ++n) { int c = 1; for (int i = 0; i < n; ++i) c *= n == 4 ? 2 : 3; for (int b = 0; b < c; ++b) { V w; for (int i = 0, q = b; i < n; ++i, q /= n == 4 ? 2 : 3) w.push_back(we[q % (n == 4 ? 2 : 3)]); es.push_back(w); } }
  vector<Fn> fns = alignment_functions(x.dir, cls);
  for (int null = 0; null < 2; ++null) for (size_t k = 0; k <= fns.size(); ++k) { if (!x.take()) continue; vector<int> which; if (k < fns.size()) which.push_back(k); else which = {1, 2, 3, 4, 7, 17}; x.desc([&] { return string("lexical alignment") + (null ? ", null" : "") + ", functions " + (k < fns.size() ? fns[k].name + " " + fns[k].param : "several"); });
    auto conf = null ? dec_conf({"--lexcrf_use_null"}) : dec_conf({}); LexicalAlign T(conf); Model m = make(x, fns, which);
    for (size_t i = 0; i < fs.size(); ++i) for (size_t e = 0; e < es.size(); ++e) { if ((fs[i].size() > 11 && es[e].size() > 2) || (fs[i].size() + es[e].size() > 6 && !x.thorough && (i + e) % 5)) continue; Lattice ref; LatticeTools::ConvertTextToLattice(join(es[e], " "), &ref); SentenceMetadata sm(i, ref); Hypergraph in; T.ProcessMarkupHints(map<string, string>()); static vector<double> wt(10, 0.0); if (!T.Translate(join(fs[i], " "), &sm, wt, &in)) { x.fail("lexalign", "no forest"); return; } T.SentenceComplete(); in.is_linear_chain_ = false; for (auto& q : in.edges_) q.feature_values_.clear(); Src src; src.w = fs[i]; src.id = i; if (uses(in) > 20000) continue; if (!score(x, m, in, sm, src, (k < fns.size() ? fns[k].name + " " + fns[k].param : "several") + ", sentence " + to_string(i) + " '" + join(fs[i], " ") + "' / '" + join(es[e], " ") + "'")) return; } }
}
static int letters(const string& s) { int n = 0; for (char c : s) n += ((unsigned char)c & 0xc0) != 0x80; return n; }
static void splitting(vc::X& x) {   // compound splitting: every path is one segmentation, every segment has the features of its text
  const V piece = {"sch", "ie", "zw", "ch", "\xc3\xa4", "es", "s", "en", "t"}; V words, pool; for (int n = 1; n <= (x.thorough ? 4 : 3); ++n) { int c = 1; for (int i = 0; i < n; ++i) c *= piece.size(); for (int b = 0; b < c; ++b) { string w; for (int i = 0, r = b; i < n; ++i, r /= piece.size()) w += piece[r % piece.size()]; words.push_back(w); } } sort(words.begin(), words.end()); words.erase(unique(words.begin(), words.end()), words.end()); pool = words; words.push_back("schienenersatzverkehr"); words.push_back("t"); words.push_back(string(14, 't')); for (string q : {"tt", "ttt", "tttt", "schienen", "ersatz", "ersat", "verkehr", "schien"}) pool.push_back(q);
  sort(pool.begin(), pool.end()); pool.erase(unique(pool.begin(), pool.end()), pool.end()); static map<string, double> FR; FR.clear(); static set<string> BAD, SPEC; BAD.clear(); SPEC.clear(); { string f = "#comment 3\n", b, s; for (auto& w : pool) { unsigned h = vc::hstr(w, 0) % 20; if (h < 12) { FR[w] = 2 + 0.75 * (h % 12); ostringstream o; o << w << ' ' << FR[w] << '\n'; f += o.str(); } if (h % 5 == 1) { BAD.insert(w); b += w + "\n"; } if (h % 4 == 3) { SPEC.insert(w); s += w + "\n"; } } ofstream(x.dir + "/freq") << f; ofstream(x.dir + "/bad") << b; ofstream(x.dir + "/spec") << s; }
  for (int k = 0; k < 3; ++k) for (int part = 0; part < 8; ++part) { if (!x.take()) continue; x.desc([&] { return string("compound splitting, ") + (k == 0 ? "frequencies" : k == 1 ? "frequencies, bad words" : "frequencies, bad words, sensitive words") + ", words whose index is " + to_string(part) + " modulo 8"; });
    vector<Fn> fns; fns.push_back({"CSplit_BasicFeatures", x.dir + "/freq" + (k ? " " + x.dir + "/bad" : "") + (k == 2 ? " " + x.dir + "/spec" : ""), [k](const Edge& e, FV& o) { if (e.tail.empty() || e.lhs == "Goal") return; string f = e.f[1].s, w = e.e[1].s; if (f != w) o[f.back() == 's' ? "FugS" : "FugN"] += 1; int n = e.src->w.size(), d = e.j - e.i, c = letters(w); bool sub = e.i > 0 || e.j < n; if (w.find("sch") != string::npos) c -= 2; else if (w.find("ch") != string::npos) c -= 1; if (w.find("ie") != string::npos) c -= 1; if (w.find("zw") != string::npos) c -= 1;
      o["LenBias_" + to_string(min(9, (int)(log(n) / log(1.69))))] += 1; o["WordCount"] += 1; o["LettersSq"] += d * d; o["LettersLog"] += log(d); o["LettersSqrt"] += sqrt(d); double q = FR.count(w) ? FR[w] : 0; if (q) { o["LogFreq"] += q; o["LogLogFreq"] += log(q) / log(1.69); o["InDict"] += 1; if (sub) o["InDictSubWord"] += 1; } else { if (!sub) o["InDictFullWord"] += 1; o["OOV"] += 1; if (sub) o["OOVSubWord"] += 1; q = 99; }
      if (k == 2 && SPEC.count(w)) o["CS:" + w] += 1; if (k && BAD.count(w)) o["Bad"] += 1; if (c < 5) o["Short"] += 1; if (c > 10) o["Long"] += 1; if (q < 7) o["HighFreq"] += 1; if (q > 8 && q < 10) o["MedFreq"] += 1; if (q < 10 && c < 5) o["ShortRange"] += 1; o["FreqLen1"] += sqrt(c * q); o["FreqLen2"] += q / c; }, Whole()});
    Model m = make(x, fns, {0}); auto conf = dec_conf({}); CompoundSplit T(conf); static vector<double> wt(10, 0.0);
    for (size_t wi = part; wi < words.size(); wi += 8) { const string& w = words[wi]; if (letters(w) > 21) continue; SentenceMetadata sm(0, Lattice()); Hypergraph in; T.ProcessMarkupHints(map<string, string>()); if (!T.Translate(w, &sm, wt, &in)) { x.fail("csplit", "no forest for " + w); return; } T.SentenceComplete(); Src src; for (size_t i = 0; i < w.size();) { size_t j = i + 1; while (j < w.size() && ((unsigned char)w[j] & 0xc0) == 0x80) ++j; src.w.push_back(w.substr(i, j - i)); i = j; } src.id = 0; if (uses(in) > 4000) continue; if (!score(x, m, in, sm, src, "CSplit_BasicFeatures, word '" + w + "'")) return; } }
}
static void run(vc::X& x) {
  SetSilent(true); static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf()); register_feature_functions();
  for (int k = 0; k < 60; ++k) TD::Convert("filler" + to_string(k)); hiero(x); markers(x); tagging(x); aligning(x); splitting(x);
}
VC_MAIN(run)
