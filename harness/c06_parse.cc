// C06: the SCFG parser's forest is exactly the reference derivation space.
#include "vc.h"
#include "hgreal.h"
#include "decconf.h"
#include "translator.h"
#include "sentence_metadata.h"
#include "inside_outside.h"
#include "verbose.h"
#include <memory>
#include "scfgref.h"
using namespace std;
// ---- reading the real forest in the same terms
static void real(const Hypergraph& g, int v, vector<vector<D>>* M, vector<char>* done, size_t cap, bool* over) {
  if ((*done)[v]) return; (*done)[v] = 1;
  for (int ei : g.nodes_[v].in_edges_) {
    const HG::Edge& e = g.edges_[ei]; const TRule& r = *e.rule_;
    vector<const vector<D>*> ks; for (unsigned t : e.tail_nodes_) { real(g, t, M, done, cap, over); ks.push_back(&(*M)[t]); }
    if (*over) return;
    ostringstream h; h << '(' << TD::Convert(-r.lhs_) << " ->"; for (WordID w : r.f_) h << ' ' << (w < 0 ? "[" + string(TD::Convert(-w)) + "]" : TD::Convert(w)); h << " |"; for (WordID w : r.e_) { if (w <= 0) h << " <" << -w << '>'; else h << ' ' << TD::Convert(w); }
    map<string, double> ft; for (SparseVector<double>::const_iterator i = e.feature_values_.begin(); i != e.feature_values_.end(); ++i) ft[FD::Convert(i->first)] += i->second;
    h << " @" << e.i_ << '-' << e.j_ << fstr(ft);
    vector<size_t> ix(ks.size()); bool empty = false; for (auto k : ks) if (k->empty()) empty = true; if (empty) continue;
    while (true) {
      D d; d.ft = ft; d.tree = h.str(); for (size_t k = 0; k < ks.size(); ++k) { const D& c = (*ks[k])[ix[k]]; d.tree += " " + c.tree; addf(d.ft, c.ft); } d.tree += ")";
      size_t c = 0; for (WordID w : r.f_) if (w < 0) { if (c < ks.size()) d.f += (*ks[c])[ix[c]].f; ++c; } else d.f += string(TD::Convert(w)) + ' ';
      for (WordID w : r.e_) if (w <= 0) { if (-w < (int)ks.size()) d.e += (*ks[-w])[ix[-w]].e; else d.e += "BAD "; } else d.e += string(TD::Convert(w)) + ' ';
      (*M)[v].push_back(d); if ((*M)[v].size() > cap) { *over = true; return; }
      size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < ks[k]->size()) break; ix[k] = 0; } if (k == ix.size()) break;
    }
  }
}
static string plf(const Lat& l) { ostringstream o; o << '('; for (size_t i = 0; i < l.size(); ++i) { o << '('; for (auto& a : l[i]) { o << "('" << a.w << "',"; for (double c : a.cost) o << c << ','; o << a.to - (int)i << "),"; } o << "),"; } o << ')'; return o.str(); }
struct Conf { bool glue, pt; int span; unsigned ptf; unique_ptr<Translator> t; boost::program_options::variables_map m; };
static vector<Conf> confs;
static vector<double> weights;
static void one(vc::X& x, Conf& c, const vector<const Rule*>& G, const string& src, const Lat& l, size_t cap) {
  if (!x.take()) return;
  string gtext; for (auto r : G) gtext += r->text + "\n";
  x.desc([=, &c] { ostringstream o; o << "input: " << src << "\nglue=" << c.glue << " pass-through=" << c.pt << " extra features=" << c.ptf << " span limit=" << c.span << "\n" << gtext; return o.str(); });
  vector<Rule> R; for (auto r : G) R.push_back(*r);
  R.push_back(goal_rule());
  if (c.glue) { R.push_back(mk("[S] ||| [X,1] ||| [1]", 1)); R.push_back(mk("[S] ||| [S,1] [X,2] ||| [1] [2] ||| Glue=1", 1)); }
  if (c.pt) { set<string> seen; for (auto& s : l) for (auto& a : s) if (seen.insert(a.w).second) { string t = "[X] ||| " + a.w + " ||| " + a.w + " ||| PassThrough=1"; if (c.ptf) { int len = 0; for (unsigned char ch : a.w) if ((ch & 0xC0) != 0x80) ++len; int b = (int)(log((double)len) / log(1.6)) + 1; if (b > (int)c.ptf) b = c.ptf; t += " PassThrough_" + to_string(b) + "=1"; } R.push_back(mk(t, 2)); } }
  Lattice ref; SentenceMetadata sm(0, ref);
  Hypergraph g; map<string, string> none;
  static_cast<SCFGTranslator&>(*c.t).AddSupplementalGrammarFromString(gtext);
  c.t->ProcessMarkupHints(none);
  bool ok = c.t->Translate(src, &sm, weights, &g); c.t->SentenceComplete();
  Ref ref_(R, l, c.span, cap); const vector<D> want = ref_.get("Goal", 0, l.size());
  // on a lattice whose paths differ in length, a state inside what a rule covers can be farther than its end: a span limit may or may not reject such an application
  Ref low_(R, l, c.span, cap); low_.whole = true; const vector<D> sure = low_.get("Goal", 0, l.size());
  x.step();
  if (ref_.over) { x.stat("too many derivations to list"); return; }
  if (want.empty()) { x.check(!ok, "parse-found", "the parser reports a parse although the grammar licenses none"); return; }
  if (sure.empty() && !ok) { x.stat("only parses a span limit may reject"); return; }
  if (!x.check(ok, "parse-failed", [&] { return "no parse found, but the grammar licenses e.g. " + want[0].tree; })) return;
  string bad = HGReal::sound(g); if (!x.check(bad.empty(), "structure", [&] { return bad; })) return;
  bool over = false; vector<vector<D>> M(g.nodes_.size()); vector<char> done(g.nodes_.size()); real(g, g.nodes_.size() - 1, &M, &done, cap * 4, &over);
  multiset<string> a, b, c0; for (auto& d : sure) c0.insert(d.tree); for (auto& d : want) a.insert(d.tree); if (!over) for (auto& d : M.back()) b.insert(d.tree);
  x.check(!over && includes(a.begin(), a.end(), b.begin(), b.end()) && includes(b.begin(), b.end(), c0.begin(), c0.end()), "derivations", [&] { string s; int k = 0; for (auto& t : a) if (b.count(t) != a.count(t) && k++ < 4) s += "\n  licensed " + to_string(a.count(t)) + "x, in the forest " + to_string(b.count(t)) + "x: " + t; k = 0; for (auto& t : b) if (!a.count(t) && k++ < 4) s += "\n  in the forest but not licensed: " + t; return "forest differs (" + to_string(a.size()) + " licensed, " + to_string(b.size()) + " found)" + s; });
  // scores
  for (const HG::Edge& e : g.edges_) { double w = 0; for (SparseVector<double>::const_iterator i = e.feature_values_.begin(); i != e.feature_values_.end(); ++i) w += i->second * (i->first < (int)weights.size() ? weights[i->first] : 0); x.check(vc::close(log(e.edge_prob_), w, 1e-6), "edge-score", [&] { ostringstream o; o << "edge score " << log(e.edge_prob_) << " but features x weights = " << w; return o.str(); }); }
  set<size_t> hs; bool uniq = true; for (auto& nd : g.nodes_) uniq = hs.insert(nd.node_hash).second && uniq; x.check(uniq, "node-hash", "two nodes of the forest have the same identity hash");
  x.check(sm.GetSourceLength() == (int)l.size(), "source-length", "source length");
  x.step(want.size()); for (auto& t : a) x.state(vc::hstr(t)); if (want.size() > 1) x.nontrivial();
}
static void run(vc::X& x) {
  SetSilent(true); streambuf* ce = cerr.rdbuf(); static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  for (const char* f : {"Glue", "PassThrough", "LatticeCost_0", "LatticeCost_1", "F", "G"}) { int id = FD::Convert(f); if ((int)weights.size() <= id) weights.resize(id + 1); weights[id] = 0.25 * id - 0.6; }
  for (int glue = 0; glue < 2; ++glue) for (int pt = 0; pt < 3; ++pt) for (int span : {1, 2, 3, 10}) {
    Conf c; c.glue = glue; c.pt = pt; c.span = span; c.ptf = pt == 2 ? 3 : 0; vector<string> a = {"--quiet", "--scfg_max_span_limit", to_string(span)}; if (!glue) a.push_back("-n"); if (pt) a.push_back("-P"); if (pt == 2) { a.push_back("-Q"); a.push_back("3"); }
    c.m = dec_conf(a); c.t.reset(new SCFGTranslator(c.m)); confs.push_back(move(c)); }
  static const char* T[] = {"[X] ||| a ||| A ||| F=1", "[X] ||| a ||| B ||| F=2", "[X] ||| b ||| C", "[X] ||| a b ||| C A ||| F=0.5", "[X] ||| a [X,1] ||| [1] D ||| G=1", "[X] ||| [X,1] b ||| E [1]",
    "[X] ||| [X,1] a [X,2] ||| [2] F [1] ||| F=-1 G=2", "[X] ||| [X,1] [X,2] ||| [2] [1] ||| G=0.25", "[Y] ||| b ||| G", "[X] ||| [Y,1] ||| [1] H ||| F=3", "[Y] ||| [X,1] b ||| [1] I", "[S] ||| [X,1] [Y,2] ||| [1] J [2]",
    "[S] ||| a [S,1] ||| [1] K", "[S] ||| [Y,1] ||| L [1]", "[Y] ||| a [X,1] b [X,2] a ||| [2] [1] M", "[Z] ||| [Y,1] ||| [1] ||| G=4", "[S] ||| [Z,1] [X,2] b ||| [2] N [1]", "[X] ||| [Z,1] [Y,2] [Z,3] ||| [3] [1] [2]"};
  vector<Rule> R; for (auto t : T) R.push_back(mk(t, 0));
  const int NR = R.size();
  // 1. sentences
  vector<vector<string>> in; { vector<string> w = {"a", "b", "c"}; for (int n = 0; n <= (x.thorough ? 5 : 4); ++n) { int p = 1; for (int i = 0; i < n; ++i) p *= n >= 4 ? 2 : 3; for (int m = 0; m < p; ++m) { vector<string> s; int q = m; for (int i = 0; i < n; ++i) { s.push_back(w[q % (n >= 4 ? 2 : 3)]); q /= n >= 4 ? 2 : 3; } in.push_back(s); } } }
  vector<vector<const Rule*>> GS;
  for (int i = 0; i < NR; ++i) { GS.push_back({&R[i]}); for (int j = i + 1; j < NR; ++j) { GS.push_back({&R[i], &R[j]}); for (int k = j + 1; k < NR; ++k) { if (i < 3 || x.thorough) GS.push_back({&R[i], &R[j], &R[k]}); if (x.thorough && i < 3) for (int l = k + 1; l < NR; ++l) GS.push_back({&R[i], &R[j], &R[k], &R[l]}); } } }
  { vector<const Rule*> all; for (int i = 0; i < NR; ++i) all.push_back(&R[i]); GS.push_back(all); for (int i = 0; i < NR; ++i) { auto q = all; q.erase(q.begin() + i); GS.push_back(q); } }
  GS.push_back({&R[0], &R[2], &R[7], &R[8], &R[9]}); GS.push_back({&R[0], &R[0], &R[2]});   // a rule given twice counts twice
  int ci = 0;
  for (auto& G : GS) for (auto& s : in) { Lat l(s.size()); string src; for (size_t i = 0; i < s.size(); ++i) { l[i].push_back(Arc{s[i], (int)i + 1, {}}); src += (i ? " " : "") + s[i]; }
    for (size_t c = 0; c < confs.size(); ++c) { if (s.size() <= 1 && confs[c].span != 10) continue; if (!x.thorough && confs[c].pt == 2 && (ci++ % 4)) continue; if ((int)s.size() <= confs[c].span && confs[c].span < 10) continue; if (!x.thorough && G.size() == 3 && s.size() >= 4 && (c % 3 != ci++ % 3)) continue; one(x, confs[c], G, src, l, s.size() >= 4 ? 400 : 1500); } }
  // pass-through feature lengths
  for (int len = 1; len <= 12; ++len) for (int u = 0; u < 2; ++u) { string w; for (int i = 0; i < len; ++i) w += u ? "\xc3\xa9" : "q"; Lat l(1); l[0].push_back(Arc{w, 1, {}}); for (auto& c : confs) if (c.ptf) one(x, c, {&R[0]}, w, l, 100); }
  // 2. lattices: every connected arc set over up to 3 states beyond the start, labels from {a, b, *EPS*}
  vector<vector<const Rule*>> LG = {{&R[0], &R[2]}, {&R[0], &R[3], &R[4]}, {&R[0], &R[2], &R[7]}, {&R[0], &R[2], &R[6]}, {&R[0], &R[8], &R[9], &R[10], &R[5]}, {&R[0], &R[2], &R[5], &R[8], &R[11]}, {&R[0], &R[8], &R[13], &R[12], &R[15], &R[16]}};
  static const char* L[] = {"a", "b", "*EPS*"};
  for (int n = 1; n <= 3; ++n) {
    vector<pair<int, int>> slots; for (int i = 0; i < n; ++i) for (int j = i + 1; j <= n; ++j) slots.push_back({i, j});
    for (int mask = 1; mask < (1 << slots.size()); ++mask) {
      vector<int> as; vector<bool> i_(n + 1), o_(n + 1); for (size_t s = 0; s < slots.size(); ++s) if (mask >> s & 1) { as.push_back(s); o_[slots[s].first] = i_[slots[s].second] = true; }
      bool ok = true; for (int i = 0; i < n; ++i) ok = ok && o_[i]; for (int i = 1; i <= n; ++i) ok = ok && i_[i]; if (!ok) continue;
      int tot = 1; for (size_t k = 0; k < as.size(); ++k) tot *= 3;
      for (int lab = 0; lab < tot; ++lab) for (int par = 0; par < 2; ++par) {
        Lat l(n); int q = lab; for (size_t k = 0; k < as.size(); ++k) { int z = q % 3; q /= 3; int s = as[k]; l[slots[s].first].push_back(Arc{L[z], slots[s].second, {0.5 + k, (double)((k * 7) % 5)}}); if (par && k == 0) l[slots[s].first].push_back(Arc{L[(z + 1) % 3], slots[s].second, {-3}}); }
        string src = plf(l); int gi = 0;
        for (auto& G : LG) { ++gi; for (auto& c : confs) { if (c.ptf) continue; if (c.span != 10 && (c.span >= n || (!x.thorough && (c.glue != c.pt || (lab + gi) % 2)))) continue; if (!x.thorough && as.size() > 4 && (lab + gi) % 3) continue; one(x, c, G, src, l, 1000); } }
      }
    }
  }
  cerr.rdbuf(ce);
}
VC_MAIN(run)
