// C32: the decoder as a whole: what it writes for every sentence of a session is what the model of that sentence defines.
#include "scfgref.h"
#include "arpa.h"
#include "hgreal.h"
#include "decoder.h"
#include "ff_register.h"
#include "hg_io.h"
#include "filelib.h"
#include "verbose.h"
#include "sparse_vector.h"
#include "b64featvector.h"
#include "sentence_metadata.h"
#include "weights.h"
#include <algorithm>
#include <memory>
#include <functional>
#include <dirent.h>
using namespace std;
typedef map<string, double> FV;
struct Item { string e; FV ft; vector<string> edges, nodes; double sc = 0; bool must = true; };
struct Snt { string src, ref, attrs; int id; int gram; FV delta; bool up = false; };   // id -1: none given; gram: index of a per-sentence grammar or -1; up: weights changed by the caller before it
struct Pass { int w; vector<int> ff; int summary; double beam, density; string strat; int pop; };   // ff: 0 WordPenalty 1 SourceWordPenalty 2 KLanguageModel; summary 0 none 1 node_risk 2 edge_risk 3 edge_prob
struct Conf {
  string name; vector<Pass> p; int k = 0; bool unique = false, glue = true, pt = false; int ptf = 0, span = 10; int grad = 0, combine = 1; bool b64 = false, cond = false, fexp = false, fout = false, mira = false, inc = false, scale = false, part = false; int sample = 0; bool refs = false, update = false; int len = 2;
};
static const double L10 = 1 / log(10.0);
static const int MAXW = 4;
static FV W[MAXW] = {{{"F", 0.37}, {"G", -0.21}, {"Glue", -0.13}, {"PassThrough", -1.07}, {"PassThrough_1", -0.03}, {"WordPenalty", 0.29}, {"KLanguageModel", 0.83}, {"KLanguageModel_OOV", -0.47}, {"LanguageModel", 0.57}, {"LanguageModel_OOV", -0.31}, {"SourceWordPenalty", 0.61}},
  {{"F", -0.52}, {"G", 0.33}, {"Glue", 0.41}, {"PassThrough", 0.19}, {"WordPenalty", -0.77}, {"LanguageModel", 1.31}, {"S1", 0.9}, {"S2", -0.35}},
  {{"F", 0.11}, {"G", 0.71}, {"LanguageModel", 0.4}, {"S1", -0.6}, {"S2", 0.5}, {"WordPenalty", 0.2}},
  {{"F", 0.9}, {"G", 0.8}}};
static double dot(const FV& f, const FV& w) { double s = 0; for (auto& kv : f) { auto i = w.find(kv.first); if (i != w.end()) s += kv.second * i->second; } return s; }
static string fs(const FV& f) { ostringstream o; o.precision(9); for (auto& kv : f) if (fabs(kv.second) > 1e-9) o << kv.first << '=' << kv.second << ' '; return o.str(); }
static bool feq(const FV& a, const FV& b) { for (auto& kv : a) { auto i = b.find(kv.first); if (!vc::close(kv.second, i == b.end() ? 0 : i->second, 1e-5)) return false; } for (auto& kv : b) if (!a.count(kv.first) && fabs(kv.second) > 1e-5) return false; return true; }
template <class T> static void addsv(const SparseVector<T>& v, FV* f) { for (typename SparseVector<T>::const_iterator i = v.begin(); i != v.end(); ++i) (*f)[FD::Convert(i->first)] += i->second; }
static string trim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
// edges and nodes of a derivation, from its bracketed tree
static string tree(const string& t, size_t& p, Item& o) {
  size_t b = ++p; while (!((t[p] == ' ' && t[p + 1] == '(') || t[p] == ')')) ++p;
  string h = t.substr(b, p - b), node; { size_t at = h.find(" @") + 2, e = h.find(' ', at); node = h.substr(0, h.find(' ')) + '@' + h.substr(at, e == string::npos ? e : e - at); }
  size_t me = o.edges.size(); o.edges.push_back(""); string kids; while (t[p] != ')') { ++p; kids += " {" + tree(t, p, o) + "}"; } ++p;
  o.edges[me] = h + kids; o.nodes.push_back(node); return node;
}
static double lse(const vector<double>& v) { double m = -HUGE_VAL, s = 0; for (double x : v) m = max(m, x); if (m == -HUGE_VAL) return m; for (double x : v) s += exp(x - m); return m + log(s); }
static Arpa lm; static string WD; static vector<vector<const Rule*>> extra;
static vector<string> parts(const string& l) { vector<string> r; size_t a = 0; while (true) { size_t b = l.find(" ||| ", a); r.push_back(l.substr(a, b == string::npos ? b : b - a)); if (b == string::npos) return r; a = b + 5; } }
static FV pfeats(const string& s) { FV r; istringstream in(s); string w; while (in >> w) { size_t q = w.rfind('='); if (q == string::npos) { r["??" + w] = 1; continue; } string v = w.substr(q + 1); double d = v.compare(0, 3, "(-)") == 0 ? -exp(atof(v.c_str() + 3)) : exp(atof(v.c_str())); r[w.substr(0, q)] = d; } return r; }
static FV kfeats(const string& s) { FV r; istringstream in(s); string w; while (in >> w) { size_t q = w.rfind('='); if (q == string::npos) r["??" + w] = 1; else r[w.substr(0, q)] += atof(w.c_str() + q + 1); } return r; }
static map<string, string> b64cache;
// ---- the definition: the derivations of one sentence as they stand after the last pass
struct Result { bool parsed = false, exact = true; vector<Item> v; vector<double> logz; bool over = false; double elen = 0; };
static Result define(const Conf& c, const vector<const Rule*>& G, const Snt& s, vector<FV>& w) {
  Result r; vector<Rule> R; for (auto q : G) R.push_back(*q); if (s.gram >= 0) for (auto q : extra[s.gram]) R.push_back(*q);
  R.push_back(goal_rule());
  if (c.glue) { R.push_back(mk("[S] ||| [X,1] ||| [1]", 1)); R.push_back(mk("[S] ||| [S,1] [X,2] ||| [1] [2] ||| Glue=1", 1)); }
  Lat l; { istringstream in(s.src); string a; while (in >> a) { int n = l.size(); l.push_back({Arc{a, n + 1, {}}}); } }
  if (c.pt) { set<string> seen; for (auto& t : l) for (auto& a : t) if (seen.insert(a.w).second) { string t = "[X] ||| " + a.w + " ||| " + a.w + " ||| PassThrough=1"; if (c.ptf) t += " PassThrough_1=1"; R.push_back(mk(t, 2)); } }
  Ref ref(R, l, c.span, 700); const vector<D> all = ref.get("Goal", 0, l.size()); r.over = ref.over; if (all.empty() || r.over) return r;
  r.parsed = true; for (auto& d : all) { Item i; i.e = trim(d.e); i.ft = d.ft; size_t p = 0; tree(d.tree, p, i); r.v.push_back(i); }
  auto rescore = [&](const FV& x) { vector<double> z; for (auto& i : r.v) { i.sc = dot(i.ft, x); z.push_back(i.sc); } return lse(z); };
  double z0 = rescore(w[0]); r.logz.push_back(z0); for (auto& i : r.v) { istringstream in(i.e); string q; int n = 0; while (in >> q) ++n; r.elen += n * exp(i.sc - z0); }
  int cur = 0; bool lmstate = false;
  for (size_t k = 0; k < c.p.size(); ++k) {
    const Pass& p = c.p[k]; if (p.w >= 0) cur = p.w;
    for (int f : p.ff) for (auto& i : r.v) {
      vector<string> y; { istringstream in(i.e); string q; while (in >> q) y.push_back(q); }
      if (f == 0) i.ft["WordPenalty"] -= y.size() * L10; else if (f == 1) i.ft["SourceWordPenalty"] -= l.size() * L10;
      else { int oov = 0; i.ft["LanguageModel"] += lm.sentence(y, &oov); if (oov) i.ft["LanguageModel_OOV"] += oov; lmstate = true; }
    }
    double z = rescore(w[cur]); r.logz.push_back(z);
    string S = "S" + to_string(k + 1);
    if (p.summary) {
      map<string, double> post; for (auto& i : r.v) { set<string> u(p.summary == 1 ? i.nodes.begin() : i.edges.begin(), p.summary == 1 ? i.nodes.end() : i.edges.end()); for (auto& q : u) post[q] += exp(i.sc - z); }
      for (auto& i : r.v) { if (p.summary == 3) i.ft[S] += i.sc - z; else for (auto& q : p.summary == 1 ? i.nodes : i.edges) i.ft[S] += post[q]; }
      if (p.summary == 3) rescore(w[cur]);
    }
    if (p.beam > 0 || p.density > 0) {
      map<string, double> best; double top = -HUGE_VAL; for (auto& i : r.v) { top = max(top, i.sc); for (auto& q : i.edges) { auto t = best.insert({q, i.sc}).first; t->second = max(t->second, i.sc); } }
      double b = p.beam > 0 ? p.beam * (c.scale ? l.size() : 1) : p.density > 100 ? 1e9 : 1e-7; bool amb = lmstate && b < 1e8; for (auto& q : best) if (p.beam > 0 && fabs(top - q.second - b) < 1e-6) amb = true;
      if (p.beam == 0 && p.density < 100) { int n = 0; for (auto& i : r.v) n += i.sc > top - 1e-7; if (n > 1) amb = true; }
      if (!amb) { vector<Item> keep; for (auto& i : r.v) { bool ok = true; for (auto& q : i.edges) if (best[q] < top - b) ok = false; if (ok) keep.push_back(i); } r.v = keep; }
      else { r.exact = false; for (auto& i : r.v) if (i.sc < top - b + (p.beam == 0 ? 1 : 1e-6)) i.must = i.must && i.sc > top - 1e-9 && p.beam > 0; }
    }
  }
  rescore(w[cur]); return r;
}
// ---- reading what was written
struct Obs : DecoderObserver {
  string log; int id = -1;
  void NotifyDecodingStart(const SentenceMetadata& m) { log += 's'; id = m.GetSentenceID(); }
  void NotifySourceParseFailure(const SentenceMetadata&) { log += 'f'; }
  void NotifyTranslationForest(const SentenceMetadata&, Hypergraph*) { log += 't'; }
  void NotifyAlignmentFailure(const SentenceMetadata&) { log += 'x'; }
  void NotifyAlignmentForest(const SentenceMetadata&, Hypergraph*) { log += 'a'; }
  void NotifyDecodingComplete(const SentenceMetadata&) { log += 'c'; }
};
static void klist(vc::X& x, const Conf& c, int id, int srclen, vector<Item> v, bool exact, const vector<string>& lines, size_t& at) {
  auto bad = [&](const char* key, const string& m) { string s = m + "\n  derivations by score:"; for (size_t i = 0; i < v.size() && i < 8; ++i) { ostringstream o; o << "\n    " << v[i].sc << (v[i].must ? " : " : " ? ") << v[i].e << " | " << fs(v[i].ft); s += o.str(); } s += "\n  written:"; for (size_t i = 0; i < lines.size() && i < 8; ++i) s += "\n    " + lines[i]; x.fail(key, s); };
  stable_sort(v.begin(), v.end(), [](const Item& a, const Item& b) { return a.sc > b.sc; });
  vector<Item> all = v;
  if (c.unique && exact) { set<string> seen; vector<Item> u; for (auto& i : v) if (seen.insert(i.e).second) u.push_back(i); v = u; }
  size_t n = min<size_t>(c.k, v.size()); vector<char> used(all.size()); double last = HUGE_VAL; size_t got = 0;
  if (c.mira) { if (at >= lines.size() || lines[at] != to_string(c.k)) return bad("kbest-header", "the number of lines is not announced"); ++at; }
  for (; at < lines.size() && got < (exact ? n : (size_t)c.k); ++at, ++got) {
    vector<string> p = parts(lines[at]); size_t o = c.mira ? 1 : 0; if (p.size() != 4 + o) { if (!exact) break; return bad("kbest-line", "line " + to_string(got) + " of the list is not a list line: " + lines[at]); }
    if (p[0] != to_string(id)) return bad("kbest-id", "the list is labelled " + p[0] + ", the sentence is " + to_string(id));
    if (o && p[1] != to_string(srclen)) return bad("kbest-length", "source length " + p[1]);
    FV f; if (o) { SparseVector<weight_t> sv; DecodeFeatureVector(p[3], &sv); addsv(sv, &f); } else f = kfeats(p[2]);
    double sc = atof(p[3 + o].c_str()); if (sc > last + 1e-5) return bad("kbest-order", "the list is not in order of decreasing score"); last = sc;
    if (exact && !vc::close(sc, v[got].sc, 1e-5)) return bad("kbest-score", "entry " + to_string(got) + " has score " + p[3 + o] + ", the model defines " + to_string(v[got].sc));
    size_t h = 0; for (; h < all.size(); ++h) if (!used[h] && all[h].e == p[1 + o] && vc::close(all[h].sc, sc, 1e-5) && feq(all[h].ft, f)) break;
    if (h == all.size()) return bad("kbest-entry", "entry " + to_string(got) + " is no (further) derivation of the model: " + p[1 + o] + " ||| " + fs(f) + "||| " + p[3 + o]); used[h] = 1;
  }
  if (got < n && exact) return bad("kbest-missing", "the list has " + to_string(got) + " entries, expected " + to_string(n));
  if (!exact && (size_t)c.k >= all.size()) for (size_t h = 0; h < all.size(); ++h) if (all[h].must && !used[h]) return bad("kbest-pruned", "a derivation inside the beam is missing: " + all[h].e);
  if (c.mira) for (; got < (size_t)c.k; ++got, ++at) if (at >= lines.size() || !lines[at].empty()) return bad("kbest-pad", "the list is not padded to the announced number of lines");
}
static string gname(int i) { return WD + "/g" + to_string(i); }
static void session(vc::X& x, const Conf& c, const vector<const Rule*>& G, const vector<Snt>& seq) {
  if (!x.take()) return;
  string gtext; for (auto r : G) gtext += r->text + "\n";
  x.desc([=, &c] { string o = "configuration " + c.name + "\n" + gtext; for (auto& s : seq) o += "input: " + s.src + (s.ref.empty() ? "" : " ||| " + s.ref) + " id=" + to_string(s.id) + (s.gram >= 0 ? " with per-sentence grammar " + to_string(s.gram) : "") + (s.up ? " (weights changed before it)" : "") + "\n"; return o; });
  static bool init = false; static string fg, fw[MAXW];
  WD = x.dir;
  if (!init) { init = true; lm.write(WD + "/lm.arpa"); for (int i = 0; i < MAXW; ++i) { ofstream o((WD + "/w" + to_string(i)).c_str()); o.precision(12); for (auto& kv : W[i]) o << kv.first << ' ' << kv.second << '\n'; } for (size_t i = 0; i < extra.size(); ++i) { ofstream o(gname(i).c_str()); for (auto r : extra[i]) o << r->text << '\n'; } }
  { ofstream o((WD + "/gram").c_str()); o << gtext; }
  ostringstream cf; cf.precision(12); cf << "formalism=scfg\ngrammar=" << WD << "/gram\nweights=" << WD << "/w0\n"; if (!c.glue) cf << "scfg_no_hiero_glue_grammar=true\n"; if (c.pt) cf << "add_pass_through_rules=true\n"; if (c.ptf) cf << "add_extra_pass_through_features=1\n"; cf << "scfg_max_span_limit=" << c.span << '\n';
  if (c.k) cf << "k_best=" << c.k << '\n'; if (c.unique) cf << "unique_k_best=true\n"; if (c.grad) cf << "cll_gradient=true\n"; if (c.fexp) cf << "feature_expectations=true\n"; cf << "combine_size=" << c.combine << '\n'; cf << "vector_format=" << (c.b64 ? "b64" : "text") << '\n'; if (c.cond) cf << "show_conditional_prob=true\n"; if (c.mira) cf << "mr_mira_compat=true\n"; if (c.sample) cf << "max_translation_sample=" << c.sample << '\n'; if (c.scale) cf << "scale_prune_srclen=true\n"; if (c.part) cf << "show_partition=true\nshow_expected_length=true\n"; if (c.inc) cf << "incremental_search=" << WD << "/lm.arpa\n";
  string fo = WD + "/forests"; if (c.fout) { MkDirP(fo); { ::DIR* d = opendir(fo.c_str()); if (d) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((fo + "/" + e->d_name).c_str()); closedir(d); } } cf << "forest_output=" << fo << '\n'; }
  string type; for (size_t k = 0; k < c.p.size(); ++k) { const Pass& p = c.p[k]; string n = k ? to_string(k + 1) : ""; if (p.w > 0) cf << "weights" << n << '=' << WD << "/w" << p.w << '\n'; for (int f : p.ff) cf << "feature_function" << n << '=' << (f == 0 ? "WordPenalty" : f == 1 ? "SourceWordPenalty" : "KLanguageModel " + WD + "/lm.arpa") << '\n'; if (p.summary) { cf << "summary_feature" << n << "=S" << k + 1 << '\n'; type = p.summary == 1 ? "node_risk" : p.summary == 2 ? "edge_risk" : "edge_prob"; } if (p.beam > 0) cf << "beam_prune" << n << '=' << p.beam << '\n'; if (p.density > 0) cf << "density_prune" << n << '=' << p.density << '\n'; if (!p.strat.empty()) cf << "intersection_strategy" << n << '=' << p.strat << '\n'; if (p.pop) cf << "cubepruning_pop_limit" << n << '=' << p.pop << '\n'; }
  if (c.inc) cf << "cubepruning_pop_limit=100000\n";
  if (!type.empty()) cf << "summary_feature_type=" << type << '\n';
  // the session
  vector<FV> w(W, W + MAXW); vector<string> outs, errs, logs; vector<int> ids; vector<bool> rets; vector<Result> want; string rest;
  { istringstream cfg(cf.str()); ostringstream oc, oe; streambuf *bo = cout.rdbuf(oc.rdbuf()), *be = cerr.rdbuf(oe.rdbuf()); SetSilent(false); cout.precision(10); cerr.precision(10);
    { unique_ptr<Decoder> d(new Decoder(&cfg)); int wl = 0; for (auto& p : c.p) if (p.w >= 0) wl = p.w;
      for (auto& s : seq) {
        if (s.up) { vector<weight_t>& v = d->CurrentWeightVector(); for (const char* f : {"F", "G", "LanguageModel"}) { size_t id = FD::Convert(f); if (v.size() <= id) v.resize(id + 1); v[id] = w[wl][f] = -0.5 * w[wl][f] + 0.07; } }
        string line = s.src + (s.ref.empty() ? "" : " ||| " + s.ref); string at; if (s.id >= 0) at += " id=\"" + to_string(s.id) + "\""; if (s.gram >= 0) at += " grammar=\"" + gname(s.gram) + "\""; if (!s.delta.empty()) { SparseVector<weight_t> dv; for (auto& kv : s.delta) { dv.set_value(FD::Convert(kv.first), kv.second); w[0][kv.first] += kv.second; } at += " delta=\"" + EncodeFeatureVector(dv) + "\""; } if (!at.empty()) line = "<seg" + at + "> " + line + " </seg>";
        oc.str(""); oe.str(""); Obs o; bool r = d->Decode(line, &o); outs.push_back(oc.str()); errs.push_back(oe.str()); logs.push_back(o.log); ids.push_back(o.id); rets.push_back(r); want.push_back(define(c, G, s, w)); x.step();
      }
      oc.str("");
    }
    rest = oc.str(); cout.rdbuf(bo); cerr.rdbuf(be); SetSilent(true);
  }
  // the comparison
  int id = -1, g = 0; double aobj = 0; FV avec; bool open = false; size_t nd = 0; map<int, vector<Item>> forests; map<int, int> nforest; bool fexact = true;
  auto vec = [&](const string& line, const char* where) {
    double obj = 0; FV got; bool ok = line.compare(0, 2, "0\t") == 0;
    if (ok && c.b64) { SparseVector<double> v; string b = line.substr(2); ok = B64::Decode(&obj, &v, b.c_str(), b.size()); addsv(v, &got); }
    else if (ok) { size_t a = line.find("**OBJ**="), b = line.find(';'); ok = a == 2 && b != string::npos; if (ok) { obj = atof(line.c_str() + 10); got = pfeats(line.substr(b + 1)); } }
    if (!x.check(ok, "vector-line", [&] { return string("no training vector where one is due (") + where + "): " + line; })) return;
    x.check(vc::close(obj, aobj, 1e-5), "objective", [&] { ostringstream o; o << "objective written " << obj << ", summed over the group it is " << aobj << " (" << where << ")"; return o.str(); });
    x.check(feq(got, avec), "vector", [&] { return "vector written: " + fs(got) + "\n  defined: " + fs(avec) + " (" + where + ")"; });
    aobj = 0; avec.clear(); open = false;
  };
  for (size_t k = 0; k < seq.size(); ++k) {
    const Snt& s = seq[k]; const Result& r = want[k]; id = s.id >= 0 ? s.id : id + 1; nd += r.v.size();
    if (r.over) { x.stat("too many derivations to list"); return; }
    vector<string> L; { istringstream in(outs[k]); string l; while (getline(in, l)) L.push_back(l); } size_t at = 0;
    auto where = [&] { return "sentence " + to_string(k) + " (" + s.src + "): "; };
    x.check(ids[k] == id, "id", [&] { return where() + "decoded under id " + to_string(ids[k]) + ", it is " + to_string(id); });
    x.check(rets[k] == r.parsed, "result", [&] { return where() + (rets[k] ? "reported as translated although the grammar licenses nothing" : "reported as not translated, but there are " + to_string(r.v.size()) + " derivations"); });
    if (rets[k] != r.parsed) return;
    auto line = [&](const string& want1, const char* key) { string got = at < L.size() ? L[at++] : "(nothing)"; x.check(got == want1, key, [&] { return where() + "wrote \"" + got + "\", expected \"" + want1 + "\""; }); };
    if (!r.parsed) { x.check(logs[k] == "sfc", "events", [&] { return where() + "events " + logs[k]; }); line(c.cond ? "-Inf" : "", "no-parse-output"); }
    else {
      int srclen = 0; { istringstream in(s.src); string q; while (in >> q) ++srclen; }
      double best = -HUGE_VAL; for (auto& i : r.v) best = max(best, i.sc);
      if (c.part) { vector<double> z; size_t p = 0; while ((p = errs[k].find("log(Z): ", p)) != string::npos) { p += 8; z.push_back(atof(errs[k].c_str() + p)); } bool ok = z.size() >= r.logz.size(); for (size_t i = 0; ok && i < r.logz.size(); ++i) ok = vc::close(z[i], r.logz[i], 1e-6);
        x.check(ok, "partition", [&] { ostringstream o; o.precision(9); o << where() << "partitions shown"; for (double d : z) o << ' ' << d; o << ", defined"; for (double d : r.logz) o << ' ' << d; return o.str(); });
        p = errs[k].find("Expected length  (words): "); double e = p == string::npos ? -1 : atof(errs[k].c_str() + p + 26); x.check(vc::close(e, r.elen, 1e-6), "expected-length", [&] { ostringstream o; o.precision(9); o << where() << "expected length shown " << e << ", defined " << r.elen; return o.str(); }); }
      if (c.inc) {
        x.check(logs[k] == "sc", "events", [&] { return where() + "events " + logs[k]; });
        double b = -HUGE_VAL; map<string, double> by; for (auto& i : r.v) { vector<string> y; int n = 0; { istringstream in(i.e); string q; while (in >> q) { y.push_back(q); ++n; } } int oov = 0; double sc = dot(i.ft, w[0]) - n * L10 * w[0]["WordPenalty"] + w[0]["KLanguageModel"] * lm.sentence(y, &oov, false) + w[0]["KLanguageModel_OOV"] * oov; auto t = by.insert({i.e, sc}).first; t->second = max(t->second, sc); b = max(b, sc); }
        vector<string> p; if (at < L.size()) { size_t q = L[at].find("||| "); if (q != string::npos) { p.push_back(trim(L[at].substr(0, q))); p.push_back(L[at].substr(q + 4)); } ++at; }
        x.check(p.size() == 2 && by.count(p[0]) && vc::close(atof(p[1].c_str()), b, 1e-4) && vc::close(by[p[0]], b, 1e-4), "incremental", [&] { ostringstream o; o << where() << "incremental search wrote " << (L.empty() ? "nothing" : L[0]) << "; the best score is " << b; for (auto& kv : by) o << "\n    " << kv.first << " : " << kv.second; return o.str(); });
        x.check(at == L.size(), "extra-output", [&] { return where() + "unexpected output: " + L[at]; }); x.step(r.v.size()); continue;
      }
      vector<Item> con; for (auto& i : r.v) if (i.e == s.ref) { con.push_back(i); con.back().e = s.src; }   // forced derivations: source and target change places
      string ev = string("st") + (s.ref.empty() ? "" : con.empty() ? "x" : "a") + "c"; x.check(logs[k] == ev, "events", [&] { return where() + "events " + logs[k] + ", expected " + ev; });
      if (c.fout) { auto& f = forests[id]; if (s.ref.empty()) f.insert(f.end(), r.v.begin(), r.v.end()); else f.insert(f.end(), con.begin(), con.end()); ++nforest[id]; if (!r.exact) fexact = false; if (f.empty()) forests.erase(id); }
      if (c.sample) {
        map<string, int> cnt; int tot = 0, last = 1 << 30; set<string> ys; for (auto& i : r.v) ys.insert(i.e); size_t lim = c.k ? min<size_t>(c.k, ys.size()) : 1; size_t n = 0;
        for (; at < L.size() && n < lim; ++at, ++n) { string y = L[at]; int q = 1; if (c.k) { vector<string> p = parts(L[at]); if (!x.check(p.size() == 2, "sample-line", [&] { return where() + "sampled list line: " + L[at]; })) return; q = atoi(p[0].c_str()); y = p[1]; x.check(q >= 1 && q <= last, "sample-order", [&] { return where() + "sampled counts out of order at " + L[at]; }); last = q; tot += q; } x.check(ys.count(y) && !cnt.count(y), "sample-yield", [&] { return where() + "sampled translation is not one of the model or repeated: " + y; }); cnt[y] = q; }
        if (c.k) x.check(n >= 1 && tot <= c.sample && (cnt.size() < ys.size() || c.k < (int)ys.size() || tot == c.sample) && ((size_t)c.k < ys.size() || tot == c.sample), "sample-total", [&] { return where() + "the sampled counts add up to " + to_string(tot) + " of " + to_string(c.sample); });
      } else if (s.ref.empty()) {
        if (c.k) klist(x, c, id, srclen, r.v, r.exact, L, at);
        else { string got = at < L.size() ? L[at++] : "(nothing)"; bool ok = false; for (auto& i : r.v) if (i.e == got && (!r.exact || i.sc > best - 1e-6)) ok = true; x.check(ok, "one-best", [&] { string m = where() + "wrote \"" + got + "\"; the derivations are"; for (auto& i : r.v) { ostringstream o; o << "\n    " << i.sc << " : " << i.e << " | " << fs(i.ft); m += o.str(); } return m; }); }
      }
      if (!s.ref.empty()) {
        vector<double> za, zc; for (auto& i : r.v) za.push_back(i.sc); for (auto& i : con) zc.push_back(i.sc); double z = lse(za), zr = lse(zc);
        if (!con.empty()) {
          if (c.grad) { for (auto& i : con) for (auto& f : i.ft) avec[f.first] += f.second * exp(i.sc - zr); for (auto& i : r.v) for (auto& f : i.ft) avec[f.first] -= f.second * exp(i.sc - z); aobj += z - zr; }
          if (c.fexp) { for (auto& i : con) for (auto& f : i.ft) avec[f.first] += f.second * exp(i.sc - zr); aobj += zr; }
          if (c.grad || c.fexp) { ++g; open = true; if (g % c.combine == 0) { if (at >= L.size()) { x.fail("vector-missing", where() + "no training vector is written after " + to_string(g) + " sentence pairs"); return; } vec(L[at++], "at the end of a group"); } }
          if (c.k) klist(x, c, id, srclen, con, r.exact, L, at);
          if (c.cond) { string got = at < L.size() ? L[at++] : "(nothing)"; x.check(vc::close(atof(got.c_str()), zr - z, 1e-5), "conditional", [&] { return where() + "conditional log probability written " + got + ", defined " + to_string(zr - z); }); }
        } else { if (c.grad) line("", "unreachable-output"); if (c.cond) line("-Inf", "unreachable-output"); }
      }
    }
    x.check(at == L.size(), "extra-output", [&] { return where() + "unexpected output: " + L[at]; });
    for (auto& i : r.v) x.state(vc::hstr(c.name + i.e + fs(i.ft)));
  }
  if (c.grad || c.fexp) { bool zero = true; for (auto& kv : avec) if (fabs(kv.second) > 1e-9) zero = false; string l = rest; if (!l.empty() && l.back() == '\n') l.pop_back(); if (open && (!zero || !l.empty())) vec(l, "when the decoder is closed"); else x.check(l.empty() || open, "extra-output", [&] { return "unexpected output when the decoder is closed: " + l; }); }
  else x.check(rest.empty(), "extra-output", [&] { return "unexpected output when the decoder is closed: " + rest; });
  if (c.fout) {
    set<int> have; if (::DIR* d = opendir(fo.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') have.insert(atoi(e->d_name)); closedir(d); }
    set<int> due; for (auto& f : forests) due.insert(f.first); x.check(have == due, "forest-files", "the forests written are not those of the sentences translated");
    for (auto& f : forests) if (have.count(f.first)) {
      Hypergraph h; { ReadFile rf(fo + "/" + to_string(f.first) + ".bin.gz"); streambuf* be = cerr.rdbuf(); static ofstream nul("/dev/null"); cerr.rdbuf(nul.rdbuf()); bool ok = HypergraphIO::ReadFromBinary(rf.stream(), &h); cerr.rdbuf(be); if (!x.check(ok, "forest-read", "a written forest cannot be read")) continue; }
      string bad = HGReal::sound(h); if (!x.check(bad.empty(), "forest-sound", [&] { return bad; })) continue;
      vector<RDeriv> real; if (!HGReal::goal_derivs(h, &real, 5000)) continue; set<string> a, b; for (auto& i : f.second) { FV t = i.ft; for (auto j = t.begin(); j != t.end();) { if (fabs(j->second) < 1e-7) j = t.erase(j); else ++j; } ostringstream o; o.precision(5); o << i.e << " | "; for (auto& kv : t) o << kv.first << '=' << kv.second << ' '; a.insert(o.str()); }
      for (auto& d : real) { FV t; for (auto& kv : d.feats) if (fabs(kv.second) > 1e-7) t[FD::Convert(kv.first)] = kv.second; ostringstream o; o.precision(5); o << d.estr() << " | "; for (auto& kv : t) o << kv.first << '=' << kv.second << ' '; b.insert(o.str()); }
      if (fexact) x.check(nforest[f.first] > 1 ? includes(b.begin(), b.end(), a.begin(), a.end()) : a == b, "forest-content", [&] { string m = "forest " + to_string(f.first) + " differs from the model's derivations:"; for (auto& q : a) if (!b.count(q)) m += "\n  missing: " + q; for (auto& q : b) if (!a.count(q)) m += "\n  extra: " + q; return m; });
    }
  }
  x.step(nd); if (nd > seq.size()) x.nontrivial();
}
static void run(vc::X& x) {
  register_feature_functions();
  static ofstream nul("/dev/null"); streambuf* ce = cerr.rdbuf(); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  { int i = 0; typedef Arpa::G G_; lm.add(G_{"<unk>"}, -1.9, 0); lm.add(G_{"<s>"}, -99, -0.31); lm.add(G_{"</s>"}, -0.83, 0); for (const char* q : {"A", "B", "C", "D", "E", "a", "b"}) { lm.add(G_{q}, arpa_p(i), arpa_b(i)); ++i; }
    for (auto& b : vector<pair<string, string>>{{"<s>", "A"}, {"A", "C"}, {"C", "A"}, {"A", "B"}, {"B", "C"}, {"D", "C"}, {"C", "</s>"}, {"A", "</s>"}, {"b", "A"}, {"E", "A"}, {"C", "D"}, {"A", "A"}}) { lm.add(G_{b.first, b.second}, arpa_p(i) * 0.5, 0); ++i; } }
  static const char* T[] = {"[X] ||| a ||| A ||| F=1", "[X] ||| a ||| B ||| F=2", "[X] ||| b ||| C", "[X] ||| a b ||| C A ||| F=0.5", "[X] ||| a [X,1] ||| [1] D ||| G=1", "[X] ||| [X,1] b ||| E [1]", "[X] ||| [X,1] a [X,2] ||| [2] Q [1] ||| F=-1 G=2", "[X] ||| [X,1] [X,2] ||| [2] [1] ||| G=0.25", "[Y] ||| b ||| A", "[X] ||| [Y,1] ||| [1] C ||| F=3", "[S] ||| [X,1] [Y,2] ||| [1] E [2] ||| G=-0.7", "[X] ||| c ||| B A ||| F=-0.3", "[S] ||| a [S,1] ||| [1] A", "[X] ||| [Y,1] ||| [1] A ||| F=2", "[Y] ||| b ||| B", "[X] ||| [X,1] b ||| D [1] ||| F=0.2", "[S] ||| a [S,1] ||| E [1]"};
  static vector<Rule> R; for (auto t : T) R.push_back(mk(t, 0));
  auto pick = [&](vector<int> v) { vector<const Rule*> r; for (int i : v) r.push_back(&R[i]); return r; };
  extra = {pick({11, 13, 14}), pick({15, 16})};   // none of these is in a main grammar
  vector<vector<const Rule*>> GS = {pick({0, 2}), pick({0, 1, 2}), pick({0, 1, 2, 3}), pick({0, 1, 2, 7}), pick({0, 2, 4, 3}), pick({0, 1, 2, 5}), pick({0, 2, 8, 9, 10}), pick({0, 1, 2, 3, 4, 12}), pick({0, 1, 2, 6, 7}), pick({1, 2, 3, 10, 8})};
  vector<Conf> C; auto P = [](int w, vector<int> ff, int sum = 0, double beam = 0, double dens = 0, string strat = "", int pop = 0) { return Pass{w, ff, sum, beam, dens, strat, pop}; };
  auto add = [&](const string& n, function<void(Conf&)> f) { Conf c; c.name = n; f(c); C.push_back(c); };
  add("plain", [](Conf& c) { c.len = 3; }); add("partition", [](Conf& c) { c.part = true; }); add("k-best 2", [](Conf& c) { c.k = 2; }); add("k-best all", [](Conf& c) { c.k = 5000; }); add("unique k-best 2", [](Conf& c) { c.k = 2; c.unique = true; }); add("unique k-best all", [](Conf& c) { c.k = 5000; c.unique = true; });
  add("pass-through", [](Conf& c) { c.pt = true; c.k = 5000; }); add("pass-through features, no glue", [](Conf& c) { c.pt = true; c.ptf = 1; c.glue = false; c.k = 3; }); add("span 1", [](Conf& c) { c.span = 1; c.k = 5000; });
  add("word penalty", [&](Conf& c) { c.k = 4; c.p = {P(-1, {0, 1})}; c.part = true; }); add("LM", [&](Conf& c) { c.k = 5000; c.p = {P(-1, {2})}; }); add("LM full, one-best", [&](Conf& c) { c.p = {P(-1, {2, 0}, 0, 0, 0, "Full")}; c.part = true; });
  for (string f : {"fast_cube_pruning", "Fast_Cube_Pruning_2"}) add("LM " + f, [&](Conf& c) { c.p = {P(-1, {2}, 0, 0, 0, f, 1000)}; c.k = 1; });
  add("LM full, pop limit 1", [&](Conf& c) { c.p = {P(-1, {2}, 0, 0, 0, "full", 1)}; c.k = 5000; });
  for (double b : {0.15, 0.6, 2.0, 40.0}) add("beam " + to_string(b), [&](Conf& c) { c.p = {P(-1, {}, 0, b)}; c.k = 5000; });
  add("beam scaled by length", [&](Conf& c) { c.p = {P(-1, {}, 0, 0.3)}; c.scale = true; c.k = 5000; }); add("density 1", [&](Conf& c) { c.p = {P(-1, {}, 0, 0, 1)}; c.k = 5000; }); add("density 500", [&](Conf& c) { c.p = {P(-1, {}, 0, 0, 500)}; c.k = 5000; });
  add("beam with a word penalty", [&](Conf& c) { c.p = {P(-1, {0}, 0, 0.5)}; c.k = 5000; }); add("beam with the LM", [&](Conf& c) { c.p = {P(-1, {2}, 0, 0.5)}; c.k = 5000; });
  add("two passes, new weights", [&](Conf& c) { c.p = {P(-1, {0}), P(1, {1})}; c.k = 5000; c.part = true; }); add("two passes, beam first", [&](Conf& c) { c.p = {P(-1, {}, 0, 0.4), P(1, {2})}; c.k = 5000; }); add("two passes, old weights", [&](Conf& c) { c.p = {P(-1, {0}, 0, 1.0), P(-1, {2})}; c.k = 3; });
  add("two passes, beam second", [&](Conf& c) { c.p = {P(-1, {0}), P(1, {}, 0, 0.5)}; c.k = 5000; }); add("three passes", [&](Conf& c) { c.p = {P(-1, {1}), P(1, {2}), P(2, {0})}; c.k = 5000; c.part = true; }); add("three passes, pruning in each", [&](Conf& c) { c.p = {P(-1, {0}, 0, 2.0), P(1, {1}, 0, 1.0), P(2, {}, 0, 0.7)}; c.k = 5000; }); add("three passes, one-best, weights of the second", [&](Conf& c) { c.p = {P(-1, {1}), P(1, {0}), P(-1, {2})}; });
  for (int t = 1; t <= 3; ++t) { string n = "summary type " + to_string(t); add(n, [&](Conf& c) { c.p = {P(-1, {0}, t)}; c.k = 5000; }); add(n + " weighted in the second pass", [&](Conf& c) { c.p = {P(-1, {}, t, 3.0), P(1, {0})}; c.k = 5000; }); add(n + " in two passes", [&](Conf& c) { c.p = {P(-1, {0}, t), P(3, {1}, t), P(2, {})}; c.p[2].beam = 50; c.k = 5000; }); }
  add("summary of LM forest", [&](Conf& c) { c.p = {P(-1, {2}, 3)}; c.k = 5000; });
  add("strategies differ per pass", [&](Conf& c) { c.p = {P(-1, {0}, 0, 0, 0, "fast_cube_pruning", 500), P(1, {2}, 0, 0, 0, "full", 1)}; c.k = 5000; }); add("cube pruning 2 first, full second", [&](Conf& c) { c.p = {P(-1, {}, 0, 30, 0, "fast_cube_pruning_2", 500), P(-1, {2}, 0, 0, 0, "Full", 1)}; c.k = 5000; });
  for (int k : {1, 2, 3}) for (int b = 0; b < 2; ++b) { add("gradient, groups of " + to_string(k), [&](Conf& c) { c.grad = 1; c.refs = true; c.combine = k; c.b64 = b; c.len = 3; }); add("feature expectations, groups of " + to_string(k), [&](Conf& c) { c.fexp = true; c.refs = true; c.combine = k; c.b64 = b; c.len = k > 1 ? 3 : 2; }); }
  add("gradient with models", [&](Conf& c) { c.grad = 1; c.refs = true; c.combine = 2; c.p = {P(-1, {0}), P(1, {2})}; }); add("conditional probability", [](Conf& c) { c.cond = true; c.refs = true; }); add("conditional probability with the LM", [&](Conf& c) { c.cond = true; c.refs = true; c.p = {P(-1, {2, 0})}; }); add("forced k-best", [](Conf& c) { c.k = 3; c.refs = true; }); add("forced k-best after a beam", [&](Conf& c) { c.k = 5000; c.refs = true; c.p = {P(-1, {0}, 0, 0.7)}; }); add("forced unique k-best in the second pass", [&](Conf& c) { c.k = 5000; c.unique = true; c.refs = true; c.p = {P(-1, {0}), P(1, {1})}; });
  add("forests", [](Conf& c) { c.fout = true; c.len = 3; }); add("forests of references", [](Conf& c) { c.fout = true; c.refs = true; }); add("forests after a beam", [&](Conf& c) { c.fout = true; c.p = {P(-1, {0}, 0, 0.6)}; });
  add("mira", [](Conf& c) { c.mira = true; c.k = 4; }); add("mira with models", [&](Conf& c) { c.mira = true; c.k = 3; c.p = {P(-1, {0})}; }); add("weights changed", [](Conf& c) { c.update = true; c.k = 4; }); add("weights changed, two passes", [&](Conf& c) { c.update = true; c.k = 4; c.p = {P(-1, {0}), P(1, {2})}; }); add("weights changed, shared weights", [&](Conf& c) { c.update = true; c.k = 4; c.p = {P(-1, {2})}; });
  add("samples", [](Conf& c) { c.sample = 20; }); add("sampled list", [](Conf& c) { c.sample = 30; c.k = 3; }); add("sampled list, all", [](Conf& c) { c.sample = 40; c.k = 100; }); add("incremental", [](Conf& c) { c.inc = true; }); add("incremental with pass-through", [](Conf& c) { c.inc = true; c.pt = true; });
  for (auto& G : GS) for (auto& c : C) {
    vector<Snt> pool; auto put = [&](const string& s, const string& r = "", int id = -1, int gr = -1) { pool.push_back(Snt{s, r, "", id, gr, {}, false}); };
    if (c.refs) {
      vector<FV> w(W, W + MAXW); Conf base = c; base.p.clear();
      for (const char* s : {"a", "a b", "b a"}) { Snt q{s, "", "", -1, -1, {}, false}; Result r = define(base, G, q, w); set<string> ys; for (auto& i : r.v) ys.insert(i.e); int n = 0; for (auto& y : ys) { if (n++ < (string(s) == "a" ? 1 : 2)) put(s, y, n == 2 ? 5 : -1); } }
      put("a b", "A Z"); put("c", "C"); put("a b", "C B A", -1, 0);
    } else { put("a"); put("a b"); put("b a b"); put("c"); put("b a", "", 7); put("c a", "", -1, 0); put("a b", "", 7, 1); if (x.thorough) { put("a b a b"); put("b b a"); put("", "", 3); } }
    if (c.mira) { pool[0].delta = {{"F", 0.21}, {"G", -0.4}}; pool[4].delta = {{"F", -1.1}}; }
    if (c.update) { pool[1].up = true; pool[4].up = true; }
    vector<size_t> ix(c.len); size_t n = 0; bool cut = !x.thorough && c.len == 3;
    while (true) { vector<Snt> s; for (size_t i : ix) s.push_back(pool[i]); if (!cut || n++ % 3 == 0) session(x, c, G, s); size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < pool.size()) break; ix[k] = 0; } if (k == ix.size()) break; }
  }
  cerr.rdbuf(ce);
}
VC_MAIN(run)
