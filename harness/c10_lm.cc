// C10: the language model features of every derivation equal the model's score of its whole yield.
#include "arpa.h"
#include "hgreal.h"
#include "apply_models.h"
#include "ff.h"
#include "ff_klm.h"
#include "ffset.h"
#include "sentence_metadata.h"
#include "verbose.h"
#include "lm/model.hh"
#include <memory>
using namespace std;
typedef boost::shared_ptr<FeatureFunction> FFP;
struct Opt { bool markers, cls; string name; int type; };   // type: 0 ARPA file, 1.. binary files
static Hypergraph forest(int p1, int p2, int p3, bool explicit_markers) {
  static const vector<string> leaves = {"a", "b", "c", "a a", "a b", "b a", "b b", "c b", "b c", "a b a", "b b b", "a b a b"};
  static const vector<string> pats = {"[1] [2]", "[2] [1]", "[1] a [2]", "b [1] [2]", "[2] [1] b", "[1] c [2]", "a b [2] [1]", "[1] [2] a b", "[2] b [1] a", "[1] b b [2]"};
  static const vector<string> un = {"[1]", "a [1]", "[1] b", "b [1] a", "[1] a b", "a b [1]", "c [1]"};
  static map<string, TRulePtr> cache; auto rule = [&](const string& e, int ar) { TRulePtr& r = cache[e + char('0' + ar)]; if (!r) { string f = "f"; for (int i = 1; i <= ar; ++i) f += " [X," + to_string(i) + "]"; r.reset(new TRule("[X] ||| " + f + " ||| " + e)); } return r; };
  Hypergraph g; g.is_linear_chain_ = false; static const int kX = TD::Convert("X"), kG = TD::Convert("Goal");
  auto node = [&]() { HG::Node* n = g.AddNode(-kX); n->node_hash = 77 + n->id_; return n->id_; };
  auto edge = [&](const string& e, vector<int> t, int head) { Hypergraph::TailNodeVector tn; for (int i : t) tn.push_back(i); HG::Edge* q = g.AddEdge(rule(e, t.size()), tn); g.ConnectEdgeToHeadNode(q->id_, head); };
  int n0 = node(); for (size_t i = 0; i < leaves.size(); ++i) edge(leaves[i], {}, n0);
  int n1 = node(); edge(leaves[(p1 * 3) % 12], {}, n1); edge(leaves[(p1 * 5 + 1) % 12], {}, n1); edge(un[p1 % un.size()], {n0}, n1);
  int n2 = node(); edge(pats[p2 % 10], {n0, n1}, n2);
  int n3 = node(); edge(pats[p3 % 10], {n2, n1}, n3); edge(un[(p3 + p2) % un.size()], {n2}, n3);
  int top = n3;
  if (explicit_markers) { top = node(); edge("<s> [1] </s>", {n3}, top); edge("[1] </s>", {n3}, top); edge("<s> [1]", {n3}, top); edge("[1] [2]", {n3, n0}, top); int t2 = node(); edge("[1]", {top}, t2); edge("[1] a", {top}, t2); edge("b [1]", {top}, t2); top = t2; }
  static TRulePtr gr(new TRule("[Goal] ||| [X,1] ||| [1]")); Hypergraph::TailNodeVector t(1, top); int gn = g.AddNode(-kG)->id_; HG::Edge* q = g.AddEdge(gr, t); g.ConnectEdgeToHeadNode(q->id_, gn);
  return g;
}
struct LD { vector<WordID> y; double lm, oov, emit; };
static void list(const Hypergraph& g, int f1, int f2, int f3, vector<LD>* out, size_t cap) {
  vector<vector<LD>> D(g.nodes_.size());
  for (size_t v = 0; v < g.nodes_.size(); ++v) for (int ei : g.nodes_[v].in_edges_) {
    const HG::Edge& e = g.edges_[ei]; vector<size_t> ix(e.tail_nodes_.size()); bool empty = false; for (unsigned t : e.tail_nodes_) if (D[t].empty()) empty = true; if (empty) continue;
    LD base; base.lm = e.feature_values_.value(f1); base.oov = e.feature_values_.value(f2); base.emit = e.feature_values_.value(f3);
    while (true) { LD d = base; for (size_t k = 0; k < ix.size(); ++k) { auto& c = D[e.tail_nodes_[k]][ix[k]]; d.lm += c.lm; d.oov += c.oov; d.emit += c.emit; }
      for (WordID w : e.rule_->e_) if (w > 0) d.y.push_back(w); else { auto& c = D[e.tail_nodes_[-w]][ix[-w]].y; d.y.insert(d.y.end(), c.begin(), c.end()); }
      D[v].push_back(d); if (D[v].size() > cap) return; size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < D[e.tail_nodes_[k]].size()) break; ix[k] = 0; } if (k == ix.size()) break; } }
  out->swap(D.back());
}
static const map<string, pair<string, double>> CLS = {{"w1", {"a", -0.25}}, {"w2", {"a", -1.5}}, {"w3", {"b", -0.75}}};
static void run(vc::X& x) {
  SetSilent(true); static ofstream nul("/dev/null"); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  vector<Arpa> ms; ArpaSpace sp;
  for (int bi = 1; bi < 256; ++bi) for (int z = 0; z < 2; ++z) { ms.push_back(ArpaSpace::make(bi, 0, 0, bi % 5 != 0, z, 2)); }
  for (int bi : {0x0f, 0x1f, 0x2f, 0xff, 0x87, 0x6f, 0x47, 0x12, 0x06, 0x8f}) for (int tri = 1; tri < 128; ++tri) for (int z = 0; z < 2; ++z) { if (!x.thorough && (tri * 3 + bi + z) % 5) continue; ms.push_back(ArpaSpace::make(bi, tri, 0, tri % 4 != 1, z, 3)); }
  for (int four = 1; four < 4; ++four) for (int tri : {7, 15, 127, 0x1f, 0x4b}) for (int z = 0; z < 2; ++z) ms.push_back(ArpaSpace::make(0xff, tri, four, true, z, 4));
  vector<Opt> opts = {{false, false, "LanguageModel", 0}, {false, false, "Other", 1}, {true, false, "LanguageModel", 0}, {false, true, "LanguageModel", 0}, {false, false, "LanguageModel", 2}, {false, false, "LanguageModel", 3}, {true, false, "LanguageModel", 2}};
  map<string, WordID> cls_back; static Lattice l; SentenceMetadata sm(0, l);
  uint64_t n = 0;
  for (auto& m : ms) { if (!sp.full_orders(m) || !sp.fits(m)) continue; ++n;
    for (size_t oi = 0; oi < opts.size(); ++oi) { if (oi > 3 && n % 4) continue; if (!x.thorough && oi == 1 && n % 3) continue; if (!x.take()) continue; const Opt& o = opts[oi];
      int p1 = n % 12, p2 = n / 3, p3 = n / 2; string args;
      x.desc([&m, o, p1, p2, p3] { ostringstream s; s << "model (type " << o.type << (o.markers ? ", explicit markers" : "") << (o.cls ? ", classes" : "") << "): " << m.brief() << "\nforest " << p1 << ' ' << p2 << ' ' << p3; return s.str(); });
      string f = x.dir + "/lm"; m.write(f); string file = f;
      if (o.type) { lm::ngram::Config c; c.messages = NULL; c.show_progress = false; string b = f + ".bin"; unlink(b.c_str()); c.write_mmap = b.c_str(); c.arpa_complain = lm::ngram::Config::NONE; c.unknown_missing = lm::SILENT; if (o.type == 1) { lm::ngram::ProbingModel q(f.c_str(), c); } else if (o.type == 2) { lm::ngram::TrieModel q(f.c_str(), c); } else { lm::ngram::ArrayTrieModel q(f.c_str(), c); } file = b; }
      args = file; if (o.markers) args += " -x"; if (o.name != "LanguageModel") args += " -n " + o.name;
      if (o.cls) { string mf = x.dir + "/cls"; ofstream c(mf.c_str()); for (auto& kv : CLS) c << kv.second.first << ' ' << kv.first << ' ' << kv.second.second << '\n'; args += " -m " + mf; }
      KLanguageModelFactory fac; FFP ff = fac.Create(args); vector<const FeatureFunction*> fv(1, ff.get()); static vector<double> wt(50); 
      int f1 = FD::Convert(o.name), f2 = FD::Convert(o.name + "_OOV"), f3 = FD::Convert(o.name + "_Emit"); wt[f1] = 1; ModelSet mset(wt, fv);
      Hypergraph in = forest(p1, p2, p3, o.markers);
      if (o.cls) { // put words of the classes in place of a, b; c stays unmapped
        map<const TRule*, TRulePtr> done; int alt = 0; for (auto& e : in.edges_) { TRulePtr& r = done[e.rule_.get()]; if (!r) { r.reset(new TRule(*e.rule_)); for (auto& w : r->e_) if (w > 0) { if (w == TD::Convert("a")) w = TD::Convert(++alt % 2 ? "w1" : "w2"); else if (w == TD::Convert("b")) w = TD::Convert("w3"); } } } for (auto& e : in.edges_) e.rule_ = done[e.rule_.get()]; }
      for (int alg = 0; alg < 2; ++alg) {
      Hypergraph out; ApplyModelSet(in, sm, mset, IntersectionConfiguration(alg, 30), &out);
      string bad = HGReal::sound(out); if (!x.check(bad.empty(), "unsound", [&] { return bad; })) break;
      vector<LD> D; list(out, f1, f2, f3, &D, 20000); vector<LD> D0; if (alg == 0) { list(in, f1, f2, f3, &D0, 20000); x.check(D.size() == D0.size(), "count", "derivations were lost"); }
      for (auto& d : D) {
        Arpa::G y; double emit = 0; for (WordID w : d.y) { string s = TD::Convert(w); if (o.cls) { auto i = CLS.find(s); if (i != CLS.end()) { emit += i->second.second; s = i->second.first; } else s = "<unk>"; } y.push_back(s); }
        int oov = 0; double want;
        if (!o.markers) want = m.sentence(y, &oov);
        else { // markers are in the yield: scored as written, 100 off for each misplaced or missing one
          bool bos = !y.empty() && y[0] == "<s>"; Arpa::G h; want = 0; size_t i = 0; if (bos) { h.push_back("<s>"); i = 1; } bool eos = false; for (; i < y.size(); ++i) { string w = m.map(y[i]); if (w == "<unk>") ++oov; if (eos) want -= 100; if (w == "</s>") eos = true; want += m.score(h, w); h.push_back(w); } if (!bos) want -= 100; if (!eos) want -= 100; bool mid = false; for (size_t k = 0; k < y.size(); ++k) if (k && y[k] == "<s>") mid = true; bool after = false; for (size_t k = 0; k + 1 < y.size(); ++k) if (y[k] == "</s>") after = true; if (mid || after) { x.check(d.lm < -99, "marker-penalty", "misplaced sentence marker is not penalised"); continue; } }
        bool ok = fabs(d.lm - want) < 2e-3 * (want < -50 ? 5 : 1); x.check(ok, "lm", [&] { ostringstream s; s << "derivation yielding '" << TD::GetString(d.y) << "' has " << o.name << "=" << d.lm << " but the model gives " << want; return s.str(); });
        x.check(fabs(d.oov - oov) < 1e-9, "oov", [&] { ostringstream s; s << "derivation yielding '" << TD::GetString(d.y) << "' has " << d.oov << " out-of-vocabulary words, expected " << oov; return s.str(); });
        x.check(fabs(d.emit - emit) < 1e-5, "emit", [&] { ostringstream s; s << "derivation yielding '" << TD::GetString(d.y) << "' has emission " << d.emit << ", expected " << emit; return s.str(); });
        x.state(vc::hdbl(want)); }
      x.step(D.size()); x.nontrivial(); x.stat("model states (nodes)", out.nodes_.size()); }
    } }
}
VC_MAIN(run)
