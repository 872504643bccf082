// C33: incremental search over a forest with a language model finds the best derivations and scores them exactly.
#define PROB HG_PROB
#include "incremental.h"
#include "hg.h"
#undef PROB
#include "kenlm.h"
#include "search/applied.hh"
#include "search/config.hh"
#include "search/context.hh"
#include "search/edge.hh"
#include "search/edge_generator.hh"
#include "search/nbest.hh"
#include "search/rule.hh"
#include "search/vertex.hh"
#include "search/vertex_generator.hh"
#include "tdict.h"
#include "fdict.h"
#include "verbose.h"
#include <array>
#include <memory>
using namespace std;
struct E { vector<string> e; vector<int> tails; double f; int id; };   // e: words, or "[k]" for the k-th tail
typedef vector<vector<E>> F;                                           // edges of each node; the last node is the root
struct Dv { vector<string> y; double f; string tree; double sc; };
static double FW = 0.6, LW, OW, WP;
static E mk(const string& t, double f, int id) { E r; r.f = f; r.id = id; istringstream in(t); string w; while (in >> w) { if (w[0] == '[') { r.tails.push_back(w[1] - '0'); r.e.push_back("[" + to_string(r.tails.size() - 1) + "]"); } else r.e.push_back(w); } return r; }
static bool derivs(const F& f, vector<vector<Dv>>& D) {
  D.assign(f.size(), {});
  for (size_t v = 0; v < f.size(); ++v) for (auto& e : f[v]) {
    vector<size_t> ix(e.tails.size()); bool none = false; for (int t : e.tails) none = none || D[t].empty(); if (none) continue;
    while (true) {
      Dv d; d.f = e.f; d.tree = "(" + to_string(e.id); for (size_t k = 0; k < ix.size(); ++k) { const Dv& c = D[e.tails[k]][ix[k]]; d.f += c.f; d.tree += c.tree; } d.tree += ")";
      for (auto& w : e.e) if (w[0] == '[') { const Dv& c = D[e.tails[w[1] - '0']][ix[w[1] - '0']]; d.y.insert(d.y.end(), c.y.begin(), c.y.end()); } else d.y.push_back(w);
      D[v].push_back(d); if (D[v].size() > 600) return false; size_t k = 0; for (; k < ix.size(); ++k) { if (++ix[k] < D[e.tails[k]].size()) break; ix[k] = 0; } if (k == ix.size()) break;
    }
  }
  return true;
}
// log10 probability of a string without implied markers; a leading <s> is context only
static double prob(const Arpa& m, const vector<string>& y, int* oov) { vector<string> h; double p = 0; *oov = 0; for (size_t i = 0; i < y.size(); ++i) { if (!i && y[i] == "<s>") { h.push_back("<s>"); continue; } string w = m.map(y[i]); if (w == "<unk>") ++*oov; p += m.score(h, w); h.push_back(w); } return p; }
static string str(const F& f) { ostringstream o; for (size_t v = 0; v < f.size(); ++v) for (auto& e : f[v]) { o << "  node " << v << ":"; for (auto& w : e.e) o << ' ' << (w[0] == '[' ? "[node " + to_string(e.tails[w[1] - '0']) + "]" : w); o << "  (" << e.f << ")\n"; } return o.str(); }
static string tree(const search::Applied a) { string s = "(" + to_string(static_cast<const E*>(a.GetNote().vp)->id); const search::Applied* c = a.Children(); for (size_t k = 0; k < static_cast<const E*>(a.GetNote().vp)->tails.size(); ++k) s += tree(*c++); return s + ")"; }
template <class M> struct Vocab : lm::EnumerateVocab { map<string, lm::WordIndex> m; void Add(lm::WordIndex i, const StringPiece& s) { m[string(s.data(), s.size())] = i; } lm::WordIndex operator()(const string& w) const { auto i = m.find(w); return i == m.end() ? 0 : i->second; } };
// the search as a client runs it: k = 0 for the single best
template <class M> static void hunt(const M& model, const Vocab<M>& voc, const F& f, unsigned pops, unsigned k, bool root, vector<pair<double, string>>& out) {
  search::Context<M> ctx(search::Config(LW, pops, search::NBestConfig(k ? k : 1)), model); unique_ptr<search::Vertex[]> V(new search::Vertex[f.size()]);
  search::SingleBest best; search::NBest nb((search::NBestConfig(k ? k : 1)));
  for (size_t v = 0; v < f.size(); ++v) {
    search::EdgeGenerator gen;
    for (auto& e : f[v]) {
      vector<lm::WordIndex> w; vector<search::PartialVertex> nt; float sc = e.f * FW; int n = 0; bool empty = false;
      for (auto& t : e.e) if (t[0] == '[') { nt.push_back(V[e.tails[t[1] - '0']].RootAlternate()); if (nt.back().Empty()) empty = true; else sc += nt.back().Bound(); w.push_back(lm::kMaxWordIndex); } else { ++n; w.push_back(voc(t)); }
      if (empty) continue;
      search::PartialEdge pe(gen.AllocateEdge(nt.size())); copy(nt.begin(), nt.end(), pe.NT()); search::Note note; note.vp = &e; pe.SetNote(note);
      sc -= n * WP / M_LN10; search::ScoreRuleRet r(search::ScoreRule(ctx.LanguageModel(), w, pe.Between())); sc += r.prob * LW + r.oov * OW; pe.SetScore(sc); gen.AddEdge(pe);
    }
    if (v + 1 == f.size() && root) { if (k) { search::RootVertexGenerator<search::NBest> g(V[v], nb); gen.Search(ctx, g); } else { search::RootVertexGenerator<search::SingleBest> g(V[v], best); gen.Search(ctx, g); } }
    else if (k) { search::VertexGenerator<search::NBest> g(ctx, V[v], nb); gen.Search(ctx, g); } else { search::VertexGenerator<search::SingleBest> g(ctx, V[v], best); gen.Search(ctx, g); }
  }
  if (k) { search::History h = V[f.size() - 1].RootAlternate().Empty() ? NULL : V[f.size() - 1].BestChild(); if (h) for (auto& a : nb.Extract(h)) out.push_back({a.GetScore(), tree(a)}); }
  else { search::Applied a(V[f.size() - 1].BestChild()); if (a.Valid()) out.push_back({a.GetScore(), tree(a)}); }
}
static vector<F> forests(bool thorough) {
  static const vector<vector<string>> L0 = {{"a", "b"}, {"a b", "b a"}, {"a b b a", "b a b", "b b"}, {"z", "a"}, {"b b", "a z b"}, {"b b b", "b", "a b"}}, L1 = {{"b"}, {"a", "b b"}, {"b a b", "z"}, {"a b a b", "b"}},
    N2 = {{"[0] [1]"}, {"[0] [1]", "[1] [0]"}, {"[0] a [1]", "[1] b"}, {"b [1] [0]", "[0]"}, {"[1]", "[0] [1] b", "a b"}, {"[1] b a b [0]", "[0] [0]"}},
    N3 = {{"[2]"}, {"[2] [0]", "a [2]"}, {"<s> [2] </s>"}, {"<s> [1] [2] </s>", "<s> [2] </s>", "<s> b [0] </s>"}, {"[2] a [1] [0]"}, {"[0] [2] [1]", "[1] [0]"}, {"<s> a [2] [0]", "<s> [1] b a </s>"}};
  vector<F> r; int q = 0;
  for (auto& a : L0) for (auto& b : L1) for (auto& c : N2) for (auto& d : N3) { ++q; F f; int id = 0; for (auto s : {&a, &b, &c, &d}) { f.push_back({}); for (auto& t : *s) { ++id; f.back().push_back(mk(t, ((id * 37 + q) % 13 - 6) * 0.11 + id * 0.003, id)); } } r.push_back(f); }
  (void)thorough; return r;
}
static void run(vc::X& x) {
  SetSilent(true); static ofstream nul("/dev/null"); streambuf* ce = cerr.rdbuf(); if (x.only < 0) cerr.rdbuf(nul.rdbuf());
  vector<F> FS = forests(x.thorough);
  vector<Arpa> MS; for (int order = 2; order <= 5; ++order) for (unsigned mask : {0x3ffffffu, 0x0000ffu, 0x36db6dbu & 0x3ffffffu, 0x2b5f7fu, 0x15ab97u, 0x03fffu, 0x1ffdb6u, 0x3fd9f7fu, 0x0ff3feu, 0x2089du}) for (int z = 0; z < 2; ++z) { Arpa m = closure(from_mask(mask, mask != 0x15ab97u, true, order, order + 3 * z));   // every suffix of an n-gram is there, and back-off weights only on contexts: then states compose (see C21)
    if (all_orders(m) && (m.has({"<unk>"}) || order < 4)) { MS.push_back(m); if (!z) { double bu = m.t[{"b"}].first; for (int i = 0; i < 255; ++i) { char w[8]; snprintf(w, 8, "aa%03d", i); m.add({w}, bu - 1, 0); } MS.push_back(m); } } }   // the second: word identifiers of a and b that differ in one bit above the lowest byte
  int mi = 0;
  for (auto& m : MS) { ++mi;
    for (int part = 0; part < 8; ++part) {   // the forests in eight portions, so that a model is read once for many of them
      if (!x.take()) continue;
      shared_ptr<string> at(new string); x.desc([&m, at, part] { return "model: " + m.brief() + "\nportion " + to_string(part) + *at; });
      string file = x.dir + "/lm.arpa"; m.write(file);
      vector<size_t> mine; for (size_t i = part; i < FS.size(); i += 8) if (x.thorough || (i / 8 + mi) % 3 == 0) mine.push_back(i);
      // reference
      vector<vector<Dv>> D; map<vector<string>, pair<double, int>> memo; vector<vector<Dv>> want(FS.size());
      int wi = 0;
      for (auto ws : vector<array<double, 4>>{{1.0, -0.3, 0.2, 0.6}, {0.25, -1.7, -0.4, 1.9}}) { LW = ws[0]; OW = ws[1]; WP = ws[2]; FW = ws[3]; ++wi; if (wi == 2 && !x.thorough && mi % 2) continue;
        if (!m.has({"<unk>"})) OW = -0.1;
        for (size_t i : mine) { if (!derivs(FS[i], D)) { want[i].clear(); continue; } want[i] = D.back(); for (auto& d : want[i]) { auto it = memo.find(d.y); if (it == memo.end()) { int o; double p = prob(m, d.y, &o); it = memo.insert({d.y, {p, o}}).first; } int n = d.y.size(); d.sc = d.f * FW - n / log(10.0) * WP + it->second.first * LW + it->second.second * OW; } stable_sort(want[i].begin(), want[i].end(), [](const Dv& a, const Dv& b) { return a.sc > b.sc; }); }
        auto judge = [&](size_t i, const vector<pair<double, string>>& got, size_t n, bool exact, const char* how) {
          map<string, double> by; for (auto& d : want[i]) by[d.tree] = d.sc;
          auto why = [&](const string& s) { ostringstream o; o << how << " (order " << m.order << ", weights " << wi << "): " << s << "\n" << str(FS[i]) << "  best by definition:"; for (size_t k = 0; k < want[i].size() && k < 12; ++k) { o << "\n    " << want[i][k].sc << ' ' << want[i][k].tree << ' '; for (auto& w : want[i][k].y) o << ' ' << w; } o << "\n  found:"; for (size_t k = 0; k < got.size() && k < 12; ++k) o << "\n    " << got[k].first << ' ' << got[k].second; return o.str(); };
          set<string> seen; double last = HUGE_VAL; x.step(got.size());
          if (!x.check(exact ? got.size() == min(n, want[i].size()) : !got.empty() && got.size() <= n, "count", [&] { return why("found " + to_string(got.size()) + " of " + to_string(want[i].size()) + " derivations"); })) return;
          for (size_t k = 0; k < got.size(); ++k) {
            x.check(by.count(got[k].second) && seen.insert(got[k].second).second, "derivation", [&] { return why("entry " + to_string(k) + " is no derivation or listed twice"); });
            x.check(vc::close(got[k].first, by[got[k].second], 2e-5), "score", [&] { return why("entry " + to_string(k) + " is scored wrongly, the definition gives " + to_string(by[got[k].second])); });
            x.check(got[k].first <= last + 1e-4, "order", [&] { return why("not in order"); }); last = got[k].first;
            if (exact) x.check(vc::close(got[k].first, want[i][k].sc, 2e-5), "best", [&] { return why("entry " + to_string(k) + " is not the best left"); });
            x.state(vc::mix(vc::hstr(got[k].second), vc::hdbl(got[k].first)));
          }
        };
        // every representation of the model, through the search itself
        for (int rep = 0; rep < NREP; ++rep) { if (rep == QTRIE || rep == QATRIE) continue; if (!x.thorough && rep > PROB && (mi + rep + wi) % 3) continue;
          dispatch(rep, [&](auto tag) { typedef typename decltype(tag)::T M; Vocab<M> voc; lm::ngram::Config c = quiet(); c.enumerate_vocab = &voc; unique_ptr<M> model;
            try { model.reset(new M(file.c_str(), c)); } catch (const std::exception& e) { x.stat("model not loadable"); return; }
            for (size_t i : mine) if (!want[i].empty()) {
              bool left = true; for (auto& e : FS[i].back()) left = left && e.e[0] == "<s>"; if (rep == REST && !left) continue;      // the rest cost stands in for a probability only until the left context is known
              for (unsigned pops : {1000000u, 1u, 2u, 5u}) for (unsigned k : {0u, 1u, 3u, 5000u}) for (int root = 0; root < 2; ++root) {
                if (k && !root) continue; if (pops < 100 && (k == 1 || (rep > PROB && pops != 2))) continue;
                *at = string(", ") + REPN[rep] + ", pops " + to_string(pops) + ", k " + to_string(k) + "\n" + str(FS[i]);
                vector<pair<double, string>> got; hunt<M>(*model, voc, FS[i], pops, k, root, got); judge(i, got, k ? k : 1, pops > 100, (string(REPN[rep]) + ", pop limit " + to_string(pops) + (k ? ", " + to_string(k) + " best" : ", single best")).c_str());
              }
            } }); }
        // the decoder's own use of it
        vector<weight_t> w; auto setw = [&](const char* n, double v) { size_t id = FD::Convert(n); if (w.size() <= id) w.resize(id + 1); w[id] = v; }; setw("F", FW); setw("KLanguageModel", LW); setw("KLanguageModel_OOV", OW); setw("WordPenalty", WP);
        for (auto& t : {"a", "b", "<s>", "</s>", "z"}) TD::Convert(t);
        unique_ptr<IncrementalBase> inc; try { inc.reset(IncrementalBase::Load(file.c_str(), w)); } catch (const util::ProbingSizeException&) { x.stat("model not loadable"); continue; }
        for (size_t i : mine) if (!want[i].empty()) {
          Hypergraph g; for (size_t v = 0; v < FS[i].size(); ++v) g.AddNode(TD::Convert("X") * -1); g.AddNode(TD::Convert("Goal") * -1);
          auto add = [&](const string& rule, const vector<int>& tails, int head) { TRulePtr r(new TRule(rule)); Hypergraph::TailNodeVector tn; for (int t : tails) tn.push_back(t); HG::Edge* e = g.AddEdge(r, tn); e->feature_values_ = r->GetFeatureValues(); g.ConnectEdgeToHeadNode(e, &g.nodes_[head]); };
          for (size_t v = 0; v < FS[i].size(); ++v) for (auto& e : FS[i][v]) { string f, t; for (size_t k = 0; k < e.tails.size(); ++k) f += " [X," + to_string(k + 1) + "]"; for (auto& q : e.e) t += " " + (q[0] == '[' ? "[" + to_string(q[1] - '0' + 1) + "]" : q); ostringstream o; o.precision(9); o << "[X] ||| f" << f << " |||" << t << " ||| F=" << e.f; add(o.str(), e.tails, v); }
          add("[Goal] ||| [X,1] ||| [1]", {(int)FS[i].size() - 1}, FS[i].size());
          for (unsigned pops : {1000000u, 2u}) {
            *at = ", the decoder's search, pops " + to_string(pops) + "\n" + str(FS[i]); ostringstream oc; streambuf* bo = cout.rdbuf(oc.rdbuf()); cout.precision(9); inc->Search(pops, g); cout.rdbuf(bo);
            string l = oc.str(); size_t q = l.find("||| "); string y = q == string::npos ? l : l.substr(0, q); double sc = q == string::npos ? 0 : atof(l.c_str() + q + 4); bool ok = false; for (auto& d : want[i]) { string t; for (auto& w : d.y) t += w + " "; if (t == y && vc::close(sc, d.sc, 2e-5)) ok = true; }
            x.step(); x.check(ok && (pops < 100 || vc::close(sc, want[i][0].sc, 2e-5)), "decoder-search", [&] { ostringstream o; o << "pop limit " << pops << " wrote " << l << "best by definition " << want[i][0].sc << "\n" << str(FS[i]); return o.str(); });
          }
        }
      }
      size_t nd = 0; for (auto& w : want) nd += w.size(); if (nd > mine.size()) x.nontrivial();
    }
  }
  cerr.rdbuf(ce);
}
VC_MAIN(run)
