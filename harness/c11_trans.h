// Shared by the C11 harnesses: running a translator and comparing its forest's derivations with the expected ones.
#ifndef C11_TRANS_H_
#define C11_TRANS_H_
#include "hgreal.h"
#include "decconf.h"
#include "translator.h"
#include "sentence_metadata.h"
#include "lattice.h"
#include <algorithm>
#include <memory>
using namespace std;
typedef map<string, double> Fe;                       // features by name
typedef map<string, int> Bag;                         // expected or found derivations, with multiplicity
inline void operator+=(Fe& a, const Fe& b) { for (auto& k : b) a[k.first] += k.second; }
inline string fstr(const Fe& f) { ostringstream o; o.precision(6); bool first = true; for (auto& k : f) if (fabs(k.second) > 1e-7) { o << (first ? "" : " ") << k.first << '=' << k.second; first = false; } return o.str(); }
static map<string, double> g_w;                       // the weights
inline double weight(const string& n) { double w = 0.125; for (unsigned char c : n) w = fmod(w * 3 + c * 0.375, 7); return w - 3; }
static vector<double> g_weights;
inline void know(const vector<string>& names) { for (auto& n : names) { size_t i = FD::Convert(n); if (g_weights.size() <= i) g_weights.resize(i + 1); g_weights[i] = g_w[n] = weight(n); } }
inline string score(const Fe& f) { double s = 0; for (auto& k : f) { auto it = g_w.find(k.first); if (it != g_w.end()) s += it->second * k.second; } ostringstream o; o << llround(s * 1e4); return o.str(); }
inline string words(const vector<string>& v) { string s; for (auto& w : v) s += (s.empty() ? "" : " ") + w; return s; }
inline vector<string> split(const string& s) { istringstream i(s); vector<string> v; string w; while (i >> w) v.push_back(w); return v; }
template <class P> bool found(const Hypergraph& hg, P piece, Bag* b, size_t* n) {
  vector<RDeriv> R; if (!HGReal::goal_derivs(hg, &R, 20000)) return false;
  *n = R.size();
  for (auto& d : R) { Fe f; for (auto& k : d.feats) f[FD::Convert(k.first)] = k.second; string s = d.estr() + " ||| " + fstr(f) + " ||| " + to_string(llround(d.lp * 1e4)) + " |||"; for (int e : d.edges) s += piece(hg.edges_[e]); ++(*b)[s]; }
  return true;
}
inline string expect(const string& e, const Fe& f, const string& pieces) { return e + " ||| " + fstr(f) + " ||| " + score(f) + " |||" + pieces; }
inline string diff(const Bag& want, const Bag& got) {
  ostringstream o; int k = 0; for (auto& w : want) { auto it = got.find(w.first); int g = it == got.end() ? 0 : it->second; if (g != w.second && k++ < 3) o << "; " << g << " instead of " << w.second << " of [" << w.first << "]"; }
  for (auto& w : got) if (!want.count(w.first) && k++ < 6) o << "; " << w.second << " unexpected [" << w.first << "]"; return o.str(); }
template <class P> void compare(vc::X& x, const string& key, bool ret, const Hypergraph& hg, const Bag& want, P piece, const string& what) {
  Bag got; size_t n = 0; x.step();
  if (ret) { string s = HGReal::sound(hg, false, false); if (!x.check(s.empty(), key + "-sound", [&] { return what + ": " + s; })) return; if (!x.check(found(hg, piece, &got, &n), key + "-derivations", [&] { return what + ": the forest has a cycle or too many derivations"; })) return; }
  size_t total = 0; for (auto& w : want) total += w.second; if (total > 1) x.nontrivial();
  x.check(got == want, key, [&] { return what + (ret ? "" : " (not translated)") + diff(want, got); });
  x.check(ret || want.empty(), key + "-return", [&] { return what + ": refused"; });
  for (auto& g : got) x.state(vc::hstr(g.first));
}
inline string file(vc::X& x, const string& name, const string& text) { string p = x.dir + "/" + name; ofstream(p) << text; return p; }
inline bool run(Translator& t, const string& in, SentenceMetadata* sm, Hypergraph* hg, const map<string, string>& kv = map<string, string>()) { t.ProcessMarkupHints(kv); return t.Translate(in, sm, g_weights, hg); }
#endif
