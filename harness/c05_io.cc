// C05: forests and lattices survive serialisation; printed forms describe exactly the derivations.
#include "hgspace.h"
#include "hgreal.h"
#include "hg_io.h"
#include "lattice.h"
#include "verbose.h"
using namespace std;

static string dump(const Hypergraph& g) {
  ostringstream o; o.precision(17);
  o << "linear=" << g.is_linear_chain_ << " nodes=" << g.nodes_.size() << " edges=" << g.edges_.size() << '\n';
  for (auto& n : g.nodes_) { o << "n " << n.id_ << " hash=" << n.node_hash << " cat=" << (n.cat_ < 0 ? TD::Convert(-n.cat_) : "none") << " in="; for (int e : n.in_edges_) o << e << ','; o << " out="; for (int e : n.out_edges_) o << e << ','; o << '\n'; }
  for (auto& e : g.edges_) { o << "e " << e.id_ << " head=" << e.head_node_ << " tails="; for (unsigned t : e.tail_nodes_) o << t << ','; o << " span=" << e.i_ << ',' << e.j_ << ',' << e.prev_i_ << ',' << e.prev_j_;
    map<string, double> f; for (SparseVector<double>::const_iterator i = e.feature_values_.begin(); i != e.feature_values_.end(); ++i) f[FD::Convert(i->first)] = i->second;
    for (auto& kv : f) o << ' ' << kv.first << '=' << kv.second;
    if (e.rule_) { const TRule& r = *e.rule_; o << " rule lhs=" << (r.lhs_ < 0 ? TD::Convert(-r.lhs_) : "none") << " arity=" << (int)r.arity_ << " f:"; for (WordID w : r.f_) { if (w < 0) o << " [" << TD::Convert(-w) << ']'; else o << " '" << TD::Convert(w) << "'"; } o << " e:"; for (WordID w : r.e_) { if (w <= 0) o << " <" << -w << '>'; else o << " '" << TD::Convert(w) << "'"; }
      map<string, double> s; for (SparseVector<double>::const_iterator i = r.scores_.begin(); i != r.scores_.end(); ++i) s[FD::Convert(i->first)] = i->second; for (auto& kv : s) o << " s:" << kv.first << '=' << kv.second; }
    o << '\n'; }
  return o.str();
}
// a second process with a different symbol table reads what this one wrote
struct Peer {
  int to, from; pid_t pid;
  static bool wr(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t r = write(fd, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
  static bool rd(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t r = read(fd, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
  Peer() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
    pid = fork();
    if (!pid) {
      close(a[1]); close(b[0]);
      for (int i = 0; i < 57; ++i) { TD::Convert("junk" + to_string(i)); FD::Convert("Junk" + to_string(i)); }
      while (true) { uint64_t n; if (!rd(a[0], &n, 8)) _exit(0); string s(n, 0); if (!rd(a[0], &s[0], n)) _exit(0);
        istringstream in(s); Hypergraph g; HypergraphIO::ReadFromBinary(&in, &g); string d = dump(g); n = d.size(); wr(b[1], &n, 8); wr(b[1], d.data(), n); }
    }
    close(a[0]); close(b[1]); to = a[1]; from = b[0];
  }
  ~Peer() { close(to); close(from); int st; waitpid(pid, &st, 0); }
  string ask(const string& s) { uint64_t n = s.size(); if (!wr(to, &n, 8) || !wr(to, s.data(), n) || !rd(from, &n, 8)) return "(the reading process died)"; string d(n, 0); rd(from, &d[0], n); return d; }
};
static Peer* peer;
static void binary(vc::X& x, const Hypergraph& g) {
  ostringstream o; HypergraphIO::WriteToBinary(g, &o);
  string want = dump(g), s = o.str();
  { istringstream in(s); Hypergraph r; r.AddNode(-1); bool ok = HypergraphIO::ReadFromBinary(&in, &r); string got = dump(r);
    x.check(ok && got == want, "binary", [&] { return "read back:\n" + got + "written:\n" + want; }); }
  string got = peer->ask(s);
  x.check(got == want, "binary-other-process", [&] { return "another process (different symbol numbering) reads:\n" + got + "written:\n" + want; });
  ostringstream o2; { istringstream in(s); Hypergraph r; HypergraphIO::ReadFromBinary(&in, &r); HypergraphIO::WriteToBinary(r, &o2); }
  x.check(dump(g) == want, "binary-changed", "writing changed the forest");
  { istringstream in(o2.str()); Hypergraph r; HypergraphIO::ReadFromBinary(&in, &r); x.check(dump(r) == want, "binary-twice", "second round trip differs"); }
  x.step(3); x.state(vc::hstr(s)); if (g.edges_.size() > 1) x.nontrivial();
}
static vector<string> split(const string& s) { vector<string> r; istringstream i(s); string t; while (i >> t) r.push_back(t); return r; }
struct PRule { vector<string> f, e; map<string, double> feats; };
typedef tuple<vector<string>, vector<string>, map<string, double>> PD;   // source, target, features
static void pderivs(const map<string, vector<PRule>>& G, const string& c, vector<PD>* out, map<string, vector<PD>>& memo) {
  auto m = memo.find(c); if (m != memo.end()) { *out = m->second; return; }
  out->clear(); auto it = G.find(c); if (it == G.end()) return;
  for (auto& r : it->second) {
    vector<string> nts; for (auto& w : r.f) if (w.size() > 2 && w[0] == '[' && w.back() == ']') nts.push_back(w.substr(1, w.size() - 2));
    vector<vector<PD>> k(nts.size()); bool empty = false; for (size_t i = 0; i < nts.size(); ++i) { pderivs(G, nts[i], &k[i], memo); if (k[i].empty()) empty = true; }
    if (empty) continue;
    vector<size_t> ix(nts.size());
    while (true) {
      PD d; get<2>(d) = r.feats; size_t c2 = 0;
      for (auto& w : r.f) if (w.size() > 2 && w[0] == '[' && w.back() == ']') { auto& s = get<0>(k[c2][ix[c2]]); get<0>(d).insert(get<0>(d).end(), s.begin(), s.end()); ++c2; } else get<0>(d).push_back(w);
      for (auto& w : r.e) if (w.size() > 2 && w[0] == '[' && w.back() == ']') { size_t q = atoi(w.c_str() + 1) - 1; if (q >= k.size()) { get<1>(d).push_back("BADINDEX"); continue; } auto& s = get<1>(k[q][ix[q]]); get<1>(d).insert(get<1>(d).end(), s.begin(), s.end()); } else get<1>(d).push_back(w);
      for (size_t i = 0; i < k.size(); ++i) for (auto& kv : get<2>(k[i][ix[i]])) get<2>(d)[kv.first] += kv.second;
      out->push_back(d);
      size_t i = 0; for (; i < ix.size(); ++i) { if (++ix[i] < k[i].size()) break; ix[i] = 0; } if (i == ix.size()) break;
    }
  }
  memo[c] = *out;
}
static string sig(const vector<string>& f, const vector<string>& e, const map<string, double>& ft) { ostringstream o; o.precision(5); for (auto& w : f) o << w << ' '; o << "||| "; for (auto& w : e) o << w << ' '; o << "|||"; for (auto& kv : ft) if (fabs(kv.second) > 1e-6) o << ' ' << kv.first << '=' << kv.second; return o.str(); }
static void cfg(vc::X& x, const AHG& h, const Hypergraph& g) {
  vector<RDeriv> R; if (!HGReal::goal_derivs(g, &R, 3000)) return;
  ostringstream o; streambuf* old = cout.rdbuf(o.rdbuf()); HypergraphIO::WriteAsCFG(g); cout.rdbuf(old);
  map<string, vector<PRule>> G; istringstream in(o.str()); string line;
  while (getline(in, line)) {
    vector<string> t = split(line); PRule r; int part = 0; string lhs;
    for (auto& w : t) { if (w == "|||") { ++part; continue; } if (part == 0) lhs = w.substr(1, w.size() - 2); else if (part == 1) r.f.push_back(w); else if (part == 2) r.e.push_back(w); else { size_t q = w.find('='); if (q != string::npos) { string v = w.substr(q + 1); if (v.size() && v.back() == ';') v.erase(v.size() - 1); r.feats[w.substr(0, q)] = atof(v.c_str()); } } }
    G[lhs].push_back(r);
  }
  vector<PD> P; map<string, vector<PD>> memo; pderivs(G, "X_" + to_string(g.nodes_.size() - 1), &P, memo);
  multiset<string> got, want;
  for (auto& d : P) got.insert(sig(get<0>(d), get<1>(d), get<2>(d)));
  for (auto& d : R) { map<string, double> f; for (auto& kv : d.feats) f[FD::Convert(kv.first)] = kv.second; vector<string> a, b; for (WordID w : d.e) a.push_back(TD::Convert(w)); for (WordID w : d.f) b.push_back(TD::Convert(w)); want.insert(sig(a, b, f)); }
  x.check(got == want, "as-cfg", [&] { string s = "printed grammar:\n" + o.str() + "derives:"; for (auto& q : got) s += "\n  " + q; s += "\nexpected (target ||| source ||| features):"; for (auto& q : want) s += "\n  " + q; return s; });
  x.step(want.size());
  // target-side dump
  HypergraphIO::WriteTarget(x.dir, 7, g);
  ifstream tf((x.dir + "/7").c_str()); int n = -1, m = -1; tf >> n >> m; x.check(n == (int)g.nodes_.size() && m == (int)g.edges_.size(), "target-header", "target dump header");
  vector<multiset<string>> Y(max(n, 1)); int total = 0; bool ok = true;
  for (int v = 0; v < n && ok; ++v) { int c = 0; if (!(tf >> c)) { ok = false; break; } getline(tf, line); total += c;
    for (int i = 0; i < c; ++i) { if (!getline(tf, line)) { ok = false; break; } vector<string> cur(1, ""); for (auto& w : split(line.substr(0, line.find("|||")))) { vector<string> nx; if (w[0] == '[') { int q = atoi(w.c_str() + 1); if (q >= v) { ok = false; break; } for (auto& a : cur) for (auto& b : Y[q]) nx.push_back(a + b); } else for (auto& a : cur) nx.push_back(a + w + " "); cur = nx; } for (auto& s : cur) Y[v].insert(s); } }
  multiset<string> wy; for (auto& d : R) wy.insert(d.e.empty() ? "" : d.estr() + " ");
  // several occurrences of one sub-forest are expanded jointly here, which multiplies strings but not the set when tails repeat: compare as sets
  set<string> a(wy.begin(), wy.end()), b; if (ok && n > 0) b.insert(Y[n - 1].begin(), Y[n - 1].end());
  x.check(ok && total == m && a == b, "write-target", "the target-side dump does not describe the forest's target strings");
}
// ---- lattices
struct Arc { string w; vector<double> cost; int d; };
typedef vector<vector<Arc>> Lat;
static string quoted(const string& s) { string r = "'"; for (char c : s) { if (c == '\'' || c == '\\') r += '\\'; r += c; } return r + "'"; }
static string render(const Lat& l, int style) {   // style bit 0: spaces, bit 1: trailing commas, bit 2: dictionary features
  string sp = style & 1 ? " " : ""; ostringstream o; o << '(';
  for (size_t i = 0; i < l.size(); ++i) { if (i && !(style & 2)) o << ',' << sp; o << '('; for (size_t j = 0; j < l[i].size(); ++j) { if (j && !(style & 2)) o << ',' << sp; auto& a = l[i][j]; o << '(' << quoted(a.w) << ',' << sp;
      if (style & 4) { o << '{'; for (size_t k = 0; k < a.cost.size(); ++k) o << (k ? ("," + sp) : "") << "'LatticeCost_" << k << "'" << sp << ":" << sp << a.cost[k]; o << '}'; } else for (size_t k = 0; k < a.cost.size(); ++k) o << (k ? ("," + sp) : "") << a.cost[k];
      o << ',' << sp << a.d << ')'; if (style & 2) o << ','; } o << ')'; if (style & 2) o << ','; }
  o << ')'; return o.str();
}
static string canon(const Lat& l) { ostringstream o; for (auto& n : l) { o << '('; for (auto& a : n) { o << a.w << ' ' << a.d; for (double c : a.cost) o << ' ' << (float)c; o << ';'; } o << ')'; } return o.str(); }
static string canon(const Lattice& l) { ostringstream o; for (auto& n : l) { o << '('; for (auto& a : n) { o << TD::Convert(a.label) << ' ' << a.dist2next; int k = 0; map<string, double> m; for (SparseVector<double>::const_iterator i = a.features.begin(); i != a.features.end(); ++i) m[FD::Convert(i->first)] = i->second; for (auto& kv : m) { if (kv.first != "LatticeCost_" + to_string(k)) o << '!' << kv.first; ++k; o << ' ' << (float)kv.second; } o << ';'; } o << ')'; } return o.str(); }
static void lattice(vc::X& x, const Lat& l, Lattice* reused) {
  string want = canon(l);
  const int n = l.size();
  for (int style = 0; style < 8; ++style) {
    string s = render(l, style);
    Lattice a; HypergraphIO::PLFtoLattice(s, &a);
    x.check(canon(a) == want, "plf-read", [&] { return s + " was read as " + canon(a) + " expected " + want; });
    if (style == 0 || style == 3) {
      string t = HypergraphIO::AsPLF(a); Lattice b; HypergraphIO::PLFtoLattice(t, &b);
      x.check(canon(b) == want, "plf-roundtrip", [&] { return s + " was printed as " + t + " and read back as " + canon(b) + " expected " + want; });
      // as a forest: weights = first cost
      Hypergraph g; HypergraphIO::ReadFromPLF(s, &g); string bad = HGReal::sound(g, true, false); x.check(bad.empty(), "plf-forest", [&] { return bad; });
      x.check((int)g.nodes_.size() == n + 1, "plf-nodes", "number of states");
      map<int, double> w; for (auto& e : g.edges_) e.edge_prob_.logeq(e.feature_values_.value(FD::Convert("LatticeCost_0")));
      bool allout = true; for (int v = 0; v < n; ++v) if (g.nodes_[v].out_edges_.empty()) allout = false;
      if (allout) { string t2 = HypergraphIO::AsPLF(g); Lattice c; HypergraphIO::PLFtoLattice(t2, &c); Lat l1 = l; for (auto& nn : l1) for (auto& q : nn) q.cost.assign(1, q.cost.size() ? q.cost[0] : 0.0); x.check(canon(c) == canon(l1), "plf-forest-roundtrip", [&] { return s + " as forest printed as " + t2 + " and read back as " + canon(c); }); }
      if (LatticeTools::LooksLikePLF(s)) {
        Lattice d; LatticeTools::ConvertTextOrPLF(s, &d); LatticeTools::ConvertTextOrPLF(s, reused);
        x.check(canon(d) == want && canon(*reused) == want, "text-or-plf", "ConvertTextOrPLF");
        // shortest distances in arcs
        vector<vector<int>> D(n + 1, vector<int>(n + 1, 1000000)); for (int i = 0; i < n; ++i) for (auto& q : l[i]) D[i][i + q.d] = 1;
        for (int k = 0; k <= n; ++k) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) D[i][j] = min(D[i][j], D[i][k] + D[k][j]);
        for (int i = 0; i <= n; ++i) for (int j = i + 1; j <= n; ++j) if (D[i][j] < 1000000) { x.check(d.Distance(i, j) == D[i][j], "distance", [&] { ostringstream o; o << s << ": distance " << i << "->" << j << " is " << d.Distance(i, j) << " expected " << D[i][j]; return o.str(); });
          x.check(reused->Distance(i, j) == D[i][j], "distance-reused", [&] { ostringstream o; o << s << ": in a reused lattice object, distance " << i << "->" << j << " is " << reused->Distance(i, j) << " expected " << D[i][j]; return o.str(); }); }
      } else x.check(false, "looks-like", [&] { return s + " is not recognised as a lattice"; });
    }
    x.step();
  }
  x.state(vc::hstr(want)); if (n > 1) x.nontrivial();
}
static void run(vc::X& x) {
  SetSilent(true);
  peer = new Peer;
  // 1. forests
  HGSpace::standard(x.thorough ? 1 : 0, [&](AHG& h0) {
    for (int rev = 0; rev < 2; ++rev) { if (!x.take()) continue; AHG h = h0; HGSpace::weigh(&h, h.e.size() % 4);
      x.desc([h] { return h.str(); });
      Hypergraph g; HGSpace::build(h, &g, rev); binary(x, g); if (!rev) cfg(x, h, g); }
  });
  // 2. rules: long sides, nonterminals anywhere, awkward tokens, several categories, values
  static const char* W[] = {"a", "it's", "b\\c", "\xc3\xa9t\xc3\xa9", "|||", "[X]", "1", "-", "=", "\"q\"", "x;y", "<s>", "a,b", "(", "{"};
  static const double V[] = {1, -1, 0, 0.1, 1e-9, -1e9, 12345.678901, 3.0000001};
  for (int fl : {0, 1, 2, 3, 8, 31, 32, 33, 34, 63, 64}) for (int el : {1, 2, 3, 31, 32, 33, 64}) for (int np = 0; np < 5; ++np) {
    for (int tok = 0; tok < 15; tok += (fl <= 3 && el <= 3 ? 1 : 5)) { if (!x.take()) continue;
      // nonterminal positions on the source side
      vector<int> pos; if (np == 1) pos = {0}; else if (np == 2) pos = {fl - 1}; else if (np == 3) pos = {0, fl - 1}; else if (np == 4) pos = {fl / 2, fl - 1};
      bool bad = false; for (int p : pos) if (p < 0 || p >= fl) bad = true; if (pos.size() == 2 && pos[0] == pos[1]) bad = true; if ((int)pos.size() > el) bad = true; if (bad) continue;
      x.desc([=] { ostringstream o; o << "rule with " << fl << " source symbols (nonterminals at " << vc::str(pos) << "), " << el << " target symbols, first word '" << W[tok] << "'"; return o.str(); });
      vector<WordID> f(fl), e(el); for (int i = 0; i < fl; ++i) f[i] = TD::Convert(W[(tok + i) % 15]); for (int i = 0; i < el; ++i) e[i] = TD::Convert(W[(tok + 2 * i) % 15]);
      WordID cats[] = {TD::Convert("NP"), TD::Convert("X-1")};
      for (size_t k = 0; k < pos.size(); ++k) f[pos[k]] = -cats[k];
      if (pos.size() == 1) e[el - 1] = 0; if (pos.size() == 2) { e[0] = -1; e[el - 1] = 0; }
      TRulePtr r(new TRule(e, f, -TD::Convert("S"))); r->ComputeArity(); for (int i = 0; i < 3; ++i) r->scores_.set_value(FD::Convert("R" + to_string(i)), V[(tok + i) % 8]);
      Hypergraph g; g.edges_topo_ = true; g.is_linear_chain_ = tok & 1; TRulePtr leaf(new TRule("[NP] ||| x ||| y")), leaf2(new TRule("[X-1] ||| x ||| z"));
      Hypergraph::TailNodeVector t; for (size_t k = 0; k < pos.size(); ++k) { HG::Node* n = g.AddNode(-cats[k]); int id = n->id_; HG::Edge* ed = g.AddEdge(k ? leaf2 : leaf, Hypergraph::TailNodeVector()); ed->feature_values_.set_value(FD::Convert("Q"), V[k + 2]); g.ConnectEdgeToHeadNode(ed->id_, id); t.push_back(id); }
      int top = g.AddNode(tok % 3 == 0 ? 0 : -TD::Convert("S"))->id_; g.nodes_[top].node_hash = 0xfedcba9876543210ULL + tok;
      for (int c = 0; c < 2; ++c) { HG::Edge* ed = g.AddEdge(r, t); ed->i_ = c ? -1 : 300; ed->j_ = 32000; ed->prev_i_ = -1; ed->prev_j_ = c; for (int i = 0; i < 8; ++i) ed->feature_values_.set_value(FD::Convert(string("F") + W[i]), V[(i + tok) % 8]); g.ConnectEdgeToHeadNode(ed->id_, top); }
      binary(x, g);
    }
  }
  { if (x.take()) { x.desc([] { return string("empty forest"); }); Hypergraph g; g.edges_topo_ = true; binary(x, g); } }
  // 3. lattices
  static const char* T[] = {"a", "it's", "\\", "'", "b c", "\\'", "x,y", "(z)", "}", "\xe6\x97\xa5", "*EPS*", "''"};
  const int NT = 12; static const double C[] = {0.5, -2.25, 0, 1e-5, 12, -0.125};
  Lattice reused;
  for (int a = 0; a < NT; ++a) for (int b = 0; b < NT; ++b) for (int nc = 1; nc <= 3; ++nc) { if (!x.take()) continue;
    Lat l(2); for (int k = 0; k < 2; ++k) { Arc q; q.w = T[k ? b : a]; q.d = 1; for (int i = 0; i < nc; ++i) q.cost.push_back(C[(a + b + i + k) % 6]); l[k].push_back(q); }
    x.desc([l] { return render(l, 0); }); lattice(x, l, &reused); }
  // every connected arc structure on up to 3 (thorough 4) states, one or two parallel arcs
  const int N = x.thorough ? 4 : 3;
  for (int n = 1; n <= N; ++n) {
    vector<pair<int, int>> slots; for (int i = 0; i < n; ++i) for (int j = i + 1; j <= n; ++j) slots.push_back({i, j});
    vector<int> mult(slots.size(), 0);
    while (true) {
      Lat l(n); vector<bool> in(n + 1), out(n + 1); int c = 0;
      for (size_t s = 0; s < slots.size(); ++s) for (int m = 0; m < mult[s]; ++m) { Arc a; a.w = T[(c * 5) % NT]; a.d = slots[s].second - slots[s].first; a.cost.push_back(C[c % 6]); ++c; l[slots[s].first].push_back(a); in[slots[s].second] = out[slots[s].first] = true; }
      bool ok = true; for (int i = 0; i < n; ++i) ok = ok && out[i]; for (int i = 1; i <= n; ++i) ok = ok && in[i];
      if (ok) for (int ord = 0; ord < 2; ++ord) { if (!x.take()) continue; Lat q = l; if (ord) for (auto& v : q) reverse(v.begin(), v.end()); x.desc([q] { return render(q, 0); }); lattice(x, q, &reused); }
      size_t s = 0; for (; s < slots.size(); ++s) { if (++mult[s] <= (n >= 4 ? 1 : 2)) break; mult[s] = 0; } if (s == slots.size()) break;
    }
  }
  // 4. plain text
  for (int n = 0; n <= 3; ++n) for (int m = 0; m < 64; m += 5) { if (!x.take()) continue; string s; vector<string> w; int q = m; for (int i = 0; i < n; ++i) { w.push_back(T[q % 4]); q /= 4; s += (i ? " " : "") + w.back(); }
    x.desc([s] { return "text '" + s + "'"; }); Lattice l; LatticeTools::ConvertTextOrPLF(s, &l); LatticeTools::ConvertTextOrPLF(s, &reused); bool ok = l.size() == w.size(); for (int i = 0; ok && i < n; ++i) ok = l[i].size() == 1 && TD::Convert(l[i][0].label) == w[i] && l[i][0].dist2next == 1 && l[i][0].features.empty() && reused[i].size() == 1 && reused[i][0].label == l[i][0].label;
    x.check(ok && reused.size() == l.size(), "text", "a plain sentence is not read as the chain of its words"); for (int i = 0; i < n; ++i) for (int j = i + 1; j <= n; ++j) x.check(l.Distance(i, j) == j - i && reused.Distance(i, j) == j - i, "text-distance", "distance in a plain sentence"); x.check(IsSentence(l), "is-sentence", "IsSentence"); }
  delete peer;
}
VC_MAIN(run)
