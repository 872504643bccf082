// part of c29_align.cc: translation tables, the diagonal prior and EM training
static double digamma_(double v) { double r = 0; while (v < 10) { r -= 1 / v; v += 1; } double f = 1 / (v * v); return r + log(v) - 0.5 / v - f * (1. / 12 - f * (1. / 120 - f * (1. / 252 - f * (1. / 240 - f * (1. / 132))))); }
typedef map<string, map<string, double>> T2;
static T2 normalise(const T2& c, double alpha) {   // alpha < 0: relative frequencies
  T2 r; for (auto& e : c) { double t = 0; for (auto& f : e.second) t += f.second + (alpha < 0 ? 0 : alpha); if (t == 0) t = 1; for (auto& f : e.second) r[e.first][f.first] = alpha < 0 ? f.second / t : exp(digamma_(f.second + alpha) - digamma_(t)); } return r; }
static double prob(const T2& t, const string& e, const string& f) { auto i = t.find(e); if (i == t.end()) return 1e-9; auto j = i->second.find(f); return j == i->second.end() ? 1e-9 : j->second; }
// every sequence of table operations
static void tables(vc::X& x, bool th) {
  const S W = {"<eps>", "ta", "tb", "tc"}; vector<int> id; for (auto& w : W) id.push_back(TD::Convert(w)); const int NOP = 13; int mx = th ? 5 : 4;
  for (int len = 1; len <= mx; ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= NOP; for (int c = 0; c < tot; ++c) { if (!x.take()) continue; x.desc([=] { string o = "table operations"; int q = c; for (int i = 0; i < len; ++i, q /= NOP) o += " " + to_string(q % NOP); return o; });
      TTable t; T2 rp, rc; int q = c; string how; cerr.setstate(ios::failbit);
      for (int i = 0; i < len; ++i, q /= NOP) { x.step(); switch (q % NOP) {
          case 0: t.Increment(id[1], id[2]); rc["ta"]["tb"] += 1; break; case 1: t.Increment(id[3], id[1]); rc["tc"]["ta"] += 1; break; case 2: t.Increment(id[0], id[2], 0.25); rc["<eps>"]["tb"] += .25; break; case 3: t.Increment(id[3], id[2], 0.5); rc["tc"]["tb"] += .5; break; case 4: t.Increment(id[1], id[3], 3); rc["ta"]["tc"] += 3; break;
          case 5: t.Normalize(); rp = normalise(rc, -1); rc.clear(); break; case 6: t.NormalizeVB(0.01); rp = normalise(rc, 0.01); rc.clear(); break; case 7: t.NormalizeVB(1); rp = normalise(rc, 1); rc.clear(); break;
          case 8: { TTable u; u.Increment(id[1], id[2], 2); u.Increment(id[3], id[3], 4); t += u; rc["ta"]["tb"] += 2; rc["tc"]["tc"] += 4; break; } case 9: { TTable u(t); t += u; for (auto& e : rc) for (auto& f : e.second) f.second *= 2; break; } case 10: { TTable u; t += u; break; }
          case 11: { istringstream in("ta tb -0.5\ntb tc -2\n<eps> tc 0\n"); t.DeserializeLogProbsFromText(&in); rp["ta"]["tb"] = exp(-.5); rp["tb"]["tc"] = exp(-2); rp["<eps>"]["tc"] = 1; break; } default: { istringstream in(len % 2 ? "tc ta 0.5\ntc tb 0.25" : "tc ta 0.5\ntc tb 0.25\n\n"); t.DeserializeProbsFromText(&in); rp["tc"]["ta"] = .5; rp["tc"]["tb"] = .25; break; } }
        for (int a = 0; a < 4 && how.empty(); ++a) for (int b = 0; b < 4; ++b) { double g = t.prob(id[a], id[b]), w = prob(rp, W[a], W[b]); if (!vc::close(g, w, 1e-9)) how = "p(" + W[b] + "|" + W[a] + ") = " + to_string(g) + " instead of " + to_string(w); } if (!how.empty()) { how += " after step " + to_string(i + 1); break; } }
      cerr.clear(); if (len > 2) x.nontrivial(); T2 gc; for (size_t a = 0; a < t.counts.size(); ++a) for (auto& f : t.counts[a]) gc[TD::Convert(a)][TD::Convert(f.first)] = f.second; for (auto& e : rc) for (auto& f : e.second) if (!vc::close(gc[e.first][f.first], f.second)) how = "count of " + e.first + " " + f.first + " is " + to_string(gc[e.first][f.first]) + " instead of " + to_string(f.second); size_t n = 0, k = 0; for (auto& e : gc) n += e.second.size(); for (auto& e : rc) k += e.second.size(); if (how.empty() && n != k) how = to_string(n) + " counts instead of " + to_string(k);
      x.check(how.empty(), "table", how); string s; for (auto& e : rp) for (auto& f : e.second) s += e.first + f.first + to_string(f.second); x.state(vc::hstr(s)); } }
  // what the loader says about its input
  const S LN = {"ta tb -0.5", "tb tc -2", "tc ta -1e-05", ""}; for (int n = 0; n <= 3; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 4; for (int c = 0; c < tot; ++c) for (int nl = 0; nl < 2; ++nl) { if (!x.take()) continue; string t; int q = c, k = 0; T2 w; for (int i = 0; i < n; ++i, q /= 4) { t += LN[q % 4] + "\n"; if (q % 4 < 3) { ++k; istringstream l(LN[q % 4]); string e, f; double p; l >> e >> f >> p; w[e][f] = exp(p); } } if (nl && t.size()) t.erase(t.size() - 1); x.desc([=] { return "parameters '" + vc::esc(t) + "'"; }); x.step(); ostringstream log; streambuf* old = cerr.rdbuf(log.rdbuf()); TTable tt; istringstream in(t); tt.DeserializeLogProbsFromText(&in); cerr.rdbuf(old);
        string bad; for (auto& a : W) for (auto& b : W) if (!vc::close(tt.prob(TD::Convert(a), TD::Convert(b)), prob(w, a, b))) bad = a + " " + b; x.check(bad.empty(), "load", "wrong value for " + bad); x.check(log.str() == "Loaded " + to_string(k) + " translation parameters.\n", "load-count", "reports " + log.str() + " for " + to_string(k) + " parameters"); } }
}
static double feat(double i, double j, double m, double n) { return -fabs(j / n - i / m); }
static double zsum(int i, int m, int n, double al) { double z = 0; for (int j = 1; j <= n; ++j) z += exp(al * feat(i, j, m, n)); return z; }
static double esum(int i, int m, int n, double al) { double z = 0; for (int j = 1; j <= n; ++j) z += feat(i, j, m, n) * exp(al * feat(i, j, m, n)); return z / zsum(i, m, n, al); }
static void diagonal(vc::X& x, bool th) {
  int N = th ? 60 : 20; for (int m = 1; m <= N; ++m) for (int n = 1; n <= N; ++n) for (double al : {0., 0.1, 0.5, 1., 4., 10., 14.}) { if (!x.take()) continue; x.desc([=] { return "diagonal prior for " + to_string(m) + " target and " + to_string(n) + " source words, tension " + to_string(al); }); x.nontrivial();
      for (int i = 1; i <= m; ++i) { x.step(); for (int j = 1; j <= n; ++j) if (!x.check(vc::close(DiagonalAlignment::Feature(i, j, m, n), feat(i, j, m, n)) && vc::close(DiagonalAlignment::UnnormalizedProb(i, j, m, n, al), exp(al * feat(i, j, m, n))), "feature", "wrong feature")) return; double z = DiagonalAlignment::ComputeZ(i, m, n, al), w = zsum(i, m, n, al), d = DiagonalAlignment::ComputeDLogZ(i, m, n, al), e = esum(i, m, n, al); x.check(vc::close(z, w, 1e-9), "normaliser", [&] { return "normaliser at " + to_string(i) + " is " + to_string(z) + " instead of " + to_string(w); }); x.check(vc::close(d, e, 1e-7), "normaliser-derivative", [&] { return "derivative of the log normaliser at " + to_string(i) + " is " + to_string(d) + " instead of " + to_string(e); }); x.state(vc::mix(vc::hdbl(w), vc::hdbl(e))); } }
}
struct Opt { S a; bool rev, diag, tune, vb, null, hide, V, par, test; int I; double pn, T, al, beam, mult; Opt() : rev(0), diag(0), tune(0), vb(0), null(1), hide(0), V(0), par(0), test(0), I(5), pn(.08), T(4), al(.01), beam(-4), mult(0) {} };
static Opt parse(const string& s) { Opt o; istringstream i(s); string t; while (i >> t) { if (t == "-p") { o.par = true; continue; } if (t == "-x") { o.test = true; continue; } o.a.push_back(t); auto num = [&]() { string v; i >> v; o.a.push_back(v); return atof(v.c_str()); }; if (t == "-r") o.rev = true; else if (t == "-d") o.diag = true; else if (t == "-o") o.tune = true; else if (t == "-v") o.vb = true; else if (t == "-N") o.null = false; else if (t == "-H") o.hide = true; else if (t == "-V") o.V = true; else if (t == "-I") o.I = num(); else if (t == "-T") o.T = num(); else if (t == "-a") o.al = num(); else if (t == "-t") o.beam = num(); else if (t == "--prob_align_null") o.pn = num(); else abort(); } return o; }
typedef vector<pair<S, S>> Corpus;
static string text(const Corpus& c) { string t; for (auto& p : c) { for (auto& w : p.first) t += w + " "; t += "|||"; for (auto& w : p.second) t += " " + w; t += "\n"; } return t; }
static bool rel(double a, double b, double tol) { return a == b || fabs(a - b) <= tol * max(fabs(a), fabs(b)) + 1e-9; }
struct Em {   // the definition, in the order of the printed report
  const Opt& o; T2 t; double tension, mult; vector<pair<string, double>> rep; vector<vector<set<int>>> best; map<pair<string, string>, int> vit;   // 2 surely, 1 possibly
  Em(const Opt& o) : o(o), tension(o.T), mult(o.mult) {}
  vector<double> joint(const S& s, const S& f, int j) { vector<double> p(s.size() + 1, 0); double u = 1.0 / (s.size() + o.null); if (o.null) p[0] = prob(t, "<eps>", f[j]) * (o.diag ? o.pn : u); double z = o.diag ? zsum(j + 1, f.size(), s.size(), tension) / (1 - o.pn) : 0; for (size_t i = 1; i <= s.size(); ++i) p[i] = prob(t, s[i - 1], f[j]) * (o.diag ? exp(tension * feat(j + 1, i, f.size(), s.size())) / z : u); return p; }
  static set<int> argmax(const vector<double>& p, bool null) { double m = -1; set<int> r; for (size_t i = !null; i < p.size(); ++i) m = max(m, p[i]); for (size_t i = !null; i < p.size(); ++i) if (p[i] >= m * (1 - 1e-7)) r.insert(i); return r; }
  void train(const Corpus& c) { for (int it = 0; it < o.I; ++it) { bool fin = it + 1 == o.I; double ll = 0, toks = 0, c0 = 0, ef = 0, ratio = 0; T2 cnt; set<pair<int, int>> sz;
      for (auto& pr : c) { const S& s = o.rev ? pr.second : pr.first; const S& f = o.rev ? pr.first : pr.second; ratio += double(f.size()) / s.size(); toks += f.size(); sz.insert({f.size(), s.size()}); vector<set<int>> bl; for (size_t j = 0; j < f.size(); ++j) { auto p = joint(s, f, j); double sum = 0; for (double v : p) sum += v; ll += log(sum); if (fin) { bl.push_back(argmax(p, o.null)); for (int i : bl.back()) { int& v = vit[{i ? s[i - 1] : "<eps>", f[j]}]; v = max(v, bl.back().size() == 1 ? 2 : 1); } } else { if (o.null) { c0 += p[0] / sum; cnt["<eps>"][f[j]] += p[0] / sum; } for (size_t i = 1; i <= s.size(); ++i) { cnt[s[i - 1]][f[j]] += p[i] / sum; ef += p[i] / sum * feat(j + 1, i, f.size(), s.size()); } } } if (fin) best.push_back(bl); }
      if (it == 0) { mult = ratio / c.size(); rep.push_back({"expected target length = source length *", mult}); } double b2 = ll / log(2.); ef /= toks; rep.push_back({"log_e likelihood:", ll}); rep.push_back({"log_2 likelihood:", b2}); rep.push_back({"cross entropy:", -b2 / toks}); rep.push_back({"perplexity:", pow(2., -b2 / toks)}); rep.push_back({"posterior p0:", c0 / toks}); rep.push_back({"posterior al-feat:", ef}); rep.push_back({"size counts:", sz.size()});
      if (!fin) { if (o.diag && o.tune && it > 0) { for (int k = 0; k < 8; ++k) { double mf = 0; for (auto& pr : c) { int m = (o.rev ? pr.first : pr.second).size(), n = (o.rev ? pr.second : pr.first).size(); for (int j = 1; j <= m; ++j) mf += esum(j, m, n, tension); } mf /= toks; rep.push_back({"model al-feat:", mf}); tension += (ef - mf) * 20; tension = min(14., max(.1, tension)); } rep.push_back({"final tension:", tension}); } t = normalise(cnt, o.vb ? o.al : -1); } } }
};
// one output line of links: every target word has its link, or none, among the best
static string linksok(const string& l, const vector<set<int>>& b, bool rev) { map<int, int> m; istringstream i(l); string t; int last = -1; while (i >> t) { int a, c, n = 0; if (sscanf(t.c_str(), "%d-%d%n", &a, &c, &n) != 2 || n != (int)t.size()) return "malformed link " + t; if (rev) swap(a, c); if (m.count(c) || c <= last) return "links out of order"; last = c; m[c] = a + 1; } for (auto& e : m) if (e.first >= (int)b.size()) return "a link beyond the sentence"; for (size_t j = 0; j < b.size(); ++j) if (!b[j].count(m.count(j) ? m[j] : 0)) return "word " + to_string(j) + " is linked to " + to_string(m.count(j) ? m[j] - 1 : -1) + ", not a best choice"; return ""; }
static string testline(Em& e, const pair<S, S>& pr, const string& l, double& tlp) {
  const Opt& o = e.o; const S& s = o.rev ? pr.second : pr.first; const S& f = o.rev ? pr.first : pr.second; vector<set<int>> b; double lam = 0.05 + s.size() * e.mult, lp = log(lam) * f.size() - lgamma(f.size() + 1.) - lam; for (size_t j = 0; j < f.size(); ++j) { auto p = e.joint(s, f, j); double sum = 0; for (double v : p) sum += v; lp += log(sum); b.push_back(Em::argmax(p, o.null)); } tlp += lp;
  string src, trg; for (auto& w : pr.first) src += (src.empty() ? "" : " ") + w; for (auto& w : pr.second) trg += (trg.empty() ? "" : " ") + w; string hd = src + " ||| " + trg + " |||"; if (l.compare(0, hd.size(), hd)) return "begins otherwise: " + l; size_t p = l.rfind(" ||| "); if (p == string::npos || p < hd.size()) return "no score in " + l; string al = l.substr(hd.size(), p - hd.size()); if (!rel(atof(l.c_str() + p + 5), lp, 2e-5)) return "score " + l.substr(p + 5) + " instead of " + to_string(lp); if (o.hide && !o.mult) return al.empty() ? "" : "links were to be hidden"; return linksok(al, b, o.rev); }
static void train1(vc::X& x, const Corpus& c, const string& os) {
  if (!x.take()) return; x.desc([=] { return "fast_align " + os + " on\n" + text(c); }); if (c.size() > 1) x.nontrivial(); Opt o = parse(os); S a = o.a; string in = x.dir + "/corpus"; put(in, text(c)); a.insert(a.begin(), {"-i", in}); if (o.par) { unlink((x.dir + "/par").c_str()); a.push_back("-p"); a.push_back(x.dir + "/par"); }
  Corpus ts = c; ts.push_back({{"b", "zz"}, {"x", "yy", "x"}}); ts.push_back({{"zz"}, {"yy"}}); if (o.test) { put(x.dir + "/test", text(ts)); a.push_back("-x"); a.push_back(x.dir + "/test"); }
  Out r = run(x, "VC_FAST_ALIGN", a, ""); if (!x.check(r.code == 0, "align-exit", [&] { return "exit " + to_string(r.code) + ", signal " + to_string(r.sig) + "\n" + r.err; })) return;
  Em e(o); e.train(c); x.state(vc::mix(vc::hdbl(e.rep[1].second), vc::hdbl(e.rep[(e.rep.size() > 9 ? 9 : 2)].second)));
  S el = lines(r.err); size_t k = 0; for (auto& l : el) { size_t p = l.find(e.rep[min(k, e.rep.size() - 1)].first); if (k < e.rep.size() && p != string::npos) { double v = atof(l.c_str() + p + e.rep[k].first.size()); if (!x.check(rel(v, e.rep[k].second, 2e-5), "report", [&] { return e.rep[k].first + " is " + to_string(v) + " instead of " + to_string(e.rep[k].second) + " (line " + to_string(k) + ")\n" + r.err; })) return; ++k; } } if (!x.check(k == e.rep.size(), "report-lines", [&] { return "the report lacks '" + e.rep[k].first + "'\n" + r.err; })) return;
  S ol = lines(r.out); size_t q = 0; if (!o.hide) for (auto& b : e.best) { string er = q < ol.size() ? linksok(ol[q], b, o.rev) : "missing"; if (!x.check(er.empty(), "links", [&] { return "links of sentence " + to_string(q) + " '" + ol[min(q, ol.size() - 1)] + "': " + er; })) return; ++q; }
  if (o.test) { double tlp = 0; for (auto& p : ts) { string er = q < ol.size() ? testline(e, p, ol[q], tlp) : "missing"; if (!x.check(er.empty(), "test-set", [&] { return "line " + to_string(q) + ": " + er; })) return; ++q; } size_t p = r.err.find("TOTAL LOG PROB "); x.check(p != string::npos && rel(atof(r.err.c_str() + p + 15), tlp, 2e-5), "test-total", [&] { return r.err.substr(p) + " instead of " + to_string(tlp); }); }
  x.check(q == ol.size(), "output-lines", [&] { return to_string(ol.size()) + " lines of output instead of " + to_string(q); });
  if (o.par) { map<pair<string, string>, double> got; for (auto& l : lines(get(x.dir + "/par"))) { istringstream i(l); string u, v, w; double p; string z; if (!(i >> u >> v >> w) || (i >> z) || got.count({u, v})) { x.fail("parameters-line", "parameter line " + l); return; } p = atof(w.c_str()); got[{u, v}] = p; }
    for (auto& s : e.t) { double m = -1; for (auto& f : s.second) m = max(m, f.second); for (auto& f : s.second) { bool v2 = false, v1 = false; auto it = e.vit.find({s.first, f.first}); if (!o.V && it != e.vit.end()) { v1 = true; v2 = it->second == 2; } double th = m * pow(10., o.beam); bool top = f.second >= m * (1 - 1e-12); bool must = f.second > th * (1 + 1e-7) || top || v2, may = must || v1 || f.second > th * (1 - 1e-7); auto g = got.find({s.first, f.first}); if (g == got.end()) { if (!x.check(!must, "parameters-missing", [&] { return s.first + " " + f.first + " with probability " + to_string(f.second) + " (most likely " + to_string(m) + ") is not written"; })) return; } else { if (!x.check(may, "parameters-extra", [&] { return s.first + " " + f.first + " with probability " + to_string(f.second) + " (most likely " + to_string(m) + ") is written"; })) return; if (!x.check(rel(exp(g->second), f.second, 1e-4), "parameters-value", [&] { return s.first + " " + f.first + " is written as " + to_string(g->second) + " instead of " + to_string(log(f.second)); })) return; got.erase(g); } } } x.check(got.empty(), "parameters-foreign", [&] { return "the parameters hold " + got.begin()->first.first + " " + got.begin()->first.second; });
    // forced alignment with what was written
    Opt fo = parse(os); fo.mult = 1.25; Em f(fo); f.tension = o.T; f.t.clear(); for (auto& l : lines(get(x.dir + "/par"))) { istringstream i(l); string u, v; double p; if (i >> u >> v >> p) f.t[u][v] = exp(p); } put(x.dir + "/test", text(ts)); S fa = o.a; fa.insert(fa.begin(), {"-i", x.dir + "/test", "-f", x.dir + "/par", "-m", "1.25"}); Out g = run(x, "VC_FAST_ALIGN", fa, ""); S gl = lines(g.out); double tlp = 0; if (!x.check(g.code == 0 && gl.size() == ts.size(), "force-lines", [&] { return "forced alignment: exit " + to_string(g.code) + ", " + to_string(gl.size()) + " lines for " + to_string(ts.size()); })) return; for (size_t i = 0; i < ts.size(); ++i) { string er = testline(f, ts[i], gl[i], tlp); if (!x.check(er.empty(), "force", [&] { return "forced alignment, line " + to_string(i) + ": " + er; })) return; } }
}
static void training(vc::X& x, bool th) {
  const S OP = {"", "-I 1", "-I 2 -r -N", "-d -I 3", "-d -o -I 4", "-d -o -v -I 5", "-v -a 0.1 -I 3", "-d -N -I 2 -T 0.5", "-d --prob_align_null 0.3 -r -o -I 3 -T 10", "-I 3 -t -1 -p", "-I 2 -t 0 -V -H -p", "-I 4 -d -t -10000 -p", "-I 3 -x", "-H -d -o -I 3 -r -x", "-V -I 3 -t -0.3 -p", "-H -N -I 3 -t -0.5 -p -x", "-d -T 0 -I 3", "-I 1 -p", "-d -o -I 6 -T 0.2 -p -r", "-v -I 5 -d -N -p -t -2"};
  vector<pair<S, S>> P; for (int m = 1; m <= 2; ++m) for (int n = 1; n <= 2; ++n) for (int a = 0; a < (1 << m); ++a) for (int b = 0; b < (1 << n); ++b) { S s, t; for (int i = 0; i < m; ++i) s.push_back(a >> i & 1 ? "b" : "a"); for (int i = 0; i < n; ++i) t.push_back(b >> i & 1 ? "y" : "x"); P.push_back({s, t}); }
  for (size_t i = 0; i < P.size(); ++i) for (auto& o : OP) train1(x, {P[i]}, o);
  int h = 0; for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P.size(); ++j) for (size_t k = 0; k < OP.size(); ++k) { ++h; if (!th && (j < i || (i * 7 + j * 3 + k) % 4)) continue; train1(x, {P[i], P[j]}, OP[k]); }
  // longer sentences with words of their own, then in reverse order and mixed
  int N = th ? 7 : 4; const char* SW[] = {"a", "b", "c", "d", "e", "f", "g"}; const char* TW[] = {"x", "y", "z", "w", "v", "u", "t"}; for (int m = 1; m <= N; ++m) for (int n = 1; n <= N; ++n) for (int v = 0; v < 3; ++v) for (auto& o : OP) { S s(SW, SW + m), t(TW, TW + n), s2, t2; for (int i = 0; i < m; i += 1 + v) s2.push_back(SW[(i * 2 + v) % m]); for (int i = n - 1; i >= 0; i -= 2) t2.push_back(TW[i]); Corpus c = {{s, t}, {s2, t2}}; if (v) c.push_back({{SW[m - 1], "b"}, {"x"}}); if (v == 2) reverse(c.begin(), c.end()); train1(x, c, o); }
  // refusals: a side without words
  for (auto& bad : {"||| x\n", "a |||\n", "a b\n", "\n", "|||\n"}) for (int at = 0; at < 3; ++at) { if (!x.take()) continue; string t; for (int i = 0; i < 3; ++i) t += i == at ? bad : "a ||| x\n"; x.desc([=] { return "corpus\n" + t; }); put(x.dir + "/corpus", t); Out r = run(x, "VC_FAST_ALIGN", {"-i", x.dir + "/corpus"}, ""); x.check(r.code > 0 && r.err.find("Error: " + to_string(at + 1)) != string::npos, "empty-side", [&] { return "exit " + to_string(r.code) + "\n" + r.err; }); }
}
