
static void put(const string& f, const string& t) { ofstream o(f.c_str(), ios::binary); o << t; }
typedef int (*Main)(int, char**);
// run a program in a child: its standard output
static string prog(Main m, vector<string> a, const string& in, const string& dir) {
  put(dir + "/in", in); fflush(stdout); cout.flush(); pid_t p = fork();
  if (!p) { int i = open((dir + "/in").c_str(), O_RDONLY), o = open((dir + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), n = open("/dev/null", O_WRONLY); dup2(i, 0); dup2(o, 1); dup2(n, 2); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(0); int r = m(a.size(), v.data()); cout.flush(); fflush(stdout); _exit(r); }
  int st; while (waitpid(p, &st, 0) < 0) {} if (!WIFEXITED(st)) return "<killed by signal " + to_string(WTERMSIG(st)) + ">"; if (WEXITSTATUS(st)) return "<exit " + to_string(WEXITSTATUS(st)) + ">"; ifstream f((dir + "/out").c_str()); return string(istreambuf_iterator<char>(f), istreambuf_iterator<char>()); }
static S words(const string& t) { istringstream i(t); S v; string s; while (i >> s) v.push_back(s); return v; }
static R refline(const string& l) { R r(1); if (words(l).empty()) return R(); for (auto& w : words(l)) if (w == "|||") r.push_back(S()); else r.back().push_back(w); return r; }
static void files(vc::X& x, bool th) {
  vector<string> ln = {"", "a bb |||", "a ||| bb a", "bb a bb \xc3\xa7 a"}; const R H = {{"a", "bb"}, {"bb", "a", "bb", "\xc3\xa7", "a"}, {}}; const char* ME[] = {"IBM_BLEU", "NIST_BLEU", "TER", "WER", "CER"};
  for (int nf = 1; nf <= 2; ++nf) for (int n = 1; n <= (th && nf == 1 ? 3 : 2); ++n) { int tot = 1; for (int i = 0; i < nf * n; ++i) tot *= ln.size(); for (int c = 0; c < tot; ++c) for (int nl = 0; nl < (1 << nf); ++nl) { if (!x.take()) continue;
        vector<string> txt(nf), fn; vector<R> want(n); int q = c; bool bad = false; for (int f = 0; f < nf; ++f) { string last; for (int i = 0; i < n; ++i) { last = ln[q % ln.size()]; q /= ln.size(); txt[f] += last; if (i + 1 < n || !(nl >> f & 1)) txt[f] += "\n"; for (auto& s : refline(last)) want[i].push_back(s); } if ((nl >> f & 1) && last.empty()) bad = true; fn.push_back(x.dir + "/ref" + to_string(f)); put(fn[f], txt[f]); } for (auto& r : want) if (r.empty()) r.resize(1);
        x.desc([=] { string o; for (auto& t : txt) o += "reference file:\n" + t + "<end>\n"; return o; }); if (bad) continue; if (nl) x.nontrivial();
        for (auto* me : ME) { DocumentScorer ds(inst(me), fn); x.step(); if (!x.check(ds.size() == n, "files-size", [&] { return to_string(ds.size()) + " sentences were read"; })) break; SufficientStats sum; for (int i = 0; i < n; ++i) for (auto& h : H) { SufficientStats a, b; ds[i]->Evaluate(ids(h), &a); inst(me)->CreateSegmentEvaluator(ids(want[i]))->Evaluate(ids(h), &b); x.check(a == b && a.id_ == b.id_, "files-stats", [&] { return string(me) + " for sentence " + to_string(i) + " and '" + js(h) + "': " + vc::str(fields(a)) + " instead of " + vc::str(fields(b)); }); }
          string hyp; for (int i = 0; i < n; ++i) { SufficientStats b; inst(me)->CreateSegmentEvaluator(ids(want[i]))->Evaluate(ids(H[i % 2]), &b); sum += b; hyp += js(H[i % 2]) + "\n"; }
          if (string(me) == "IBM_BLEU" || string(me) == "WER") { vector<string> a = {"fast_score", "-m", me}; for (auto& f : fn) { a.push_back("-r"); a.push_back(f); } string o = prog(fast_score_main, a, hyp, x.dir); ostringstream w; w << inst(me)->ComputeScore(sum) << "\n"; x.check(o == w.str(), "fast_score", [&] { return string(me) + " of\n" + hyp + "is printed as " + o + " instead of " + w.str(); }); } }
        { DocScorer od(IBM_BLEU, fn); x.check(od.size() == n, "files-old-size", [&] { return to_string(od.size()) + " sentences were read by the second implementation"; }); for (int i = 0; i < n && i < od.size(); ++i) for (auto& h : H) { string a, b; od[i]->ScoreCandidate(ids(h))->Encode(&a); SentenceScorer::CreateSentenceScorer(IBM_BLEU, ids(want[i]))->ScoreCandidate(ids(h))->Encode(&b); x.check(a == b, "files-old-stats", [&] { return "second implementation, sentence " + to_string(i) + ": " + a + " instead of " + b; }); } }
        if (nf == 1) { string t; for (int i = 0; i < n; ++i) t += "src " + to_string(i) + " ||| " + jr(want[i]) + "\n"; put(x.dir + "/comp", t); bool ok = true; for (auto& w : want) if (w[0].empty()) ok = false; if (ok) { DocumentScorer ds(inst("IBM_BLEU"), x.dir + "/comp"); x.check(ds.size() == n, "composite-size", "wrong number of sentences in the composite file"); for (int i = 0; i < n && i < ds.size(); ++i) { SufficientStats a, b; ds[i]->Evaluate(ids(H[1]), &a); inst("IBM_BLEU")->CreateSegmentEvaluator(ids(want[i]))->Evaluate(ids(H[1]), &b); x.check(a == b && ds[i]->src == "src " + to_string(i), "composite", [&] { return "composite file:\n" + t + "sentence " + to_string(i); }); } } } } }
}
// minimum-risk choice from k-best lists
static double risk1(const string& m, const S& ref, const S& hyp) { SufficientStats s; inst(m)->CreateSegmentEvaluator(ids(R{ref}))->Evaluate(ids(hyp), &s); double v = stat(s, m); return m == "TER" || m == "WER" || m == "CER" ? v : 1 - v; }
struct Kb { string id; vector<pair<S, double>> l; };
static void mbr(vc::X& x, bool th) {
  const R P = {{"a"}, {"a", "bb"}, {"bb", "a", "a", "bb", "\xc3\xa7"}, {}}; const double SC[] = {-1, -1.25, -2.5};
  // every sequence of lists given by sizes; entries enumerated
  const vector<vector<int>> SZ = th ? vector<vector<int>>{{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {1, 1, 1}, {1, 2, 1}, {2, 2}} : vector<vector<int>>{{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {1, 1, 1}};
  for (auto& sz : SZ) { int n = 0; for (int s : sz) n += s; int tot = 1; for (int i = 0; i < n; ++i) tot *= 4; for (int c = 0; c < tot; ++c) for (int m = 0; m < 3; ++m) for (int mode = 0; mode < 4; ++mode) { string me = m == 0 ? "IBM_BLEU" : m == 1 ? "TER" : "WER"; bool list = mode & 1, two = mode & 2; bool em = false; int q = c; for (int i = 0; i < n; ++i, q /= 4) em |= q % 4 == 3; if (m && em) continue; if (!x.take()) continue;
        vector<Kb> k; q = c; int nth = 0; string t[2]; for (size_t i = 0; i < sz.size(); ++i) { k.push_back({to_string(i + 7), {}}); for (int j = 0; j < sz[i]; ++j, q /= 4, ++nth) { int f = two && j == 1; double raw = SC[(c + nth * nth) % 3]; k.back().l.push_back({P[q % 4], f ? raw * 0.5 - 0.25 : raw}); ostringstream o; o << i + 7 << " ||| " << js(P[q % 4]) << " ||| F=1 ||| " << raw << "\n"; t[f] += o.str(); } }
        x.desc([=] { return me + (list ? " ranked lists\n" : "\n") + t[0] + (two ? "second file, scaled by 0.5 and shifted by -0.25:\n" + t[1] : ""); }); if (k[0].l.size() > 1) x.nontrivial(); x.step();
        put(x.dir + "/kb", t[0]); put(x.dir + "/kb2", t[1]); vector<string> a = {"mbr_kbest", "-m", me, "-i", x.dir + "/kb"}; if (two) for (auto& s : vector<string>{"-i", x.dir + "/kb2", "-a", "1", "-a", "0.5", "-b", "0", "-b", "-0.25"}) a.push_back(s); if (list) a.push_back("-L"); string out = prog(mbr_kbest_main, a, "", x.dir); istringstream o(out); string l; string er;
        for (auto& e : k) { double z = 0, mx = -1e9; for (auto& p : e.l) mx = max(mx, p.second); for (auto& p : e.l) z += exp(p.second - mx); vector<double> rk; double best = 1e18; for (size_t i = 0; i < e.l.size(); ++i) { double r = 0; for (size_t j = 0; j < e.l.size(); ++j) if (i != j) r += risk1(me, e.l[i].first, e.l[j].first) * exp(e.l[j].second - mx) / z; rk.push_back(r); best = min(best, r); }
          if (!list) { if (!getline(o, l)) { er = "no output for sentence " + e.id; break; } bool ok = false; for (size_t i = 0; i < rk.size(); ++i) if (js(e.l[i].first) == l && rk[i] <= best + 1e-5) ok = true; if (!ok) { er = "sentence " + e.id + ": chose '" + l + "', risks " + vc::str(rk); break; } }
          else { vector<bool> used(rk.size()); double prev = -1e18; for (size_t i = 0; i < rk.size() && er.empty(); ++i) { if (!getline(o, l)) { er = "line missing for sentence " + e.id; break; } size_t p1 = l.find(" ||| "), p2 = l.rfind(" ||| "); string id = l.substr(0, p1), h = p2 > p1 ? l.substr(p1 + 5, p2 - p1 - 5) : "?"; double v = atof(l.substr(p2 + 5).c_str()); bool ok = false; for (size_t j = 0; j < rk.size() && !ok; ++j) if (!used[j] && js(e.l[j].first) == h && fabs(rk[j] - v) < 1e-4 * max(1., fabs(v))) used[j] = ok = true; if (!ok || id != e.id || v < prev - 1e-4) er = "sentence " + e.id + ": printed '" + l + "', risks " + vc::str(rk); prev = v; } if (!er.empty()) break; } }
        if (er.empty() && getline(o, l)) er = "extra output " + l; x.check(er.empty(), "mbr", [&] { return er + "\noutput:\n" + out; }); } }
}
