// C20: language model queries against the definition applied to the ARPA file, in every representation.
#include "compat.h"
#include "vc.h"
#include "kenlm.h"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <memory>
using namespace std;
using namespace lm::ngram;
// ---- the system calls that touch a watched file: snapshots before each one, failures, short writes
static string watch; static vector<string>* snaps = nullptr; static int calls = 0, fail_at = -1, short_at = -1;
static string slurp(const string& f) { ifstream i(f.c_str(), ios::binary); stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& s) { ofstream o(f.c_str(), ios::binary); o << s; }
static bool mine(int fd) { if (watch.empty()) return false; struct stat a, b; if (syscall(SYS_fstat, fd, &a) || stat(watch.c_str(), &b)) return false; return a.st_ino == b.st_ino && a.st_dev == b.st_dev; }
static bool event() { int c = calls++; if (snaps) { string w = watch; watch.clear(); snaps->push_back(slurp(w)); watch = w; } return c == fail_at; }
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { if (mine(fd)) { int c = calls; if (event()) { errno = ENOSPC; return -1; } if (c == short_at && n > 1) n /= 2; } return syscall(SYS_write, fd, b, n); }
int ftruncate(int fd, off_t n) { if (mine(fd) && event()) { errno = ENOSPC; return -1; } return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) { if (mine(fd) && event()) { errno = EIO; return -1; } return syscall(SYS_fsync, fd); }
int msync(void* a, size_t n, int f) { if (!watch.empty() && snaps) { event(); } return syscall(SYS_msync, a, n, f); }
}
static vc::X* X_; static string F_, B_;
static double maxerr(double v) { return 2e-5 * max(1.0, fabs(v)); }
// ---- every query sequence against the reference
// the reference as a table: contexts of up to order-1 words from a small alphabet
static const vector<string>& SYM() { static vector<string> a = {"a", "b", "<unk>", "</s>", "<s>"}; return a; }
static int sym(const string& w) { for (int i = 0; i < 5; ++i) if (SYM()[i] == w) return i; abort(); }
struct Table { const Arpa& cl; const Arpa& real; int n; struct E { float p; unsigned char len, rl, done; }; vector<E> e;
  Table(const Arpa& c, const Arpa& r) : cl(c), real(r), n(c.order - 1) { size_t k = 1; for (int i = 0; i <= n; ++i) k *= 6; e.assign(k, E{0, 0, 0, 0}); }
  // h: symbols, oldest first
  const E& at(const vector<int>& h, int w) { size_t k = w; int m = 0; for (size_t i = h.size(); i-- > 0 && m < n; ++m) k = k * 6 + h[i]; for (; m < n; ++m) k = k * 6 + 5; E& x = e[k]; if (!x.done) { G g; for (size_t i = h.size() > (size_t)n ? h.size() - n : 0; i < h.size(); ++i) g.push_back(SYM()[h[i]]); int a, b; x.p = cl.score(g, SYM()[w], &a); real.score(g, SYM()[w], &b); x.len = max(a, 1); x.rl = max(b, 1); x.done = 1; } return x; } };
template <class M> struct Walk {
  vc::X& x; const M& m; const Arpa& r; Table& tb; int depth; const vector<string>& al; string what; bool bad = false;
  vector<lm::WordIndex> id; vector<int> ws; uint64_t n = 0;
  void run(bool begin) { typename M::State s = begin ? m.BeginSentenceState() : m.NullContextState(); vector<int> h; rev_[16] = m.GetVocabulary().BeginSentence(); if (begin) h.push_back(4); rec(s, h, begin ? 16 : 17, depth); }
  lm::WordIndex rev_[17];
  string seq(const vector<int>& h, const string& w) { string o; for (int z : h) o += SYM()[z] + " "; return o + "| " + w; }
  void rec(const typename M::State& s, vector<int>& h, int at, int d) {
    if (bad || !d) return;
    for (size_t i = 0; i < al.size() && !bad; ++i) {
      typename M::State o, o2, o3; lm::FullScoreReturn f = m.FullScore(s, id[i], o), g = m.FullScoreForgotState(rev_ + at, rev_ + 17, id[i], o2); ++n;
      auto& want = tb.at(h, ws[i]); rev_[at - 1] = id[i]; const lm::WordIndex* rev = rev_ + at - 1; m.GetState(rev, rev_ + 17, o3);
      const char* e = nullptr; if (!(fabs(f.prob - want.p) <= maxerr(want.p))) e = "log probability"; else if (!(fabs(g.prob - want.p) <= maxerr(want.p))) e = "log probability without a state";
      else if (f.ngram_length < want.rl || f.ngram_length > want.len) e = "matched length"; else if (g.ngram_length != f.ngram_length) e = "matched length without a state differs";
      else if (!(o == o2)) e = "the state after a query without a state differs"; else if (!(o == o3)) e = "GetState differs";
      else for (int k = 0; k < o.length; ++k) if (o.words[k] != rev[k] || o.backoff[k] != o2.backoff[k] || o.backoff[k] != o3.backoff[k]) e = "the contents of the states differ";
      if (e) { bad = true; x.fail("query", what + ", " + seq(h, al[i]) + ": " + e + ": " + to_string(f.prob) + " / " + to_string(g.prob) + " (length " + to_string(f.ngram_length) + "/" + to_string(g.ngram_length) + ", states " + to_string(o.length) + "/" + to_string(o2.length) + "/" + to_string(o3.length) + ") instead of " + to_string(want.p) + " (length " + to_string(want.rl) + "-" + to_string(want.len) + ")"); return; }
      h.push_back(ws[i]); rec(o, h, at - 1, d - 1); h.pop_back();
    } }
};
template <class M> static bool verify(vc::X& x, const M& m, const Arpa& ref, const Arpa& orig, const Words* words, int depth, const string& what, const vector<string>& al) {
  x.step(); const auto& v = m.GetVocabulary(); string e;
  if (m.Order() != orig.order) e = "order " + to_string(m.Order());
  size_t nw = 0; for (auto& kv : orig.t) nw += kv.first.size() == 1; bool hasunk = orig.has({"<unk>"}); if (v.NotFound() != 0 || v.Index("zz") != 0 || v.Index("<unk>") != 0) e = "unknown words do not get index 0"; if (v.Bound() != nw + !hasunk) e = "vocabulary bound " + to_string(v.Bound());
  set<lm::WordIndex> ids; for (auto& kv : orig.t) if (kv.first.size() == 1 && kv.first[0] != "<unk>") { auto i = v.Index(kv.first[0]); if (!i || i >= v.Bound() || !ids.insert(i).second) e = "word " + kv.first[0] + " has index " + to_string(i); }
  if (v.BeginSentence() != v.Index("<s>") || v.EndSentence() != v.Index("</s>")) e = "sentence markers";
  if (words) { if (words->bad || words->w.size() != v.Bound()) e = "enumerates " + to_string(words->w.size()) + " words"; else for (size_t i = 0; i < words->w.size(); ++i) if ((i == 0) != (words->w[i] == "<unk>") || v.Index(words->w[i]) != i) e = "enumerates " + words->w[i] + " as " + to_string(i); }
  if (m.StateSize() != sizeof(typename M::State) || memcmp(m.BeginSentenceMemory(), &m.BeginSentenceState(), m.StateSize())) e = "state memory";
  if (!x.check(e.empty(), "vocabulary", [&] { return what + ": " + e; })) return false;
  static unique_ptr<Arpa> cl, own; static unique_ptr<Table> tb; if (!tb || !(own->t == orig.t) || !(tb->cl.t == ref.t) || tb->cl.order != ref.order || tb->cl.unk_missing != ref.unk_missing) { tb.reset(); own.reset(new Arpa(orig)); cl.reset(new Arpa(ref)); tb.reset(new Table(*cl, *own)); }
  Walk<M> w{x, m, ref, *tb, depth, al, what}; for (auto& z : al) { w.id.push_back(v.Index(z)); w.ws.push_back(sym(ref.map(z))); } w.run(true); w.run(false); x.stat("queries", w.n);
  return !w.bad;
}
static const vector<string>& AL() { static vector<string> a = {"a", "b", "zz", "</s>", "<s>"}; return a; }
static const vector<string>& AL3() { static vector<string> a = {"a", "b", "zz"}; return a; }
struct Load { vc::X& x; int rep; string file; Config c; const Arpa* m; Arpa ref; int depth; string what; string result; bool enumerate = false; const vector<string>* al = &AL();
  template <class M> void go() { Words w; if (enumerate) c.enumerate_vocab = &w; result.clear(); try { M model(file.c_str(), c); result = verify(x, model, ref, *m, enumerate ? &w : nullptr, depth, what, *al) ? "ok" : "wrong"; }
    catch (util::ProbingSizeException& e) { result = string("size: ") + e.what(); } catch (lm::SpecialWordMissingException& e) { result = string("special: ") + e.what(); } catch (exception& e) { result = string("exception: ") + e.what(); } }
  string run() { dispatch(rep, [this](auto t) { this->template go<typename decltype(t)::T>(); }); return result; } };
static Arpa reference(const Arpa& m, int rep, const Config& c, bool& usable) { usable = true; static Arpa in, out; if (!(in.t == m.t) || in.unk_missing != m.unk_missing || in.order != m.order) { in = m; out = closure(m); } if (rep != QTRIE && rep != QATRIE) return out; Arpa q; usable = quantised(m, c.prob_bits, c.backoff_bits, q); return q; }
static void load_ok(vc::X& x, const Arpa& m, int rep, const string& file, Config c, int depth, const string& what, bool en = true, const vector<string>* al = nullptr) {
  bool usable; Load l{x, rep, file, c, &m, reference(m, rep, c, usable), depth, string(REPN[rep]) + ", " + what}; l.enumerate = en; if (al) l.al = al; if (!usable) { x.stat("ambiguous quantisation"); return; } string r = l.run();
  if (r.compare(0, 5, "size:") == 0 && rep <= REST && need_blanks(m) && c.probing_multiplier < 5) { x.stat("refused: not enough space for pruned suffixes"); return; }
  x.check(r == "ok" || r == "wrong", "load", [&] { return l.what + ": " + r; }); }
static void refused(vc::X& x, const Arpa& m, int rep, const string& file, Config c, const string& what, const char* kind = "exception") { bool u; Load l{x, rep, file, c, &m, reference(m, PROB, c, u), 2, string(REPN[rep]) + ", " + what}; string r = l.run(); x.check(r.compare(0, strlen(kind), kind) == 0, "accepts-bad-file", [&] { return l.what + ": " + (r.empty() ? "loads" : r); }); x.step(); }
static vector<unsigned> masks(bool th) { vector<unsigned> v;
  for (unsigned b = 0; b < 256; ++b) v.push_back(b | 0xffffff00u);                                      // every set of bigrams with everything that fits on top
  vector<unsigned> bs = {0xff, 0x0e, 0x3f, 0x0b}; if (th) for (unsigned b : {0xe7, 0x07, 0x7e, 0x6f, 0x1b, 0x0f, 0x2a}) bs.push_back(b); for (unsigned b : bs) for (unsigned t = 1; t < 128; ++t) v.push_back(b | t << 8);   // trigrams
  for (unsigned b : th ? vector<unsigned>{0xff, 0x0f, 0x0b, 0x0e, 0xdf, 0x07, 0x6f, 0x2a} : vector<unsigned>{0xff, 0x0b, 0x0e}) for (unsigned t : th ? vector<unsigned>{0x7f, 0x0f, 0x0b, 0x0e, 0x1b, 0x06, 0x39, 0x0d, 0x29} : vector<unsigned>{0x7f, 0x0b, 0x0e}) for (unsigned f = 1; f < 32; ++f) for (unsigned g = 0; g < (th ? 8u : 8u); g += th ? 1 : 7) for (unsigned s = 0; s < 4; s += 3) v.push_back(b | t << 8 | f << 15 | g << 20 | s << 23);
  return v; }
static Arpa trim(unsigned mask, bool unk, bool zero, int order, int seed) { for (; order >= 2; --order) { Arpa m = from_mask(mask, unk, zero, order, seed); if (all_orders(m)) return m; } return Arpa(); }
static void base(vc::X& x) {
  set<string> seen; int seed = 0; for (unsigned mask : masks(x.thorough)) for (int v = 0; v < 4; ++v) { Arpa m = trim(mask, v & 1, v & 2, 6, seed++ % 5); if (m.order < 2 || !seen.insert(m.brief()).second) continue; if (!x.take()) continue;
      x.desc([m] { return m.brief(); }); if (m.order > 2) x.nontrivial(); x.state(vc::hstr(m.brief())); m.write(F_); int d = x.thorough ? 5 : m.order <= 3 ? 4 : m.order < 6 ? 4 : 5; Config c = quiet(); c.probing_multiplier = need_blanks(m) ? 8 : 1.5;
      for (int rep = 0; rep < NREP; ++rep) { Config k = c; if (rep == ATRIE || rep == QATRIE) k.pointer_bhiksha_bits = (seed + rep) % 4 * (seed & 1 ? 1 : 7); load_ok(x, m, rep, F_, k, rep == PROB || rep == TRIE_ ? d : d - 1, "loaded from the text file", true, d > 4 && !x.thorough ? &AL3() : nullptr); }
      if (c.probing_multiplier > 5) for (int rep : {PROB, REST}) { Config k = c; k.probing_multiplier = 1.5; load_ok(x, m, rep, F_, k, 3, "probing multiplier 1.5"); } } }
// ---- the same model through every configuration
static vector<Arpa> chosen(bool th) { vector<Arpa> v; int s = 0; for (unsigned mk : {0x1ffffffu, 0xffu, 0x7fffu, 0x0ffffu | 0x1f0000u, 0xfu | 0xbu << 8 | 0x1fu << 15 | 7u << 20, 0x0eu | 0x0cu << 8 | 0x4u << 15 | 4u << 20, 0x3fu | 0x1fu << 8, 0x0bu | 0x03u << 8 | 0x1u << 15}) for (int q = 0; q < 4; ++q) { if (!th && (q + s) % 2) { ++s; continue; } Arpa m = trim(mk, q & 1, q & 2, 6, s++ % 5); if (m.order >= 2) v.push_back(m); } return v; }
static Config var(Config c, int pb, int bb, int ab, double pm) { c.prob_bits = pb; c.backoff_bits = bb; c.pointer_bhiksha_bits = ab; c.probing_multiplier = pm; return c; }
static string listing(const string& dir) { set<string> s; DIR* d = opendir(dir.c_str()); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(d); string o; for (auto& z : s) o += z + " "; return o; }
static void configs(vc::X& x) {
  auto ms = chosen(x.thorough); for (size_t mi = 0; mi < ms.size(); ++mi) for (int rep = 0; rep < NREP; ++rep) { const Arpa& m = ms[mi]; vector<Config> cs; bool bl = need_blanks(m); bool q = rep == QTRIE || rep == QATRIE, a = rep == ATRIE || rep == QATRIE;
      if (rep <= REST) for (double p : {1.05, 1.5, 2.0, 8.0}) cs.push_back(var(quiet(), 8, 8, 22, p)); else for (int pb : q ? vector<int>{1, 2, 3, 8, 20} : vector<int>{8}) for (int bb : q ? vector<int>{1, 2, 3, 8} : vector<int>{8}) { if (pb == 20 && bb != 8) continue; if (pb == 20 && !(mi == 0 && !x.thorough)) if (!x.thorough || mi > 1) continue; for (int ab : a ? vector<int>{0, 1, 2, 3, 8, 22, 64} : vector<int>{22}) { if (pb == 20 && ab != 22) continue; cs.push_back(var(quiet(), pb, bb, ab, 1.5)); } }
      for (size_t ci = 0; ci < cs.size(); ++ci) { if (!x.take()) continue; Config c = cs[ci]; x.desc([=] { return string(REPN[rep]) + " of " + m.brief() + ": " + to_string(c.prob_bits) + " bit probabilities, " + to_string(c.backoff_bits) + " bit back-offs, " + to_string(c.pointer_bhiksha_bits) + " bit offsets, multiplier " + to_string(c.probing_multiplier); }); x.nontrivial(); x.state(vc::mix(vc::hstr(m.brief()), ci * 8 + rep)); m.write(F_);
        bool bigq = c.prob_bits == 20, usable; reference(m, rep, c, usable); if (!usable) { x.stat("ambiguous quantisation"); continue; }
        if (rep >= TRIE_ && q && c.backoff_bits == 1) { bool nz = false; for (auto& kv : m.t) if (kv.first.size() > 1 && kv.second.second != 0) nz = true; if (nz) { Load l{x, rep, F_, c, &m, closure(m), 1, ""}; string r = l.run(); x.check(r.compare(0, 9, "exception") == 0, "one-bit-back-offs", [&] { return "a single bit cannot hold any back-off value, loading gives " + r; }); continue; } }
        load_ok(x, m, rep, F_, c, 3, "in memory", true);
        for (int wm = 0; wm < 2; ++wm) for (int vocab = 0; vocab < 2; ++vocab) { if (bigq && wm + vocab) continue; Config k = c; k.write_mmap = B_.c_str(); k.write_method = wm ? Config::WRITE_AFTER : Config::WRITE_MMAP; k.include_vocab = vocab; string s = string(wm ? "written afterwards" : "written by mapping") + (vocab ? " with words" : " without words"); unlink(B_.c_str());
            load_ok(x, m, rep, F_, k, 3, "while " + s, vocab); if (rep <= REST && access(B_.c_str(), F_OK)) continue; ModelType t; bool known = false; try { known = RecognizeBinary(B_.c_str(), t); } catch (exception& e) { if (bl && rep <= REST) continue; x.fail("load", s + ": not recognised: " + e.what()); continue; } if (!known && bl && rep <= REST) continue; x.check(known && t == rep, "recognise", s + ": not recognised as what was written");
            int lm_n = 0; for (util::LoadMethod lmth : {util::LAZY, util::POPULATE_OR_LAZY, util::POPULATE_OR_READ, util::READ, util::PARALLEL_READ}) { Config r = quiet(); r.load_method = lmth; if (bigq && lmth != util::LAZY) continue; Load l{x, rep, B_, r, &m, reference(m, rep, c, usable), lm_n++ ? 2 : 3, string(REPN[rep]) + ", " + s + ", then loaded by method " + to_string((int)lmth)}; l.enumerate = vocab; if (!usable) continue; string g = l.run(); x.check(g == "ok" || g == "wrong", "load", [&] { return l.what + ": " + g; }); }
            { Config r = quiet(); if (!vocab) refused(x, m, rep, B_, [&] { static Words w; Config z = r; z.enumerate_vocab = &w; return z; }(), s + ", words asked for"); for (int o = 0; o < NREP; ++o) if (o != rep) refused(x, m, o, B_, r, s + string(" as ") + REPN[rep]); }
            // through the virtual interface
            if (usable) { unique_ptr<lm::base::Model> v(lm::ngram::LoadVirtual(B_.c_str(), quiet(), PROBING)); Arpa cl = reference(m, rep, c, usable); string st(v->StateSize(), 0), o(v->StateSize(), 0); v->BeginSentenceWrite(&st[0]); vector<string> h = {"<s>"}; vector<lm::WordIndex> rev = {v->BaseVocabulary().BeginSentence()}; double tot = 0; for (const char* w : {"a", "b", "a", "zz", "b", "b", "</s>"}) { double want = cl.score(h, m.map(w)); auto id = v->BaseVocabulary().Index(string(w)); double g_1 = v->BaseScore(&st[0], id, &o[0]); double g_2 = v->BaseFullScore(&st[0], id, &o[0]).prob; string o2(v->StateSize(), 0); double g3 = v->BaseFullScoreForgotState(rev.data(), rev.data() + rev.size(), id, &o2[0]).prob; for (double gg : vector<double>{g_1, g_2, g3}) x.check(fabs(gg - want) <= maxerr(want), "virtual", [&] { return s + ": " + w + " scores " + to_string(gg) + " instead of " + to_string(want); }); tot += g_1; h.push_back(m.map(w)); rev.insert(rev.begin(), id); st = o; } }
          }
        unlink(B_.c_str()); string ls = listing(x.dir); x.check(ls == "m.arpa ", "temporary-files", "left behind: " + ls); } } }
// ---- the text: order of lines, spelling, special words, options, compression, faults
static string render(const Arpa& m, int perm, int style) { ostringstream o; o.precision(9); if (style & 1) o << "# a comment\n\n   \n"; o << "\\data\\\n"; for (int n = 1; n <= m.order; ++n) { int c = 0; for (auto& kv : m.t) c += (int)kv.first.size() == n; o << "ngram " << n << '=' << c << '\n'; }
  for (int n = 1; n <= m.order; ++n) { o << "\n"; if (style & 1) o << "\n"; o << "\\" << n << "-grams:\n"; vector<pair<G, pair<double, double>>> l; for (auto& kv : m.t) if ((int)kv.first.size() == n) l.push_back(kv); if (perm & 1) reverse(l.begin(), l.end()); if (perm & 2) rotate(l.begin(), l.begin() + l.size() / 2, l.end()); if (perm & 4) for (size_t i = 0; i + 1 < l.size(); i += 2) swap(l[i], l[i + 1]);
    for (auto& kv : l) { if (style & 2) o << scientific << kv.second.first << defaultfloat; else o << kv.second.first; o << '\t'; for (size_t i = 0; i < kv.first.size(); ++i) o << (i ? style & 4 ? "\t" : " " : "") << (style & 8 && kv.first[i] == "<unk>" ? "<UNK>" : kv.first[i]); double b = kv.second.second; if (b != 0) { o << '\t'; if (style & 2) o << scientific << b << defaultfloat; else o << b; } else if (style & 16 && n < m.order) o << '\t' << (kv.first.size() % 2 ? "-0" : "0.0"); o << '\n'; } }
  o << "\n\\end\\\n"; if (style & 1) o << "\n \n"; return o.str(); }
static string gz(const string& s) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); string o(s.size() + s.size() / 100 + 200, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
static string bz(const string& s) { unsigned n = s.size() + s.size() / 50 + 700; string o(n, 0); BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)s.data(), s.size(), 1, 0, 0); o.resize(n); return o; }
static string xz(const string& s) { size_t n = 0; string o(s.size() + s.size() / 10 + 500, 0); lzma_easy_buffer_encode(1, LZMA_CHECK_CRC32, nullptr, (uint8_t*)s.data(), s.size(), (uint8_t*)&o[0], &n, o.size()); o.resize(n); return o; }
static void texts(vc::X& x) {
  auto ms = chosen(x.thorough);
  for (size_t mi = 0; mi < ms.size(); ++mi) { const Arpa& m = ms[mi]; Config c = quiet(); c.probing_multiplier = need_blanks(m) ? 8 : 1.5;
    for (int perm = 0; perm < 8; ++perm) for (int style : {0, 1, 2, 4, 8, 16, 31}) { if (!x.take()) continue; x.desc([=] { return "order of lines " + to_string(perm) + ", style " + to_string(style) + ": " + m.brief(); }); x.nontrivial(); spit(F_, render(m, perm, style)); for (int rep = 0; rep < NREP; ++rep) load_ok(x, m, rep, F_, c, 3, "rewritten text", true); }
    for (int comp = 0; comp < 4; ++comp) for (int rep = 0; rep < NREP; ++rep) { if (!x.take()) continue; x.desc([=] { return "compressed by " + to_string(comp) + ": " + m.brief(); }); x.nontrivial(); string t = m.text(); spit(F_, comp == 0 ? gz(t) : comp == 1 ? bz(t) : comp == 2 ? xz(t) : gz(t.substr(0, 40)) + gz(t.substr(40))); load_ok(x, m, rep, F_, c, 3, "compressed text"); }
    for (int rep = 0; rep < NREP; ++rep) { if (!x.take()) continue; x.desc([=] { return "options of the " + string(REPN[rep]) + ": " + m.brief(); }); x.nontrivial(); Config k;
        k = c; k.unknown_missing = lm::THROW_UP; m.write(F_); if (m.has({"<unk>"})) load_ok(x, m, rep, F_, k, 2, "unknown word present"); else refused(x, m, rep, F_, k, "unknown word missing", "special");
        ostringstream msg; k = c; k.messages = &msg; k.unknown_missing = lm::COMPLAIN; load_ok(x, m, rep, F_, k, 2, "complaining"); x.check((msg.str().find("missing <unk>") != string::npos) == !m.has({"<unk>"}), "complain", "said: " + msg.str());
        for (double up : {-100.0, -5.5, 0.0}) if (!m.has({"<unk>"})) { Arpa n = m; n.unk_missing = up; k = c; k.unknown_missing_logprob = up; m.write(F_); Load l{x, rep, F_, k, &n, closure(n), 3, "unknown words at " + to_string(up)}; bool u; l.ref = reference(n, rep, k, u); if (u) { string r = l.run(); x.check(r == "ok" || r == "wrong", "load", r); } }
        // sentence markers missing
        for (const char* mk : {"<s>", "</s>"}) { Arpa n; n.order = m.order; for (auto& kv : m.t) { bool has = false; for (auto& w : kv.first) has = has || w == mk; if (!has) n.t[kv.first] = kv.second; } if (!all_orders(n)) continue; n.write(F_); k = c; k.sentence_marker_missing = lm::THROW_UP; refused(x, n, rep, F_, k, string("without ") + mk, "special"); k.sentence_marker_missing = lm::SILENT;
          auto q = [&](auto tag) { typedef typename decltype(tag)::T M; try { M model(F_.c_str(), k); auto& v = model.GetVocabulary(); x.check((string(mk) == "<s>" ? v.BeginSentence() : v.EndSentence()) == 0, "marker", "the missing marker is not treated as unknown"); bool u; Arpa ref = reference(n, rep, k, u); const Arpa& cl = ref; if (!u) return; Table tb(cl, n); Walk<M> w{x, model, ref, tb, 3, AL(), string(REPN[rep]) + " without " + mk}; for (auto& z : AL()) { w.id.push_back(v.Index(z)); w.ws.push_back(sym(ref.map(z))); } w.run(false); } catch (exception& e) { x.fail("load", string("without ") + mk + ": " + e.what()); } }; dispatch(rep, q); }
        // positive log probabilities
        for (int ord = 1; ord <= m.order; ++ord) { Arpa n = m, z = m; int done = 0; for (auto& kv : n.t) if ((int)kv.first.size() == ord && kv.first[0] != "<s>" && !done++) { kv.second.first = 0.25; z.t[kv.first].first = 0; } if (!done) continue; n.write(F_); k = c; k.positive_log_probability = lm::THROW_UP; refused(x, n, rep, F_, k, "positive log probability"); k.positive_log_probability = lm::SILENT; z.unk_missing = n.unk_missing; load_ok(x, z, rep, F_, k, 3, "positive log probability of a " + to_string(ord) + "-gram"); }
        k = c; k.probing_multiplier = 1.0; m.write(F_); refused(x, m, rep, F_, k, "multiplier 1"); if (rep == QTRIE || rep == QATRIE) for (int b : {0, 26}) { k = c; k.prob_bits = b; refused(x, m, rep, F_, k, "probability bits " + to_string(b)); k = c; k.backoff_bits = b; refused(x, m, rep, F_, k, "back-off bits " + to_string(b)); } }
  }
  // broken text
  for (size_t mi = 0; mi < ms.size(); mi += x.thorough ? 1 : 5) for (int rep = 0; rep < NREP; ++rep) { const Arpa& m = ms[mi]; Config c = quiet(); c.probing_multiplier = need_blanks(m) ? 8 : 1.5; c.prob_bits = c.backoff_bits = 2; string t = m.text(); vector<string> lines; { istringstream i(t); string l; while (getline(i, l)) lines.push_back(l); }
      for (size_t cut = 0; cut + 1 < t.size(); cut += x.thorough ? 1 : rep == PROB || rep == TRIE_ ? 1 : 7) { if (!x.take()) continue; x.desc([=] { return string(REPN[rep]) + ", the text is cut after byte " + to_string(cut) + ": " + m.brief(); }); x.nontrivial(); spit(F_, t.substr(0, cut)); refused(x, m, rep, F_, c, "cut after byte " + to_string(cut)); }
      for (size_t l = 0; l < lines.size(); ++l) for (int op = 0; op < 3; ++op) { if (!x.take()) continue; x.desc([=] { return string(REPN[rep]) + ", line " + to_string(l) + (op == 0 ? " left out: " : op == 1 ? " twice: " : " misspelt: ") + m.brief(); }); x.nontrivial(); string o; bool blank = lines[l].empty(); for (size_t i = 0; i < lines.size(); ++i) { if (i == l && op == 0) continue; string s = lines[i]; if (i == l && op == 2) { size_t p = s.rfind('\t'); if (s[0] == '-' && s.find('\t') != string::npos && s.find(' ') != string::npos) { size_t q = s.find(' '); s = s.substr(0, s.find('\t') + 1) + "qq" + s.substr(q); } else s = "x" + s; (void)p; } o += s + "\n"; if (i == l && op == 1) o += s + "\n"; } spit(F_, o);
          if (blank && op == 1) load_ok(x, m, rep, F_, c, 2, "a blank line twice"); else if (blank && op == 0 && l > 5u + m.order - 2 && lines[l + 1][0] == '\\') { if (l > (size_t)m.order + 1) load_ok(x, m, rep, F_, c, 2, "without a blank line"); } else refused(x, m, rep, F_, c, "line " + to_string(l)); }
      // a missing context
      for (auto& kv : m.t) { if ((int)kv.first.size() == m.order || kv.first.size() < 2) continue; bool ctx = false; for (auto& o : m.t) if (o.first.size() == kv.first.size() + 1 && equal(kv.first.begin(), kv.first.end(), o.first.begin())) ctx = true; if (!ctx) continue; G g = kv.first; if (!x.take()) continue; Arpa n = m; n.t.erase(g); x.desc([=] { return string(REPN[rep]) + ", a context is missing: " + n.brief(); }); n.write(F_); bool blank = closure(n).has(g); (void)blank; Load l{x, rep, F_, c, &n, closure(n), 3, "context missing"}; string r = l.run(); x.check(r.compare(0, 9, "exception") == 0 || r.compare(0, 5, "size:") == 0 || (blank && r == "ok"), "missing-context", [&] { return "loads a file in which a context is missing: " + r; }); }
      for (int ord : {1, 7}) { if (!x.take()) continue; x.desc([=] { return string("order ") + to_string(ord); }); Arpa n; if (ord == 1) { for (auto& kv : m.t) if (kv.first.size() == 1) n.add(kv.first, kv.second.first, 0); } else { n = from_mask(0x1ffffff, true, false, 6); n.add({"<s>", "a", "b", "a", "b", "b", "a"}, -1, 0); } n.write(F_); refused(x, n, rep, F_, c, "order " + to_string(ord)); } }
  // broken binary files; crashes and failures while one is written
  for (size_t mi = 0; mi < ms.size(); mi += x.thorough ? 1 : 3) for (int rep = 0; rep < NREP; ++rep) for (int wm = 0; wm < 2; ++wm) for (int vocab = 0; vocab < 2; ++vocab) { if (!x.take()) continue; const Arpa& m = ms[mi]; Config c = quiet(); c.probing_multiplier = need_blanks(m) ? 8 : 1.5; c.prob_bits = c.backoff_bits = 2; c.write_mmap = B_.c_str(); c.write_method = wm ? Config::WRITE_AFTER : Config::WRITE_MMAP; c.include_vocab = vocab; bool u; Arpa ref = reference(m, rep, c, u); if (!u) { c.prob_bits = c.backoff_bits = 6; ref = reference(m, rep, c, u); } if (!u) continue;
      x.desc([=] { return string(REPN[rep]) + (wm ? " written afterwards" : " written by mapping") + (vocab ? " with words: " : ": ") + m.brief(); }); x.nontrivial(); m.write(F_); spit(B_, string(x.shard % 2 ? 5000 : 0, 'Z')); vector<string> sn; snaps = &sn; calls = 0; fail_at = -1; watch = B_; { Load l{x, rep, F_, c, &m, ref, 1, "writing"}; string r = l.run(); x.check(r == "ok", "load", "writing: " + r); } watch.clear(); snaps = nullptr; int total = 0; { watch = B_; calls = 0; Load l{x, rep, F_, c, &m, ref, 1, "counting"}; l.run(); watch.clear(); total = calls; } string good = slurp(B_); Config r = quiet();
      for (size_t i = 0; i < sn.size(); ++i) { spit(B_, sn[i]); Load l{x, rep, B_, r, &m, ref, 2, "stopped before call " + to_string(i)}; l.enumerate = vocab; string g = l.run(); x.check(g == "ok" || g.compare(0, 9, "exception") == 0, "crash", [&] { return l.what + ": " + g; }); x.step(); }
      for (int f = 0; f < total; ++f) { unlink(B_.c_str()); spit(B_, ""); watch = B_; calls = 0; fail_at = f; Load l{x, rep, F_, c, &m, ref, 1, "failing"}; string g = l.run(); watch.clear(); fail_at = -1; x.check(g.compare(0, 9, "exception") == 0, "write-error", [&] { return "call " + to_string(f) + " of " + to_string(total) + " fails, but building gives " + g; }); Load l2{x, rep, B_, r, &m, ref, 2, "after failing at call " + to_string(f)}; l2.enumerate = vocab; g = l2.run(); x.check(g.compare(0, 9, "exception") == 0 || (f + 1 == total && g == "ok"), "crash", [&] { return l2.what + ": " + g; }); x.step(); }
      for (int f = 0; f < total; ++f) { spit(B_, ""); watch = B_; calls = 0; short_at = f; Load l{x, rep, F_, c, &m, ref, 1, "short"}; string g = l.run(); watch.clear(); short_at = -1; x.check(g == "ok" && slurp(B_) == good, "short-write", [&] { return "call " + to_string(f) + " writes less than asked for: " + g + (slurp(B_) == good ? "" : ", the file differs"); }); x.step(); }
      for (size_t cut = 0; cut < good.size(); cut += good.size() > 3000 && !x.thorough && cut > 300 ? 17 : 1) { spit(B_, good.substr(0, cut)); refused(x, m, rep, B_, [&] { static Words w; w = Words(); Config z = r; if (vocab) z.enumerate_vocab = &w; return z; }(), "binary file cut after byte " + to_string(cut) + " of " + to_string(good.size())); }
      unlink(B_.c_str()); }
}
// ---- models larger than one sorting buffer, and wide ones
static void large(vc::X& x) {
  for (int shape = 0; shape < 4; ++shape) for (int rep = 0; rep < NREP; ++rep) { if (rep == REST && shape) continue; if (!x.take()) continue; int V = shape == 0 ? 300 : shape == 1 ? 40 : shape == 2 ? 3000 : 90; Arpa m; auto w = [](int i) { return "w" + to_string(i); }; int k = 0; m.add({"<s>"}, -99, -0.3); m.add({"</s>"}, -2, 0); m.add({"<unk>"}, -3, 0); for (int i = 0; i < V; ++i) m.add({w(i)}, -1 - 0.001 * ((i * 7919) % 1009), -0.25 - 0.001 * (i * 31 % 97));
      if (shape == 0) { for (int i = 0; i < V; ++i) for (int j = 0; j < V; ++j) if ((i * 7 + j * 13) % 11) m.add({w(i), w(j)}, -0.5 - 0.0001 * (++k * 31 % 9973), 0); m.order = 2; }
      if (shape == 1) { for (int i = 0; i < V; ++i) for (int j = 0; j < V; ++j) m.add({w(i), w(j)}, -0.5 - 0.0001 * (++k * 31 % 9973), -0.1 - 0.001 * (k % 101)); for (int i = 0; i < V; ++i) for (int j = 0; j < V; ++j) for (int l = 0; l < V; ++l) if ((i + 2 * j + 3 * l) % 3) m.add({w(i), w(j), w(l)}, -0.4 - 0.0001 * (++k * 37 % 9941), 0); m.order = 3; }
      if (shape == 2) { for (int i = 0; i < V; ++i) m.add({w(i), w(i * 17 % V)}, -0.5 - 0.0001 * (++k * 31 % 9973), -0.2); for (int i = 0; i < V; ++i) if (m.has({w(i), w(i * 17 % V)})) m.add({w(i), w(i * 17 % V), w(i * 5 % V)}, -0.3 - 0.0001 * (++k * 31 % 9973), -0.15); for (int i = 0; i < V; ++i) m.add({w(i), w(i * 17 % V), w(i * 5 % V), w((i + 1) % V)}, -0.25, 0); m.order = 4; }
      if (shape == 3) { for (int i = 0; i < V; ++i) for (int j = 0; j < V; ++j) if ((i + j) % 2 || i % 10 == 0) m.add({w(i), w(j)}, -0.5 - 0.0001 * (++k * 31 % 9973), -0.1 - 0.001 * (k % 101)); for (int i = 0; i < V; ++i) for (int j = 0; j < V; ++j) for (int l = 0; l < V; l += 3) if (m.has({w(i), w(j)})) m.add({w(i), w(j), w(l)}, -0.4 - 0.0001 * (++k * 37 % 9941), 0); m.order = 3; }
      x.desc([=] { return string(REPN[rep]) + " of " + to_string(m.t.size()) + " n-grams over " + to_string(V) + " words, shape " + to_string(shape); }); x.nontrivial(); m.write(F_); Config c = quiet(); c.probing_multiplier = 3; if (rep == ATRIE || rep == QATRIE) c.pointer_bhiksha_bits = shape * 4; c.prob_bits = 16; c.backoff_bits = 16; bool save = shape == 1 || shape == 2; if (save) c.write_mmap = B_.c_str();
      string file = F_; auto q = [&](auto tag) { typedef typename decltype(tag)::T M; try { M model(file.c_str(), c); auto& v = model.GetVocabulary(); int bad = 0; uint64_t n = 0; auto one = [&](const G& g) { vector<lm::WordIndex> rev; G ctx(g.begin(), g.end() - 1); for (size_t i = ctx.size(); i-- > 0;) rev.push_back(v.Index(ctx[i])); typename M::State o, s, t; double want = m.score(ctx, m.map(g.back())); auto f = model.FullScoreForgotState(rev.data(), rev.data() + rev.size(), v.Index(g.back()), o); s = model.NullContextState(); double left = 0; for (auto& z : g) { left = model.FullScore(s, v.Index(z), t).prob; s = t; } ++n; double tol = rep == QTRIE || rep == QATRIE ? 2e-4 : maxerr(want); if ((fabs(f.prob - want) > tol || fabs(left - want) > tol) && !bad++) { string z; for (auto& q : g) z += q + " "; x.fail("query", z + "scores " + to_string(f.prob) + " and " + to_string(left) + " instead of " + to_string(want)); } };
              for (auto& kv : m.t) { one(kv.first); if (n % 7 == 0) { G g = kv.first; g.push_back("w1"); one(g); g.insert(g.begin(), "w2"); one(g); g = kv.first; g.back() = "w7"; one(g); } } x.stat("queries", n); x.step(n); } catch (exception& e) { x.fail("load", e.what()); } }; dispatch(rep, q); if (save) { file = B_; c = quiet(); dispatch(rep, q); unlink(B_.c_str()); } }
}
// ---- the programs
static string run_prog(const string& cmd) { string o; FILE* p = popen(cmd.c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) o.append(b, n); int r = pclose(p); return to_string(WIFEXITED(r) ? WEXITSTATUS(r) : 999) + "\n" + o; }
static void programs(vc::X& x) { const char* qb = getenv("VC_QUERY"); const char* bb = getenv("VC_BUILD"); if (!qb || !bb) return; auto ms = chosen(false);
  for (size_t mi = 0; mi < ms.size(); mi += 2) for (int b = 0; b < 9; ++b) for (int opt = 0; opt < 4; ++opt) { if (!x.take()) continue; const Arpa& m = ms[mi]; static const char* BO[] = {"", "probing -w mmap", "trie", "trie -w after", "trie -q 8", "trie -q 8 -b 7", "trie -a 3", "trie -a 64 -q 9", "probing -p 3"}; x.desc([=] { return string("build_binary ") + BO[b] + ", ngram_query with options " + to_string(opt) + ": " + m.brief(); }); x.nontrivial(); m.write(F_); string file = F_; string type, o; { istringstream i(BO[b]); string w; bool first = true; while (i >> w) { if (first) type = w; else o += " " + w; first = false; } }
      if (b) { string r = run_prog(string(bb) + o + " -u -100 -s -T " + x.dir + "/t " + (b == 1 && opt == 0 ? "" : type) + " " + F_ + " " + B_ + " 2>&1"); if (r[0] != '0') { if (need_blanks(m) && type == "probing") continue; x.fail("build_binary", r); continue; } file = B_; }
      vector<vector<string>> sents = {{"a", "b"}, {}, {"b", "b", "b", "b", "a"}, {"zz", "b"}, {"a", "zz", "b", "a", "b", "a"}}; string in; for (auto& s : sents) { for (size_t i = 0; i < s.size(); ++i) in += (i ? " " : "") + s[i]; in += "\n"; } spit(x.dir + "/in", in); bool ctx = !(opt & 1), words = !(opt & 2); static const char* LM[] = {"lazy", "populate", "read", "parallel"}; string r = run_prog(string(qb) + (ctx ? "" : " -n") + (words ? "" : " -s") + " -l " + LM[(b + opt) % 4] + " " + file + " < " + x.dir + "/in 2>/dev/null"); x.step();
      bool u = true; Config c = quiet(); c.prob_bits = b == 7 ? 9 : 8; c.backoff_bits = b == 5 ? 7 : b == 7 ? 9 : 8; Arpa ref = reference(m, b == 4 || b == 5 ? QTRIE : b == 7 ? QATRIE : PROB, c, u); if (!u) continue; const Arpa& cl = ref; istringstream i(r); string line; getline(i, line); string err; if (!b && line == "1" && need_blanks(m)) continue; if (line != "0") err = "exit " + line; double total = 0, oovp = 0; int toks = 0, oovs = 0;
      for (auto& s : sents) { if (!getline(i, line)) { err = "too few lines"; break; } double p = 0; int oov = 0; vector<string> h; if (ctx) h.push_back("<s>"); auto t = s; if (ctx) t.push_back("</s>"); for (auto& w : t) { string mw = m.map(w); int len, rl; double q = cl.score(h, mw, &len); m.score(h, mw, &rl); p += q; ++toks; if (mw == "<unk>") { ++oov; ++oovs; oovp += q; } if (words) { size_t tab = line.find('\t'); if (tab == string::npos) { err = "no field for " + w; break; } istringstream f(line.substr(0, tab)); line.erase(0, tab + 1); string name; int l; double sc; f >> name >> l >> sc; if (name.compare(0, w.size() + 1, w + "=") || fabs(sc - q) > 1e-3 || l < max(1, rl) || l > max(len, 1)) err = "field " + name + " " + to_string(l) + " " + to_string(sc) + " instead of " + w + " " + to_string(q); } h.push_back(mw); } double g; int go; if (sscanf(line.c_str(), "Total: %lf OOV: %d", &g, &go) != 2 || fabs(g - p) > 2e-3 || go != oov) err = "line " + line + " instead of " + to_string(p) + " " + to_string(oov); total += p; }
      if (words && err.empty()) { string rest, l; map<string, double> kv; while (getline(i, l)) { size_t t = l.find('\t'); if (t != string::npos) kv[l.substr(0, t)] = atof(l.c_str() + t); } double a = pow(10, -total / toks), e = pow(10, -(total - oovp) / (toks - oovs)); if (fabs(kv["Perplexity including OOVs:"] - a) > 1e-3 * a || fabs(kv["Perplexity excluding OOVs:"] - e) > 1e-3 * e || kv["OOVs:"] != oovs || kv["Tokens:"] != toks) err = "summary"; }
      x.check(err.empty(), "ngram_query", [&] { return err + "\n" + r; }); unlink(B_.c_str()); unlink((x.dir + "/in").c_str()); } }
static void vc_run(vc::X& x) { X_ = &x; const char* only = getenv("PHASE"); auto on = [&](const char* p) { return !only || string(only) == p; }; F_ = x.dir + "/m.arpa"; B_ = x.dir + "/m.bin"; if (on("base")) base(x); if (on("configs")) configs(x); if (on("texts")) texts(x); if (on("large")) large(x); if (on("programs")) programs(x); }
VC_MAIN(vc_run)
