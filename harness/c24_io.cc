// C24: reading and writing under every delivery of bytes by the system.
#include "compat.h"
#include "vc.h"
#include "util/file_piece.hh"
#include "util/file.hh"
#include "util/read_compressed.hh"
#include "util/fake_ofstream.hh"
#include "util/mmap.hh"
#include "util/tokenize_piece.hh"
#include "util/parallel_read.hh"
#include "util/stream/io.hh"
#include "util/stream/stream.hh"
#include "utils/filelib.h"
#include "utils/gzstream.h"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/mman.h>
using namespace std;
// ---- a file descriptor whose system calls are answered by the harness
struct Hang {};
struct VF { string data; size_t off = 0; vector<int> plan; size_t pi = 0; int dflt = 0; bool regular = false; int mmapfail = -1, mmaps = 0; int eofs = 0, calls = 0; string sink; map<size_t, char> psink;
  // what the next call may do: >0 at most so many bytes, 0 everything, -1 interrupted, -2 error, -3 end of file or nothing written
  int next() { ++calls; return pi < plan.size() ? plan[pi++] : dflt; } };
static VF* vf[4096];
static long fake_page = 0;
static dev_t armed_dev; static ino_t armed_ino; static VF* armed = nullptr;
static VF* who(int fd) { if (fd >= 0 && fd < 4096 && vf[fd]) return vf[fd]; return nullptr; }
static VF* real(int fd) { if (!armed || fd < 0) return nullptr; struct stat s; if (syscall(SYS_fstat, fd, &s) || s.st_ino != armed_ino || s.st_dev != armed_dev) return nullptr; return armed; }
static int vopen(VF& f) { int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR); if (fd < 0 || fd >= 4096) abort(); vf[fd] = &f; return fd; }
static void vclose(int fd) { vf[fd] = nullptr; syscall(SYS_close, fd); }
// fake mappings: the mapped bytes end where an inaccessible page begins
static char* arena = nullptr; static bool used[8]; static const size_t SLOT = 1 << 17;
static void* slot(size_t size, size_t& id) { if (!arena) { arena = (char*)syscall(SYS_mmap, 0, SLOT * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < 8; ++i) mprotect(arena + SLOT * i + SLOT - 4096, 4096, PROT_NONE); } for (id = 0; id < 8; ++id) if (!used[id]) { used[id] = true; return arena + SLOT * id + SLOT - 4096 - size; } abort(); }
extern "C" {
ssize_t read(int fd, void* b, size_t n) {
  if (VF* f = who(fd)) { int s = f->next(); if (s == -1) { errno = EINTR; return -1; } if (s == -2) { errno = EIO; return -1; } if (s == -3) return 0; size_t k = min(n, f->data.size() - f->off); if (s > 0) k = min<size_t>(k, s); if (!k && n && ++f->eofs > 1000) throw Hang(); memcpy(b, f->data.data() + f->off, k); f->off += k; return k; }
  if (VF* f = real(fd)) { int s = f->next(); if (s == -1) { errno = EINTR; return -1; } if (s == -2) { errno = EIO; return -1; } if (s > 0) n = min<size_t>(n, s); }
  return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
  VF* f = who(fd); VF* r = f ? nullptr : real(fd); if (f || r) { int s = (f ? f : r)->next(); if (s == -1) { errno = EINTR; return -1; } if (s == -2) { errno = ENOSPC; return -1; } if (s == -3) return 0; if (s > 0) n = min<size_t>(n, s); if (f) { f->sink.append((const char*)b, n); return n; } }
  return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (VF* r = real(fd)) { (void)r; for (int i = 0; i < c; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; } return syscall(SYS_writev, fd, v, c); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (VF* f = who(fd)) { int s = f->next(); if (s == -1) { errno = EINTR; return -1; } if (s == -2) { errno = EIO; return -1; } if (s == -3) return 0; size_t k = min(n, (size_t)o > f->data.size() ? 0 : f->data.size() - o); if (s > 0) k = min<size_t>(k, s); if (!k && n && ++f->eofs > 1000) throw Hang(); memcpy(b, f->data.data() + o, k); return k; } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (VF* f = who(fd)) { int s = f->next(); if (s == -1) { errno = EINTR; return -1; } if (s == -2) { errno = ENOSPC; return -1; } if (s == -3) return 0; if (s > 0) n = min<size_t>(n, s); for (size_t i = 0; i < n; ++i) f->psink[o + i] = ((const char*)b)[i]; return n; } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
int close(int fd) { if (who(fd)) vf[fd] = nullptr; return syscall(SYS_close, fd); }
static int do_fstat(int fd, struct stat* s) { int r = syscall(SYS_fstat, fd, s); if (VF* f = who(fd)) if (f->regular) { s->st_mode = S_IFREG | 0600; s->st_size = f->data.size(); } return r; }
int fstat(int fd, struct stat* s) { return do_fstat(fd, s); }
int fstat64(int fd, struct stat64* s) { return do_fstat(fd, (struct stat*)s); }
static off_t do_lseek(int fd, off_t o, int w) { if (VF* f = who(fd)) { f->off = w == SEEK_SET ? o : w == SEEK_CUR ? f->off + o : f->data.size() + o; return f->off; } return syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_lseek(fd, o, w); }
void* mmap(void* a, size_t n, int p, int fl, int fd, off_t o) {
  if (VF* f = who(fd)) { if (!n) { errno = EINVAL; return MAP_FAILED; } if (f->mmaps++ == f->mmapfail || n > SLOT - 8192) { errno = ENOMEM; return MAP_FAILED; } size_t id; char* q = (char*)slot(n, id); size_t k = (size_t)o < f->data.size() ? min(n, f->data.size() - o) : 0; memcpy(q, f->data.data() + o, k); memset(q + k, 0, n - k); return q; }
  return (void*)syscall(SYS_mmap, a, n, p, fl, fd, o); }
void* mmap64(void* a, size_t n, int p, int fl, int fd, off64_t o) { return mmap(a, n, p, fl, fd, o); }
int munmap(void* a, size_t n) { if (arena && (char*)a >= arena && (char*)a < arena + 8 * SLOT) { size_t id = ((char*)a - arena) / SLOT; memset(a, 0x7f, n); used[id] = false; return 0; } return syscall(SYS_munmap, a, n); }
int msync(void* a, size_t n, int f) { if (arena && (char*)a >= arena && (char*)a < arena + 8 * SLOT) return 0; return syscall(SYS_msync, a, n, f); }
long sysconf(int k) { if (k == _SC_PAGE_SIZE && fake_page) return fake_page; static long (*f)(int) = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); return f(k); }
}
static string show(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; sprintf(b, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }
static vector<vector<int>> comps(int n) { vector<vector<int>> r; for (int m = 0; m < (n ? 1 << (n - 1) : 1); ++m) { vector<int> p; int c = 0; for (int i = 0; i < n; ++i) { ++c; if (i + 1 == n || m >> i & 1) { p.push_back(c); c = 0; } } r.push_back(p); } return r; }
// ---- buffered text reading: operations against a plain string
enum { GET, DELIM, WORD, LINE, SKIP, COMMA, TABS, FLOAT, LONG, ULONG };
static const char* OPN[] = {"get", "ReadDelimited", "ReadWordSameLine", "ReadLine", "SkipSpaces", "ReadLine(,)", "ReadDelimited(tabs)", "ReadFloat", "ReadLong", "ReadULong"};
static bool tabs[256];
static string numstr(double d) { char b[64]; sprintf(b, "%.9g", d); return b; }
struct Ref { const string& s; size_t p = 0; Ref(const string& t) : s(t) {} bool sp(const bool* d) const { return d[(unsigned char)s[p]]; }
  string go(int o) { const bool* d = o == TABS ? tabs : util::kSpaces; size_t b; switch (o) {
      case GET: if (p == s.size()) return "EOF"; return string(1, s[p++]);
      case LINE: case COMMA: { if (p == s.size()) return "EOF"; char c = o == LINE ? '\n' : ','; b = p; while (p < s.size() && s[p] != c) ++p; string r = s.substr(b, p - b); if (p < s.size()) ++p; return "=" + r; }
      case SKIP: while (p < s.size() && sp(d)) ++p; return "skipped";
      case DELIM: case TABS: while (p < s.size() && sp(d)) ++p; if (p == s.size()) return "EOF"; b = p; while (p < s.size() && !sp(d)) ++p; return "=" + s.substr(b, p - b);
      case WORD: while (p < s.size() && sp(d) && s[p] != '\n') ++p; if (p == s.size() || s[p] == '\n') return "none"; b = p; while (p < s.size() && !sp(d)) ++p; return "=" + s.substr(b, p - b);
      default: { while (p < s.size() && sp(d)) ++p; b = p; size_t e = p; while (e < s.size() && !d[(unsigned char)s[e]]) ++e; string t = s.substr(b, e - b); if (t.empty()) return "throws"; char* q; string r; if (o == FLOAT) r = numstr(strtof(t.c_str(), &q)); else if (o == LONG) r = to_string(strtol(t.c_str(), &q, 10)); else r = to_string(strtoul(t.c_str(), &q, 10)); if (q == t.c_str()) return "throws"; p += q - t.c_str(); if (o == FLOAT && p < e && s[p] == 'e' && memchr(t.c_str(), 'e', q - t.c_str()) == nullptr) { ++p; if (p < e && (s[p] == '-' || s[p] == '+')) ++p; /* a dangling exponent is consumed */ } return r; } } } };
static string real_op(util::FilePiece& f, int o) { try { switch (o) {
    case GET: return string(1, f.get()); case DELIM: { auto s = f.ReadDelimited(); return "=" + string(s.data(), s.size()); } case TABS: { auto s = f.ReadDelimited(tabs); return "=" + string(s.data(), s.size()); }
    case WORD: { StringPiece s; if (!f.ReadWordSameLine(s)) return "none"; return "=" + string(s.data(), s.size()); } case LINE: { auto s = f.ReadLine(); return "=" + string(s.data(), s.size()); } case COMMA: { StringPiece s; if (!f.ReadLineOrEOF(s, ',')) return "EOF"; return "=" + string(s.data(), s.size()); }
    case SKIP: f.SkipSpaces(); return "skipped"; case FLOAT: return numstr(f.ReadFloat()); case LONG: return to_string(f.ReadLong()); default: return to_string(f.ReadULong()); }
  } catch (util::EndOfFileException&) { return o == SKIP ? "skipped" : o >= FLOAT ? "throws" : "EOF"; } catch (util::ParseNumberException&) { return "throws"; } }
struct Del { int mode; long page; vector<int> plan; int dflt; int fail; string str() const { string o = mode == 0 ? "mapped" : mode == 1 ? "read" : "istream"; o += ", pages of " + to_string(page); if (fail >= 0) o += ", mapping " + to_string(fail) + " fails"; if (mode == 1) o += ", delivered as " + vc::str(plan) + " then " + (dflt ? to_string(dflt) : "all"); return o; } };
static string opstr(const vector<int>& ops) { string o; for (int k : ops) o += string(OPN[k]) + " "; return o; }
// runs a repeated pattern of operations to the end
static bool piece(vc::X& x, const string& s, const vector<int>& pat, const Del& d) {
  static VF v; v = VF(); v.data = s; v.plan = d.plan; v.dflt = d.dflt; v.regular = d.mode == 0; v.mmapfail = d.fail; string err; x.step(); size_t done = 0;
  try { fake_page = d.page; istringstream is(s); unique_ptr<util::FilePiece> f; if (d.mode == 2) f.reset(new util::FilePiece(is, "name", 1)); else f.reset(new util::FilePiece(vopen(v), "file", nullptr, 1)); fake_page = 0;
    Ref r(s); int ends = 0; for (; done < 3 * s.size() + 8 && ends < 2; ++done) { int o = pat[done % pat.size()]; string w = r.go(o), g = real_op(*f, o); if (w != g) { err = string(OPN[o]) + " gives " + show(g) + " instead of " + show(w); break; } if (w == "throws") break; if (f->Offset() != r.p) { err = string("after ") + OPN[o] + " the position is " + to_string(f->Offset()) + " instead of " + to_string(r.p); break; } ends = w == "EOF" ? ends + 1 : r.p == s.size() && (w == "none" || w == "skipped") && pat.size() == 1 ? 2 : ends; }
  } catch (util::Exception& e) { err = string("exception ") + e.what(); } catch (Hang&) { err = "it keeps reading at the end of the file"; } fake_page = 0;
  return x.check(err.empty(), "file-piece", [&] { return "operation " + to_string(done) + " of " + opstr(pat) + "on " + show(s) + ", " + d.str() + ": " + err; }); }
static vector<Del> deliveries(int n, int head, bool th) { vector<Del> r; for (long p : {1, 2, 3, 4}) { r.push_back({0, p, {}, 0, -1}); for (int k = 0; k < (th ? 4 : 2); ++k) r.push_back({0, p, {}, k % 2, k}); r.push_back({2, p, {}, 0, -1}); if (p != 3 || th) for (auto c : comps(n)) { vector<int> q; if (head) q.push_back(head); q.insert(q.end(), c.begin(), c.end()); r.push_back({1, p, q, 0, -1}); if (c.size() < 3) for (size_t i = 0; i <= q.size(); ++i) { auto z = q; z.insert(z.begin() + i, -1); r.push_back({1, p, z, 0, -1}); } } r.push_back({1, p, {}, 1, -1}); } return r; }
static void pieces(vc::X& x) {
  memset(tabs, 0, sizeof tabs); tabs['\n'] = tabs['\t'] = tabs[' '] = false; tabs['\n'] = tabs['\t'] = true;
  for (int kind = 0; kind < 2; ++kind) { const string al = kind == 0 ? string("a \n,\t") : string("10-.e \n"); vector<int> ops = kind == 0 ? vector<int>{GET, DELIM, WORD, LINE, SKIP, COMMA, TABS} : vector<int>{FLOAT, LONG, ULONG, GET, DELIM}; int mx = kind == 0 ? (x.thorough ? 5 : 4) : (x.thorough ? 5 : 4), A = al.size();
    for (int head = 0; head <= 6; head += 6) for (int n = 0; n <= mx; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= A; auto ds = deliveries(n, head, x.thorough); for (int c = 0; c < t; ++c) { if (!x.take()) continue; string s(head, 'z'); if (head) s[5] = '\n', s[2] = kind ? ' ' : 'z'; if (head && kind) s = "1 2 3\n"; int k = c; for (int i = 0; i < n; ++i, k /= A) s += al[k % A]; x.desc([=] { return show(s) + " read by every repeated pair of operations under every delivery"; }); if (n > 1) x.nontrivial(); x.state(vc::hstr(s)); size_t di = c;
          vector<vector<int>> pats; for (int a : ops) { pats.push_back({a}); for (int b : ops) if (a != b) { pats.push_back({a, b}); if (x.thorough && n <= 3) for (int e : ops) pats.push_back({a, b, e}); } }
          bool ok = true; for (size_t pi = 0; pi < pats.size() && ok; ++pi) for (size_t j = 0; j < ds.size() && ok; ++j) { if (pats[pi].size() > 1 && n >= 4 && (j + pi + di) % (n >= 5 ? 7 : x.thorough ? 1 : 5)) continue; ok = piece(x, s, pats[pi], ds[j]); } } } }
  // real pages: tokens and lines across every page boundary
  for (int target : {4096, 8192, 12288, 16384}) for (int off = -4; off <= 4; ++off) for (int kind = 0; kind < 4; ++kind) { if (!x.take()) continue; string s; while ((int)s.size() < target + off - 7) s += kind == 1 ? string("x") : kind == 2 ? string("12 -7.5\n") : kind == 3 ? string("word word\n") : string("a\n"); s.resize(target + off - 7); if (kind != 1) s.back() = '\n'; s += "3.25e1 foo,bar\n17\tlast"; x.desc([=] { return to_string(s.size()) + " bytes of kind " + to_string(kind) + " with tokens around byte " + to_string(target); }); x.nontrivial();
        vector<vector<int>> pats = {{GET}, {LINE}, {COMMA}, {DELIM}, {TABS}, {GET, LINE}, {DELIM, GET}, {WORD, GET}, {WORD, WORD, LINE}}; if (kind == 2) { pats.push_back({FLOAT, LONG, LINE}); pats.push_back({FLOAT}); } for (auto& p : pats) for (auto& d : vector<Del>{{0, 0, {}, 0, -1}, {0, 0, {}, 0, 0}, {0, 0, {}, 3, 1}, {1, 0, {}, 0, -1}, {1, 0, {}, 1000, -1}, {1, 0, {}, 7, -1}, {1, 0, {3, -1, 3, -1, 4000, 1}, 4096, -1}, {2, 0, {}, 0, -1}}) piece(x, s, p, d); }
}
// ---- compressed input
static string gz(const string& s, int level = 6) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); string o(s.size() + s.size() / 100 + 200, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
static string bz(const string& s) { unsigned n = s.size() + s.size() / 50 + 700; string o(n, 0); BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)s.data(), s.size(), 1, 0, 0); o.resize(n); return o; }
static string xz(const string& s) { size_t n = 0; string o(s.size() + s.size() / 10 + 500, 0); lzma_easy_buffer_encode(1, LZMA_CHECK_CRC32, nullptr, (uint8_t*)s.data(), s.size(), (uint8_t*)&o[0], &n, o.size()); o.resize(n); return o; }
static string noise(size_t n, unsigned seed = 1) { string s(n, 0); uint64_t h = seed; for (auto& c : s) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; c = h >> 56; } return s; }
static string pack(int k, const string& s) { return k == 0 ? gz(s) : k == 1 ? bz(s) : k == 2 ? xz(s) : s; }
// everything read; "!" and the message after what came before an error
static string readall(const string& raw, const vector<int>& plan, int dflt, size_t amount, bool& err, string* msg = nullptr, uint64_t* count = nullptr) { VF v; v.data = raw; v.plan = plan; v.dflt = dflt; string o; err = false; try { util::ReadCompressed r(vopen(v)); string b(amount + 1, 'q'); for (;;) { size_t got = r.Read(&b[0], amount); if (got > amount || b[amount] != 'q') { err = true; if (msg) *msg = "wrote past the buffer"; return o; } if (!got) break; o.append(b, 0, got); } if (r.Read(&b[0], amount)) { err = true; if (msg) *msg = "reads on after the end"; } if (count) *count = r.RawAmount(); } catch (util::Exception& e) { err = true; if (msg) *msg = e.what(); } catch (Hang&) { err = true; if (msg) *msg = "HANG"; } return o; }
static void compressed(vc::X& x) {
  const vector<string> C = {"", "ab\n", "the quick brown fox\njumps over\n", noise(300) }; const char* KN[] = {"gzip", "bzip2", "xz", "plain"};
  vector<pair<string, pair<string, string>>> files; vector<vector<size_t>> bounds; auto add = [&](vector<pair<int, int>> m) { string raw, txt, name; vector<size_t> b(1, 0); for (auto& e : m) { raw += pack(e.first, C[e.second]); txt += C[e.second]; name += string(KN[e.first]) + " of " + to_string(C[e.second].size()) + " bytes, "; b.push_back(raw.size()); } files.push_back({name, {raw, txt}}); bounds.push_back(b); };
  for (int k = 0; k < 4; ++k) for (int c = 0; c < 4; ++c) { add({{k, c}}); if (k < 3) for (int k2 = 0; k2 < 3; ++k2) for (int c2 = 0; c2 < 3; ++c2) { add({{k, c}, {k2, c2}}); if (c < 2 && c2 < 2) for (int k3 = 0; k3 < 3; ++k3) add({{k, c}, {k2, c2}, {k3, 1}}); } }
  for (size_t fi = 0; fi < files.size(); ++fi) { const string raw = files[fi].second.first, txt = files[fi].second.second; bool plain = files[fi].first.find("plain") == 0; for (int what = 0; what < 3; ++what) { if (plain && what) continue; if (!x.take()) continue; const string nm = files[fi].first; x.desc([=] { return nm + (what == 0 ? "in every two deliveries, with interruptions" : what == 1 ? "cut off at every byte" : "with every byte changed, or more bytes appended"); }); if (raw.size() > 6) x.nontrivial(); x.state(vc::hstr(raw));
      if (what == 0) { for (size_t am : {1, 2, 3, 7, 64, 100000}) for (int d : {0, 1, 2, 3, 5, 6, 7, 13}) { bool e; uint64_t cnt = 0; string o, m; x.step(); o = readall(raw, {}, d, am, e, &m, &cnt); x.check(!e && o == txt, "compressed", [&] { return "read in pieces of " + to_string(am) + ", delivered " + to_string(d) + " at a time: " + to_string(o.size()) + " bytes instead of " + to_string(txt.size()) + " " + m; }); x.check(e || cnt == raw.size(), "compressed-count", [&] { return to_string(cnt) + " bytes are reported instead of " + to_string(raw.size()); }); }
        for (size_t i = 1; i < raw.size(); i += raw.size() > 150 && !x.thorough ? 3 : 1) for (size_t j = 0; j < raw.size() - i; j += x.thorough && raw.size() < 120 ? 1 : max<size_t>(1, raw.size() / 8)) { vector<int> p = {-1, (int)i, -1}; if (j) p.push_back(j), p.push_back(-1); bool e; string m; x.step(); string o = readall(raw, p, 0, 16, e, &m); x.check(!e && o == txt, "compressed-split", [&] { return "delivered as " + vc::str(p) + ": " + m; }); }
        for (int q = 0; q < 6; ++q) { vector<int> p(q, 9); p.push_back(-2); bool e; string m; string o = readall(raw, p, 0, 5, e, &m); size_t need = (raw.size() / 9) + 1; if (q * 9 < (int)raw.size() || (raw.size() == 0 && q == 0)) { (void)need; x.check(e && m.find("nput/output") != string::npos && txt.compare(0, o.size(), o) == 0, "compressed-error", [&] { return "a read error after " + to_string(q * 9) + " bytes is not reported: " + m; }); } } }
      else if (what == 1) { for (size_t n = 0; n < raw.size(); ++n) { string cut = raw.substr(0, n); size_t b = 0, done = 0; for (size_t i = 0; i < bounds[fi].size(); ++i) if (bounds[fi][i] <= n) { b = bounds[fi][i]; } { bool e0; done = readall(raw.substr(0, b), {}, 0, 1000, e0).size(); } for (int d : {0, 1}) { bool e; string m; x.step(); string o = readall(cut, {}, d, 7, e, &m); string lead = cut.substr(b, 6); bool magic = lead.size() >= 2 && (unsigned char)lead[0] == 0x1f || lead.size() >= 3 && lead.compare(0, 3, "BZh") == 0 || lead.size() == 6; if (n == b) x.check(!e && o == txt.substr(0, done), "cut-boundary", [&] { return "cut at the member boundary " + to_string(n) + ": " + m; }); else if (b == 0 && !magic) x.check(!e && o == cut, "cut-short", [&] { return "a file of " + to_string(n) + " bytes is not read as it is: " + m; }); else x.check(e && m != "HANG" && txt.compare(0, o.size(), o) == 0, "cut", [&] { return "cut after " + to_string(n) + " of " + to_string(raw.size()) + " bytes: " + (m == "HANG" ? "reads forever" : e ? "wrong bytes" : "no error is reported and " + to_string(o.size()) + " bytes are delivered"); }); } } }
      else { if (fi < 60 || x.thorough) for (size_t n = 0; n < raw.size(); ++n) for (int bit = 0; bit < 8; bit += x.thorough ? 1 : 3) { if (n < 6) continue; string ch = raw; ch[n] ^= 1 << bit; bool e; string m; x.step(); string o = readall(ch, {}, 0, 50, e, &m); x.check(m != "HANG" && (e || o == txt), "changed", [&] { return "byte " + to_string(n) + " changed: " + (m == "HANG" ? "reads forever" : "different bytes are delivered without an error"); }); }
        for (string tail : {string("x"), string("\n"), string("BZ"), string("plain text\n"), string("\x1f"), string(7, 0)}) { bool e; string m; x.step(); string o = readall(raw + tail, {}, 0, 9, e, &m); x.check(e && m != "HANG" && txt.compare(0, o.size(), o) == 0, "garbage", [&] { return "bytes " + show(tail) + " after the end are not reported: " + m; }); } } } }
  // members that end near the end of the input buffer
  for (int base : {16384, 32768}) for (int d = -14; d <= 14; ++d) for (int k2 = 0; k2 < 3; ++k2) { if (!x.take()) continue; x.desc([=] { return "a gzip member of " + to_string(base + d) + " bytes followed by " + KN[k2]; }); x.nontrivial(); string n = noise(base), first; size_t len = base + d - 60; for (; len < (size_t)base + d; ++len) { first = gz(n.substr(0, len), 0); if ((int)first.size() == base + d) break; } if ((int)first.size() != base + d) { x.stat("no such member size"); continue; } string txt = n.substr(0, len) + "tail\n", raw = first + pack(k2, "tail\n"); for (size_t am : {1000, 16384, 40000}) for (int dl : {0, 1, 1000, 16383}) { bool e; string m; x.step(); string o = readall(raw, {}, dl, am, e, &m); x.check(!e && o == txt, "buffer-end", [&] { return m + " " + to_string(o.size()) + " of " + to_string(txt.size()) + " bytes"; }); } }
  // text reading on top of compressed input
  for (int k = 0; k < 3; ++k) for (int reg = 0; reg < 2; ++reg) for (int c = 1; c < 3; ++c) for (int two = 0; two < 2; ++two) { if (!x.take()) continue; string txt = C[c], raw = pack(k, C[c]); if (two) { txt += C[2]; raw += pack((k + 1) % 3, C[2]); } x.desc([=] { return string("lines and words of ") + KN[k] + (two ? " of two members" : "") + (reg ? ", mapped first" : ""); }); x.nontrivial(); for (long page : {4, 16, 4096}) for (int d : {0, 1, 3}) for (vector<int> p : vector<vector<int>>{{LINE}, {DELIM}, {GET}, {WORD, GET}}) { VF v; v.data = raw; v.dflt = d; v.regular = reg; x.step(); string err; try { fake_page = page; util::FilePiece f(vopen(v), "file", nullptr, 1); fake_page = 0; Ref r(txt); for (int i = 0; i < 100; ++i) { int o = p[i % p.size()]; string w = r.go(o), g = real_op(f, o); if (w != g || f.Offset() != r.p) { err = string(OPN[o]) + " gives " + show(g) + " at " + to_string(f.Offset()) + " instead of " + show(w) + " at " + to_string(r.p); break; } if (w == "EOF") break; } } catch (util::Exception& e) { err = e.what(); } fake_page = 0; x.check(err.empty(), "piece-compressed", [&] { return "pages of " + to_string(page) + ", delivered " + to_string(d) + " at a time: " + err; }); } }
  if (x.take()) { x.desc([] { return string("reading from streams"); }); x.nontrivial(); for (int n = 0; n < 20; ++n) for (size_t am : {1, 2, 5, 30}) { x.step(); string s = noise(n); istringstream is(s); char z[sizeof(util::ReadCompressed)]; memset(z, 0x77, sizeof z); util::ReadCompressed* r = new (z) util::ReadCompressed(is); string o, b(am, 0); while (size_t g = r->Read(&b[0], am)) o.append(b, 0, g); x.check(o == s && r->RawAmount() == (uint64_t)n, "istream-reader", [&] { return to_string(o.size()) + " bytes, count " + to_string(r->RawAmount()) + ", instead of " + to_string(n); }); r->~ReadCompressed(); istringstream i2(s); util::ReadCompressed q(i2); string all(n + 5, 0); size_t g = q.ReadOrEOF(&all[0], n + 5); x.check(g == (size_t)n && all.compare(0, n, s) == 0, "istream-or-eof", "short"); } }
}
// ---- primitives under every short plan of system call results
static void primitives(vc::X& x) {
  const int SY[] = {1, 2, 5, -1, -2, -3}; const int L = x.thorough ? 5 : 4; int t = 1; for (int i = 0; i < L; ++i) t *= 6;
  for (int n = 0; n <= 6; ++n) for (int am = 0; am <= 6; ++am) for (int pl = 0; pl <= L; ++pl) { int tt = 1; for (int i = 0; i < pl; ++i) tt *= 6; for (int c0 = 0; c0 < tt; c0 += 216) { if (!x.take()) continue; x.desc([=] { return "reading and writing " + to_string(am) + " bytes, " + to_string(n) + " present, plans of " + to_string(pl) + " results from " + to_string(c0); }); if (am > 1) x.nontrivial(); for (int c = c0; c < min(tt, c0 + 216); ++c) { vector<int> p; int k = c; for (int i = 0; i < pl; ++i, k /= 6) p.push_back(SY[k % 6]); const string data = string("abcdefgh").substr(0, n), src = string("ABCDEFGH").substr(0, am);
            for (int fn = 0; fn < 6; ++fn) for (int po = 0; po < (fn == 4 || fn == 5 ? 2 : 1); ++po) { x.step(); VF v; v.data = data; v.plan = p; int fd = vopen(v); string buf(am + 2, 'Q'), got, want; size_t ret = 0; const size_t at = po ? 2 : 0;
              // model
              size_t done = 0, pi = 0; string end = "ok"; size_t off = fn == 4 ? at : 0; bool rd = fn == 0 || fn == 1 || fn == 2 || fn == 4; bool once = fn == 2; if (am || once) while (done < (size_t)am || once) { int s = pi < p.size() ? p[pi++] : 0; if (s == -1) continue; if (s == -2) { end = "error"; break; } size_t left = am - done, kk = s == -3 ? 0 : rd ? min(left, off + done > data.size() ? 0 : data.size() - off - done) : left; if (s > 0) kk = min<size_t>(kk, s); if (!kk && !once) { end = rd ? "end" : fn == 5 ? "end" : "stuck"; break; } done += kk; if (once) break; }
              if (fn == 1 && end == "end") end = "ok";
              try { got = "ok"; if (fn == 0) util::ReadOrThrow(fd, &buf[1], am), ret = am; else if (fn == 1) ret = util::ReadOrEOF(fd, &buf[1], am); else if (fn == 2) ret = util::PartialRead(fd, &buf[1], am); else if (fn == 3) util::WriteOrThrow(fd, src.data(), am), ret = am; else if (fn == 4) util::ErsatzPRead(fd, &buf[1], am, at), ret = am; else util::ErsatzPWrite(fd, src.data(), am, at), ret = am; }
              catch (util::EndOfFileException&) { got = "end"; } catch (util::ErrnoException& e) { got = e.Error() == (rd ? EIO : ENOSPC) ? "error" : "stuck"; } catch (util::Exception&) { got = "stuck"; } catch (Hang&) { got = "hang"; }
              const char* FN[] = {"ReadOrThrow", "ReadOrEOF", "PartialRead", "WriteOrThrow", "ErsatzPRead", "ErsatzPWrite"}; string w1, g1; if (rd) { w1 = data.size() > off ? data.substr(off, done) : ""; w1.resize(done, '?'); g1 = buf.substr(1, done); bool clean = buf[0] == 'Q'; for (size_t i = done + 1; i < buf.size(); ++i) clean &= buf[i] == 'Q'; if (!clean) g1 += "+"; } else { w1 = src.substr(0, done); if (fn == 3) g1 = v.sink; else { for (auto& e : v.psink) g1 += e.second; if (!v.psink.empty() && v.psink.begin()->first != at) g1 += "+"; } }
              x.check(got == end && (got != "ok" || ret == done) && g1 == w1, string("primitive-") + FN[fn], [&] { return string(FN[fn]) + " of " + to_string(am) + " bytes with " + to_string(n) + " present and results " + vc::str(p) + ": " + got + " with " + show(g1) + ", expected " + end + " with " + show(w1); }); x.state(vc::hstr(end + w1, fn)); vclose(fd); } } } }
  for (int n = 0; n <= 12; ++n) for (int off = 0; off <= n; ++off) { if (!x.take()) continue; x.desc([=] { return "loading " + to_string(n - off) + " bytes from byte " + to_string(off); }); for (int m = 0; m < 5; ++m) for (int d : {0, 1, 2, 5}) { util::LoadMethod M[] = {util::LAZY, util::POPULATE_OR_LAZY, util::POPULATE_OR_READ, util::READ, util::PARALLEL_READ}; if (m < 3 && n == off) continue; VF v; v.data = noise(n); v.dflt = d; v.regular = true; int fd = vopen(v); x.step(); { util::scoped_memory mem; util::MapRead(M[m], fd, off, n - off, mem); x.check(mem.size() == (size_t)(n - off) && string(mem.begin(), mem.end()) == v.data.substr(off), "map-read", [&] { return "method " + to_string(m) + " delivers other bytes"; }); } vclose(fd); } }
}
// ---- the fast output stream
static void output(vc::X& x) {
  const size_t K = util::FakeOFStream::kOutBuf; const vector<size_t> S = {0, 1, 7, K - 8, K - 1, K, K + 1, 2 * K + 3}; int ns = S.size();
  for (int a = 0; a < ns; ++a) for (int b = 0; b < ns; ++b) for (int c = 0; c < ns; ++c) { if (!x.take()) continue; x.desc([=] { return "writing strings of " + to_string(S[a]) + ", " + to_string(S[b]) + " and " + to_string(S[c]) + " bytes with characters and numbers between"; }); x.nontrivial(); for (int num = 0; num < 4; ++num) for (int d : {0, 65536, 1000003}) { x.step(); VF v; v.dflt = d; v.plan = {-1, 5, -1}; int fd = vopen(v); string w; { util::FakeOFStream o(fd); for (size_t s : {S[a], S[b], S[c]}) { string t(s, 'a' + w.size() % 26); o << StringPiece(t); w += t; if (num == 1) o << 'x', w += "x"; if (num == 2) o << 0.1f << 12345u, w += "0.112345"; if (num == 3) o << -1.7976931348623157e308, w += "-1.7976931348623157e308"; } if (num == 2) { o.SetFD(fd); } } vclose(fd); x.check(v.sink == w, "fast-output", [&] { return "variant " + to_string(num) + ", delivered " + to_string(d) + ": " + to_string(v.sink.size()) + " bytes instead of " + to_string(w.size()); }); x.state(w.size()); } }
  // numbers survive
  for (int e = 0; e < 256; e += 4) { if (!x.take()) continue; x.desc([=] { return "floats with exponents from " + to_string(e) + " written and read back"; }); x.nontrivial(); VF v; int fd = vopen(v); vector<float> fs; vector<double> ds; for (int k = e; k < e + 4; ++k) for (uint32_t m : {0u, 1u, 2u, 0x3fffffu, 0x400000u, 0x555555u, 0x199999u, 0x7ffffeu, 0x7fffffu, 0x123456u}) for (uint32_t s = 0; s < 2; ++s) { uint32_t b = s << 31 | (uint32_t)k << 23 | m; float f; memcpy(&f, &b, 4); if (f != f) continue; fs.push_back(f); uint64_t bb = (uint64_t)s << 63 | (uint64_t)(k * 8 + m % 8) << 52 | (uint64_t)m << 29 | m; double g; memcpy(&g, &bb, 8); if (g != g) continue; ds.push_back(g); } { util::FakeOFStream o(fd); for (float f : fs) o << f << '\n'; for (double g : ds) o << g << '\n'; } vclose(fd); VF u; u.data = v.sink; u.dflt = 64; util::FilePiece p(vopen(u), "file", nullptr, 1); istringstream is(v.sink); string l; for (float f : fs) { x.step(); float g = p.ReadFloat(); getline(is, l); float h = strtof(l.c_str(), nullptr); x.check(!memcmp(&g, &f, 4) && !memcmp(&h, &f, 4), "float-text", [&] { return numstr(f) + " is written as " + l + " and read as " + numstr(g); }); } for (double f : ds) { x.step(); double g = p.ReadDouble(); getline(is, l); double h = strtod(l.c_str(), nullptr); x.check(!memcmp(&g, &f, 8) && !memcmp(&h, &f, 8), "double-text", [&] { return numstr(f) + " is written as " + l + " and read as " + numstr(g); }); } }
  for (int at = 0; at < 5; ++at) { if (!x.take()) continue; x.desc([=] { return "a write error at call " + to_string(at); }); VF v; v.plan = vector<int>(at, 3); v.plan.push_back(-2); int fd = vopen(v); bool thrown = false; try { util::FakeOFStream o(fd); o << StringPiece("hello, this is text"); try { o.Flush(); } catch (util::FDException& e) { thrown = e.Error() == ENOSPC; } o.SetFD(fd); } catch (...) {} vclose(fd); x.check(thrown, "fast-output-error", "the error is not reported"); }
}
// ---- files and gzip streams of the decoder
static void arm(VF& v, const string& f) { struct stat s; if (stat(f.c_str(), &s)) abort(); armed_dev = s.st_dev; armed_ino = s.st_ino; armed = &v; }
static string slurp(const string& f) { ifstream i(f.c_str(), ios::binary); return string(istreambuf_iterator<char>(i), istreambuf_iterator<char>()); }
static void spit(const string& f, const string& s) { ofstream o(f.c_str(), ios::binary); o << s; }
static void streams(vc::X& x) {
  const size_t B = 47 + 1024 * 256 - 4; const string names[] = {x.dir + "/f.txt", x.dir + "/f.gz"}; vector<string> ct; for (string a : {"", "a", "bc d"}) for (string b : {"", "\n", "\nx", "\n\n", "\nlong long line\n", "\r\n"}) ct.push_back(a + b); for (size_t s : {(size_t)8190, (size_t)8191, (size_t)8192, (size_t)8193, B - 1, B, B + 1, 2 * B, 2 * B + 1}) for (int k = 0; k < 3; ++k) { string t = noise(s, k + 1); if (k == 1) for (auto& c : t) c = "ab \n"[(unsigned char)c % 4]; if (k == 2) t.assign(s, 0); ct.push_back(t); }
  for (size_t ci = 0; ci < ct.size(); ++ci) for (int z = 0; z < 2; ++z) { if (!x.take()) continue; const string s = ct[ci]; x.desc([=] { return string(z ? "gzip" : "plain") + " file of " + to_string(s.size()) + " bytes" + (s.size() < 20 ? " " + show(s) : ""); }); if (s.size() > 1) x.nontrivial(); x.state(vc::hstr(s, z)); const string& f = names[z];
      for (int d : {0, 1, 100, 8191}) { if (d == 1 && s.size() > 10000) continue; spit(f, ""); VF v; v.dflt = d; arm(v, f); bool ok; { WriteFile w(f); size_t half = s.size() / 2; w->write(s.data(), half); if (d == 100) *w << flush; for (size_t i = half; i < min(half + 10, s.size()); ++i) w->put(s[i]); if (s.size() > half + 10) *w << s.substr(half + 10); ok = (bool)*w; WriteFile w2(w); } armed = nullptr; x.step(); string raw = slurp(f), back = raw; if (z) { bool e; back = readall(raw, {}, 0, 100000, e); ok &= !e || raw.empty(); } x.check(ok && back == s, "write-file", [&] { return "delivered " + to_string(d) + " at a time, " + to_string(back.size()) + " bytes arrive"; });
        // reading, from one or two members, or uncompressed text in a .gz file
        for (int kind = 0; kind < (z ? 3 : 1); ++kind) { size_t h = s.size() / 3; string disk = !z || kind == 2 ? s : kind == 0 ? gz(s) : gz(s.substr(0, h)) + gz(s.substr(h)); if (kind == 2 && s.size() > 1 && s[0] == '\x1f') continue; spit(f, disk); VF r; r.dflt = d; arm(r, f); { ReadFile in(f); string l, o; while (getline(*in, l)) { o += l; if (!in->eof()) o += '\n'; } x.step(); x.check(o == s && !in->bad(), "read-lines", [&] { return "kind " + to_string(kind) + ", delivered " + to_string(d) + ": " + to_string(o.size()) + " bytes"; }); }
          arm(r, f); { ReadFile in(f); string o = "old"; in.ReadAll(o); string w = s; if (!w.empty() && w.back() == '\n') w.resize(w.size() - 1); x.check(o == w, "read-all", [&] { return to_string(o.size()) + " bytes instead of " + to_string(w.size()); }); }
          { ReadFile in(f); string o; char c; bool good = true; size_t i = 0; while (in->get(c)) { o += c; ++i; if (i % 1000 == 3 || i == B || i == B + 1 || i == B + 2 || i == 8192) { int k = min<size_t>(i, 3); if (!z) k = min<size_t>(k, i > 8191 ? (i - 1) % 8191 + 1 : i); for (int j = 0; j < k && good; ++j) good = (bool)in->unget(); for (int j = 0; j < k && good; ++j) { good = in->get(c) && c == o[o.size() - k + j]; } } } x.check(good && o == s, "unget", [&] { return "after " + to_string(i) + " characters"; }); }
          { ReadFile in(f); string o, b(777, 0); while (in->read(&b[0], 777) || in->gcount()) o.append(b, 0, in->gcount()); x.check(o == s, "read-blocks", [&] { return to_string(o.size()) + " bytes"; }); }
          { ostringstream os; CopyFile(f, os); os << "after"; x.check(os.str() == s + "after", "copy-file", [&] { return "copying " + to_string(s.size()) + " bytes and writing more gives " + to_string(os.str().size()) + " bytes"; }); string g = x.dir + "/copy"; CopyFile(f, g); x.check(slurp(g) == disk, "copy-file-file", "the copy differs"); }
          armed = nullptr; } }
      // errors of the system
      if (ci % 3 == 0 || s.size() > 8000) for (int at = 0; at < 6; ++at) { string disk = z ? gz(s) : s; spit(f, disk); VF r; r.plan = vector<int>(at, (int)max<size_t>(1, disk.size() / 4)); r.plan.push_back(-2); arm(r, f); x.step(); { string o; char c; bool bad = false, hit = false; if (z) { igzstream in(f.c_str()); while (in.get(c)) o += c; bad = in.bad(); hit = r.pi > (size_t)at; try { in.close(); bad |= in.bad(); } catch (exception&) { bad = true; } } else { ifstream in(f.c_str(), ios::binary); while (in.get(c)) o += c; bad = in.bad(); hit = r.pi > (size_t)at; } x.check(!hit || (bad && s.compare(0, o.size(), o) == 0), "read-error", [&] { return "read error " + to_string(at) + " looks like the end of the file after " + to_string(o.size()) + " bytes"; }); x.check(hit || o == s, "read-noerror", "short"); } armed = nullptr; }
      if (z && (ci % 3 == 0 || s.size() > 8000)) for (int at = 0; at < 5; ++at) { spit(f, ""); VF r; r.plan = vector<int>(at, (int)max<size_t>(1, s.size() / 8)); r.plan.push_back(-2); arm(r, f); x.step(); bool bad = false; { ogzstream o(f.c_str()); o << s; bad = !o; try { o.close(); bad |= !o; } catch (exception& e) { bad = true; string m = e.what(); x.check(m.find("gzstreambuf error: ") == 0, "write-error-text", [&] { return "message " + show(m); }); } } bool hit = r.pi > (size_t)at; armed = nullptr; x.check(!hit || bad, "write-error", [&] { return "write error " + to_string(at) + " is not reported"; }); bool e; x.check(hit || readall(slurp(f), {}, 0, 1000, e) == s, "write-noerror", "short"); }
      // cut off gzip files
      if (z) { string disk = gz(s); for (size_t n = 3; n < disk.size(); n += 1 + disk.size() / 60) { spit(f, disk.substr(0, n)); string o; char c; bool bad = false; x.step(); { igzstream in(f.c_str()); while (in.get(c)) o += c; bad = in.bad(); try { in.close(); bad |= in.bad(); } catch (exception& e) { bad = true; string m = e.what(); x.check(m.find("gzstreambuf error: ") == 0, "cut-gz-text", [&] { return "message " + show(m); }); } } x.check(s.compare(0, o.size(), o) == 0, "cut-gz-content", "other content"); x.check(bad, o.size() && o.size() % B == 0 ? "cut-gz-at-buffer-end" : "cut-gz", [&] { return "cut after " + to_string(n) + " of " + to_string(disk.size()) + " bytes: no error"; }); } } }
  if (x.take()) { x.desc([] { return string("files that cannot be opened"); }); for (string n : {"/no/such/dir/f", "/no/such/dir/f.gz"}) { bool t = false; try { WriteFile w(x.dir + n); } catch (runtime_error&) { t = true; } x.check(t, "open-write", [&] { return "no error for " + n; }); t = false; try { ReadFile r(x.dir + n); } catch (runtime_error&) { t = true; } x.check(t, "open-read", [&] { return "no error for " + n; }); igzstream a((x.dir + n).c_str()); x.check(!a, "open-igz", "good"); ogzstream b((x.dir + n).c_str()); x.check(!b, "open-ogz", "good"); } }
}
// ---- pipelines
using namespace util::stream;
struct Blocks { vector<string>* d; void Run(const ChainPosition& pos) { for (Link l(pos); l; ++l) { d->push_back(string((char*)l->Get(), l->ValidSize())); l->SetValidSize(pos.GetChain().BlockSize()); } } };
struct Feed { const vector<string>* d; void Run(const ChainPosition& pos) { Link l(pos); for (auto& s : *d) { memcpy(l->Get(), s.data(), s.size()); l->SetValidSize(s.size()); ++l; } l.Poison(); } };
static void pipes(vc::X& x) {
  for (int es = 1; es <= 3; ++es) for (int be = 1; be <= 4; ++be) for (int bc = 1; bc <= 3; ++bc) for (int n = 0; n <= (x.thorough ? 12 : 7); ++n) { if (!x.take()) continue; x.desc([=] { return to_string(n) + " records of " + to_string(es) + " bytes through " + to_string(bc) + " blocks of " + to_string(be); }); if (n > be) x.nontrivial(); const string s = noise(n * es); for (int d : {0, 1, 2, 3}) for (int eintr = 0; eintr < 2; ++eintr) { vector<int> plan; if (eintr) plan = {-1, 1, -1, -1, 2}; for (int src = 0; src < 2; ++src) { VF v; v.data = s; v.dflt = d; v.plan = plan; v.regular = true; int fd = vopen(v); vector<string> o; x.step(); { Chain ch(ChainConfig(es, bc, es * be * bc)); if (src) ch >> PRead(fd, false); else ch >> Read(fd); ch >> Blocks{&o} >> kRecycle; ch.Wait(); } string all; bool whole = true; for (auto& b : o) { all += b; whole &= b.size() % es == 0; } x.check(all == s && whole, src ? "pread" : "read", [&] { return to_string(all.size()) + " of " + to_string(s.size()) + " bytes"; }); vclose(fd); }
        for (int snk = 0; snk < 3; ++snk) { VF v; v.dflt = d; v.plan = plan; int fd = vopen(v); vector<string> bl; size_t i = 0, b = 0; while (i < s.size()) { size_t k = min(s.size() - i, ((b++ + d) % (be + 1)) * es); bl.push_back(s.substr(i, k)); i += k; } vector<string> o; x.step(); { Chain ch(ChainConfig(es, bc, es * be * bc)); ch >> Feed{&bl}; if (snk == 0) ch >> Write(fd) >> Blocks{&o} >> kRecycle; else if (snk == 1) ch >> WriteAndRecycle(fd); else ch >> PWriteAndRecycle(fd); ch.Wait(); } string w; if (snk < 2) w = v.sink; else for (auto& e : v.psink) w += e.second; string th; for (auto& e : o) th += e; x.check(w == s && (snk || th == s), snk == 0 ? "stream-write" : snk == 1 ? "stream-write-recycle" : "stream-pwrite", [&] { return to_string(w.size()) + " of " + to_string(s.size()) + " bytes"; }); vclose(fd); } } }
}
// ---- tokens
template <class F, bool SK, class A> static string toks(const string& s, const A& a) { string o; for (util::TokenIter<F, SK> i(s, a); i; ++i) o += "[" + string(i->data(), i->size()) + "]"; return o; }
static void tokens(vc::X& x) {
  static bool bc[256]; util::BoolCharacter::Build(" ,", bc); int mx = x.thorough ? 8 : 6; const string al = "a ,|"; for (int n = 0; n <= mx; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 4; for (int c0 = 0; c0 < t; c0 += 64) { if (!x.take()) continue; x.desc([=] { return "tokens of strings of length " + to_string(n) + " from number " + to_string(c0); }); if (n > 1) x.nontrivial(); for (int c = c0; c < min(t, c0 + 64); ++c) { string s; int k = c; for (int i = 0; i < n; ++i, k /= 4) s += al[k % 4]; x.state(vc::hstr(s));
          auto ref = [&](function<int(size_t)> m, bool sk) { string o, cur; size_t i = 0; bool any = true; for (;;) { if (i >= s.size()) { if (any && (!sk || !cur.empty())) o += "[" + cur + "]"; break; } int l = m(i); if (l) { if (!sk || !cur.empty()) o += "[" + cur + "]"; cur.clear(); i += l; } else cur += s[i++]; } return o; };
          auto one = [&](const string& set) { return [&s, set](size_t i) { return set.find(s[i]) != string::npos ? 1 : 0; }; }; auto multi = [&](const string& d) { return [&s, d](size_t i) { return s.compare(i, d.size(), d) == 0 ? (int)d.size() : 0; }; };
          auto eq = [&](const string& g, const string& w, const char* nm) { x.step(); x.check(g == w, string("tokens-") + nm, [&] { return show(s) + " gives " + g + " instead of " + w; }); };
          eq(toks<util::SingleCharacter, false>(s, ' '), ref(one(" "), false), "single"); eq(toks<util::SingleCharacter, true>(s, ' '), ref(one(" "), true), "single-skip"); eq(toks<util::AnyCharacter, false>(s, StringPiece(" ,")), ref(one(" ,"), false), "any"); eq(toks<util::AnyCharacter, true>(s, StringPiece(" ,")), ref(one(" ,"), true), "any-skip"); eq(toks<util::BoolCharacter, false>(s, (const bool*)bc), ref(one(" ,"), false), "bool"); eq(toks<util::BoolCharacter, true>(s, (const bool*)bc), ref(one(" ,"), true), "bool-skip"); eq(toks<util::MultiCharacter, false>(s, StringPiece("||")), ref(multi("||"), false), "multi"); eq(toks<util::MultiCharacter, true>(s, StringPiece(" , ")), ref(multi(" , "), true), "multi-skip"); } } }
}
void vc_run(vc::X& x) { pieces(x); compressed(x); primitives(x); output(x); streams(x); pipes(x); tokens(x); }
VC_MAIN(vc_run)
