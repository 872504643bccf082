// C27: the real sentence server under a scheduler that owns its threads, locks, sockets and input, and the real programs over loopback.
#include "compat.h"
#include "vc.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <functional>
#include <memory>
using namespace std;
typedef vector<string> S;
// ---- the world of one execution
enum Act { REPLY, DIE_IDLE, DIE_GOT, RST_IDLE, RST_GOT, PART_FIN, PART_RST, EXTRA_FIN };   // what a client does next
struct Script { vector<Act> acts; bool healthy; string hello; };   // healthy: keeps answering after its acts
struct Conf { S lines; vector<Script> clients; bool stay = false, multi = false, nl = true; string key; uint32_t fill = 0; };
struct Conn { bool connected = false, started = false, extra = false, accepted = false, in = false, dead = false, closed = false, rst = false; int err = 0; string inbox, data; size_t pos = 0; set<int> asked; };
enum St { RUN, MUTEX, READ, ACCEPT, COND, JOIN, OVER };
struct Co { ucontext_t c; char* stack; St st; void* obj; void* obj2; int fd; void* (*fn)(void*); void* arg; bool must; };
struct Block { size_t n; bool live; };
struct World { const Conf* cf; vector<Conn> cn; string in; size_t inpos = 0; bool stdin_line = true; string out; bool outclosed = false; vector<unique_ptr<Co>> co; int cur = 0; map<void*, int> mx; int exit_code = -1; bool over = false; int live_at_end = -1; bool ignpipe = false; string bad, badkey; vector<int> holder; vector<bool> answered; deque<int> backlog; int last = -1; bool listening = false, sclosed = false; map<char*, Block> mem; uint64_t points = 0; };
static World* w; static ucontext_t home; static vector<char*> stacks; static const size_t STK = 1 << 16;
static bool finer;   // also switch after an unlock and after a thread starts, not only before each operation
static vector<int> plan; struct Pick { int c, n; }; static vector<Pick> picks; static int pre, preemptions;
static void bad(const string& k, const string& m) { if (w->bad.empty()) { w->bad = m; w->badkey = k; } }
static void yield_() { Co* c = w->co[w->cur].get(); swapcontext(&c->c, &home); }
static void point() { w->co[w->cur]->st = RUN; yield_(); }
static void ending() { if (w->live_at_end >= 0) return; w->live_at_end = 0; for (auto& c : w->cn) if (c.started && c.in && !c.dead && !c.closed) w->live_at_end = 1; }
static void finish_() { w->over = true; yield_(); for (;;) yield_(); }
static string reply(int c, const string& l, bool multi) { return string(1, 'p' + c) + ":" + l + "\n" + (multi ? string(1, 'p' + c) + ";" + l + "\n" : ""); }
static Conn* conn(int fd) { return fd >= 10 && fd < 10 + int(w->cn.size()) ? &w->cn[fd - 10] : 0; }
static bool readable(Conn& c) { return c.pos < c.data.size() || c.err || c.dead; }
static bool enabled(Co& t) { switch (t.st) { case RUN: return true; case MUTEX: return !w->mx.count(t.obj); case READ: return readable(w->cn[t.fd - 10]); case ACCEPT: return !w->backlog.empty(); case JOIN: return w->co[t.fd]->st == OVER; default: return false; } }
extern "C" {
#define W(r, f, a) r __wrap_##f a; r __wrap_##f a
int __vc_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __vc_pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) { if (w->last >= 0) w->cn[w->last].started = true; int id = w->co.size(); w->co.emplace_back(new Co()); Co* c = w->co.back().get(); c->st = RUN; c->fn = fn; c->arg = arg; if (int(stacks.size()) <= id) stacks.push_back((char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); c->stack = stacks[id]; getcontext(&c->c); c->c.uc_stack.ss_sp = c->stack; c->c.uc_stack.ss_size = STK; c->c.uc_link = &home; makecontext(&c->c, (void (*)())+[] { Co* c = w->co[w->cur].get(); c->fn(c->arg); c->st = OVER; for (;;) yield_(); }, 0); *th = id + 1000; if (finer) point(); return 0; }
W(void, pthread_exit, (void*)) { w->co[w->cur]->st = OVER; for (;;) yield_(); }
W(int, pthread_join, (pthread_t t, void**)) { Co* c = w->co[w->cur].get(); c->st = JOIN; c->fd = int(t) - 1000; yield_(); c->st = RUN; return 0; }
W(int, pthread_detach, (pthread_t)) { return 0; }
W(pthread_t, pthread_self, ()) { return w->cur + 1000; }
W(int, pthread_mutex_lock, (pthread_mutex_t* m)) { point(); Co* c = w->co[w->cur].get(); if (w->mx.count(m) && w->mx[m] == w->cur) { bad("self-deadlock", "a thread locks a mutex it holds"); finish_(); } while (w->mx.count(m)) { c->st = MUTEX; c->obj = m; yield_(); } c->st = RUN; w->mx[m] = w->cur; return 0; }
W(int, pthread_mutex_trylock, (pthread_mutex_t* m)) { point(); if (w->mx.count(m)) return EBUSY; w->mx[m] = w->cur; return 0; }
W(int, pthread_mutex_unlock, (pthread_mutex_t* m)) { if (!w->mx.count(m) || w->mx[m] != w->cur) bad("unlock", "a mutex is unlocked by a thread that does not hold it"); w->mx.erase(m); if (finer) point(); return 0; }
W(int, pthread_cond_wait, (pthread_cond_t* q, pthread_mutex_t* m)) { w->mx.erase(m); Co* c = w->co[w->cur].get(); c->st = COND; c->obj = q; yield_(); c->st = RUN; while (w->mx.count(m)) { c->st = MUTEX; c->obj = m; yield_(); } c->st = RUN; w->mx[m] = w->cur; return 0; }
W(int, pthread_cond_broadcast, (pthread_cond_t* q)) { for (auto& c : w->co) if (c->st == COND && c->obj == q) c->st = RUN; point(); return 0; }
W(int, pthread_cond_signal, (pthread_cond_t* q)) { for (auto& c : w->co) if (c->st == COND && c->obj == q) { c->st = RUN; break; } point(); return 0; }
W(void, exit, (int code)) { ending(); w->exit_code = code; finish_(); for (;;) {} }
W(void, _exit, (int code)) { __wrap_exit(code); }
W(void, abort, ()) { bad("abort", "the server aborts"); finish_(); for (;;) {} }
W(void, __assert_fail, (const char*, const char*, unsigned, const char*)) { __wrap_abort(); }
// memory
W(void*, malloc, (size_t n)) { char* p = (char*)malloc(n + 32); for (size_t i = 0; i < (n + 32) / 4; ++i) ((uint32_t*)p)[i] = w->cf->fill; memset(p + n, 0x5a, 32); w->mem[p] = {n, true}; return p; }
static void check_block(char* p, Block& b) { for (int i = 0; i < 32; ++i) if (p[b.n + i] != 0x5a) { bad("overflow", "writes past the end of a block of " + to_string(b.n) + " bytes"); return; } }
W(void, free, (void* q)) { if (!q) return; auto it = w->mem.find((char*)q); if (it == w->mem.end() || !it->second.live) { bad("double-free", "memory is freed twice"); return; } check_block((char*)q, it->second); it->second.live = false; memset(q, 0xdd, it->second.n); }
W(void*, calloc, (size_t n, size_t k)) { void* p = __wrap_malloc(n * k); memset(p, 0, n * k); return p; }
W(void*, realloc, (void* q, size_t n)) { void* p = __wrap_malloc(n); if (q) { auto it = w->mem.find((char*)q); if (it == w->mem.end() || !it->second.live) { bad("double-free", "freed memory is resized"); return p; } memcpy(p, q, min(n, it->second.n)); __wrap_free(q); } return p; }
W(char*, strdup, (const char* s)) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); memcpy(p, s, n); return p; }
// sockets
W(int, socket, (int, int, int)) { return 5; }
W(int, setsockopt, (int, int, int, const void*, socklen_t)) { return 0; }
W(int, bind, (int, const struct sockaddr*, socklen_t)) { return 0; }
W(int, getsockname, (int, struct sockaddr*, socklen_t*)) { return 0; }
W(int, listen, (int, int)) { w->listening = true; return 0; }
W(int, accept, (int, struct sockaddr* a, socklen_t* l)) { point(); Co* c = w->co[w->cur].get(); while (w->backlog.empty()) { c->st = ACCEPT; yield_(); } c->st = RUN; int k = w->backlog.front(); w->backlog.pop_front(); w->cn[k].accepted = true; w->last = k; if (w->cf->key.empty()) w->cn[k].in = true; memset(a, 0, *l); return 10 + k; }
W(int, select, (int n, fd_set* r, fd_set*, fd_set*, struct timeval*)) { point(); int k = 0; for (int i = 0; i < n && i < 64; ++i) if (FD_ISSET(i, r)) { Conn* c = conn(i); if (c && readable(*c)) ++k; else FD_CLR(i, r); } return k; }
W(int, poll, (struct pollfd* p, nfds_t n, int)) { point(); int k = 0; for (nfds_t i = 0; i < n; ++i) { Conn* c = conn(p[i].fd); p[i].revents = c && readable(*c) ? POLLIN : 0; k += p[i].revents != 0; } return k; }
W(ssize_t, read, (int fd, void* b, size_t n)) {
  if (fd == 0) { if (w->stdin_line) { point(); w->stdin_line = false; } size_t k = 0; while (k < n && w->inpos < w->in.size()) { char ch = w->in[w->inpos++]; ((char*)b)[k++] = ch; if (ch == '\n') { w->stdin_line = true; break; } } if (!k) { w->stdin_line = true; int open = 0; for (auto& o : w->cn) open += o.started && !o.closed; bool left = false; for (size_t i = 0; i < w->cf->lines.size(); ++i) left = left || (!w->answered[i] && w->cf->lines[i] != "===SYNCH==="); w->co[w->cur]->must = left && open == 1; } return k; }
  Conn* c = conn(fd); if (!c || c->closed) { bad("read-closed", "reads from a descriptor that is not open"); errno = EBADF; return -1; } Co* t = w->co[w->cur].get(); while (!readable(*c)) { t->st = READ; t->fd = fd; yield_(); } t->st = RUN;
  if (c->pos < c->data.size()) { size_t k = min(n, c->data.size() - c->pos); memcpy(b, &c->data[c->pos], k); c->pos += k; return k; } if (c->err) { errno = c->err; c->err = 0; return -1; } return 0; }
static void pipe_(bool nosig) { if (!w->ignpipe && !nosig) { bad("sigpipe", "the server is killed by SIGPIPE when it writes to a client that is gone"); finish_(); } }
static ssize_t put_(int fd, const void* b, size_t n, bool nosig) { point(); if (fd == 1) { if (!w->outclosed) w->out.append((const char*)b, n); return n; } if (fd == 2) return n; Conn* c = conn(fd); if (!c || c->closed) { bad("write-closed", "writes to a descriptor that is not open"); errno = EBADF; return -1; }
  w->co[w->cur]->must = false; string s((const char*)b, n); if (s.size() && s.back() == '\n') for (size_t i = 0; i < w->cf->lines.size(); ++i) if (w->cf->lines[i] + "\n" == s) { int h = w->holder[i]; if (w->answered[i]) bad("handed-twice", "sentence " + to_string(i) + " is handed out again after its result came back"); else if (h >= 0 && h != fd - 10 && !w->cn[h].dead) bad("handed-twice", "sentence " + to_string(i) + " is handed to a second client while the first works on it"); if (c->asked.size() && !c->dead) bad("overtaken", "a client is handed a sentence before it answered the last one"); w->holder[i] = fd - 10; c->asked.insert(i); if (s == "===SYNCH===\n") bad("synch-handed", "a synchronisation line is handed to a client"); }
  if (c->err) { int e = c->err; c->err = 0; c->rst = true; if (e == EPIPE) pipe_(nosig); errno = e; return -1; } if (c->rst) { pipe_(nosig); errno = EPIPE; return -1; } if (c->dead) { c->rst = true; c->err = EPIPE; if (c->extra && c->pos < c->data.size()) for (size_t i = 0; i < w->cf->lines.size(); ++i) if (w->cf->lines[i] + "\n" == s) w->answered[i] = true; return n; } c->inbox += s; return n; }
W(ssize_t, write, (int fd, const void* b, size_t n)) { return put_(fd, b, n, false); }
W(ssize_t, send, (int fd, const void* b, size_t n, int f)) { return put_(fd, b, n, f & MSG_NOSIGNAL); }
W(ssize_t, recv, (int fd, void* b, size_t n, int)) { return __wrap_read(fd, b, n); }
W(int, close, (int fd)) { if (fd == 5) ending(); point(); if (fd == 5) { w->sclosed = true; return 0; } Conn* c = conn(fd); if (!c) return 0; if (c->closed) bad("close-twice", "a connection is closed twice"); if (!c->dead && c->started && w->co[w->cur]->must) bad("dismissed-early", "a client is dismissed although a sentence is left that nobody works on"); c->closed = true; return 0; }
typedef void (*H)(int);
W(H, signal, (int s, H h)) { if (s == SIGPIPE) w->ignpipe = h != SIG_DFL; return SIG_DFL; }
W(int, sigaction, (int s, const struct sigaction* a, struct sigaction*)) { if (s == SIGPIPE && a) w->ignpipe = a->sa_handler != SIG_DFL; return 0; }
W(unsigned, sleep, (unsigned)) { point(); return 0; }
W(int, usleep, (useconds_t)) { point(); return 0; }
W(int, sched_yield, ()) { point(); return 0; }
// standard output and messages
static int text(FILE* f, const char* s, size_t n) { if (f == stdout && !w->outclosed) w->out.append(s, n); return n; }
W(int, fputs, (const char* s, FILE* f)) { return text(f, s, strlen(s)); }
W(int, puts, (const char* s)) { text(stdout, s, strlen(s)); return text(stdout, "\n", 1); }
W(int, fputc, (int c, FILE* f)) { char b = c; text(f, &b, 1); return c; }
W(int, putc, (int c, FILE* f)) { return __wrap_fputc(c, f); }
W(int, putchar, (int c)) { return __wrap_fputc(c, stdout); }
W(size_t, fwrite, (const void* p, size_t a, size_t b, FILE* f)) { text(f, (const char*)p, a * b); return b; }
W(int, fprintf, (FILE* f, const char* fmt, ...)) { if (f != stdout) return 0; va_list v; va_start(v, fmt); char b[4096]; int n = vsnprintf(b, sizeof b, fmt, v); va_end(v); return text(f, b, n); }
W(int, printf, (const char* fmt, ...)) { va_list v; va_start(v, fmt); char b[4096]; int n = vsnprintf(b, sizeof b, fmt, v); va_end(v); return text(stdout, b, n); }
W(int, fflush, (FILE*)) { return 0; }
W(int, fclose, (FILE* f)) { if (f == stdout) { ending(); w->outclosed = true; } return 0; }
W(void, perror, (const char*)) {}
}
// ---- the clients: what they can do now
static bool has_line(Conn& c) { return c.inbox.find('\n') != string::npos; }
static size_t acted[8];
static Act next_act(int k) { auto& s = w->cf->clients[k]; return acted[k] < s.acts.size() ? s.acts[acted[k]] : REPLY; }
static bool can(int k) { Conn& c = w->cn[k]; if (!w->listening || c.dead) return false; if (!c.connected) return true; if (c.closed && !has_line(c)) return false; auto& s = w->cf->clients[k]; if (acted[k] >= s.acts.size() && !s.healthy) return false; switch (next_act(k)) { case DIE_IDLE: case RST_IDLE: return true; default: return has_line(c) && !c.closed; } }
static string take_line(Conn& c) { size_t p = c.inbox.find('\n'); string l = c.inbox.substr(0, p); c.inbox.erase(0, p + 1); return l; }
static int line_id(const string& l) { for (size_t i = 0; i < w->cf->lines.size(); ++i) if (w->cf->lines[i] == l) return i; return -1; }
static void does(int k) { Conn& c = w->cn[k]; auto& s = w->cf->clients[k]; if (!c.connected) { c.connected = true; w->backlog.push_back(k); c.data = s.hello; if (!w->cf->key.empty()) c.in = s.hello == w->cf->key + "\n"; return; }
  Act a = next_act(k); ++acted[k]; auto die = [&](bool rst) { c.dead = true; if (rst || c.inbox.size()) { c.err = ECONNRESET; } }; string l; if (a != DIE_IDLE && a != RST_IDLE) { l = take_line(c); if (line_id(l) < 0) bad("garbled", "a client is sent '" + l + "'"); }
  switch (a) { case REPLY: case EXTRA_FIN: { c.data += reply(k, l, w->cf->multi); int i = line_id(l); if (i >= 0) { w->answered[i] = true; c.asked.erase(i); } if (a == EXTRA_FIN) { c.data += "extra\n"; c.extra = true; die(false); } break; } case DIE_IDLE: die(false); break; case RST_IDLE: die(true); break; case DIE_GOT: die(false); break; case RST_GOT: die(true); break; case PART_FIN: case PART_RST: c.data += reply(k, l, w->cf->multi).substr(0, 3); die(a == PART_RST); break; } }
// ---- the server image
struct Image { char* lo; size_t n; vector<char> snap; int (*main)(int, char**); }; static vector<Image> imgs; static int (*server)(int, char**);
static void load(const char* file) { void* h = dlopen(file, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); } server = (int (*)(int, char**))dlsym(h, "main"); static string f; f = file; dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { if (f == i->dlpi_name) { uintptr_t rlo = 0, rhi = 0; for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = (rlo + i->dlpi_phdr[k].p_memsz) & ~4095ul; } for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) { uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz; if (rhi > lo && rlo <= lo) lo = rhi; if (lo < hi) imgs.push_back({(char*)lo, hi - lo, vector<char>((char*)lo, (char*)hi), 0}); } } return 0; }, 0); }
static string what(const Conf& c) { static const char* N[] = {"reply", "leave", "take a sentence and leave", "reset", "take a sentence and reset", "half a reply and leave", "half a reply and reset", "reply, an extra line and leave"}; string t = "lines:"; for (auto& l : c.lines) t += " '" + l + "'"; if (!c.nl) t += " (no final newline)"; t += string(c.stay ? " --stay-alive" : "") + (c.multi ? " -m" : "") + (c.key.empty() ? "" : " -k " + c.key) + " memory " + to_string(c.fill); for (size_t k = 0; k < c.clients.size(); ++k) { t += "; client " + to_string(k) + ":"; if (c.clients[k].hello.size()) t += " says '" + c.clients[k].hello + "'"; for (Act a : c.clients[k].acts) t += string(" ") + N[a] + ","; t += c.clients[k].healthy ? " then answers" : " then nothing"; } return t; }
// one execution following the plan; returns the trace
static string execute(const Conf& cf, World* W_) { w = W_; w->cf = &cf; w->cn.resize(cf.clients.size()); for (auto& l : cf.lines) w->in += l + "\n"; if (!cf.nl && w->in.size()) w->in.pop_back(); w->holder.assign(cf.lines.size(), -1); w->answered.assign(cf.lines.size(), false); fill(acted, acted + 8, 0); for (auto& i : imgs) memcpy(i.lo, i.snap.data(), i.n); picks.clear(); pre = 0; string trace;
  static vector<string> args; static vector<char*> av; args = {"sentserver"}; if (cf.multi) args.push_back("-m"); if (!cf.key.empty()) { args.push_back("-k"); args.push_back(cf.key); } if (cf.stay) args.push_back("--stay-alive"); args.push_back("1234"); av.clear(); for (auto& a : args) av.push_back(&a[0]); av.push_back(0);
  w->co.emplace_back(new Co()); Co* c = w->co[0].get(); if (stacks.empty()) stacks.push_back((char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); c->stack = stacks[0]; c->st = RUN; c->fn = [](void*) -> void* { server(int(args.size()), av.data()); return 0; }; c->arg = 0; getcontext(&c->c); c->c.uc_stack.ss_sp = c->stack; c->c.uc_stack.ss_size = STK; c->c.uc_link = &home; makecontext(&c->c, (void (*)())+[] { Co* c = w->co[w->cur].get(); c->fn(c->arg); w->exit_code = 0; finish_(); }, 0);
  for (;;) { if (w->over || !w->bad.empty()) break; if (++w->points > 20000) { bad("livelock", "no end"); break; } int ch[64], n = 0, me = w->cur; const bool mine = enabled(*w->co[me]); if (mine) ch[n++] = me; for (size_t i = 1; i <= w->co.size(); ++i) { int k = (me + i) % w->co.size(); if (k != me && enabled(*w->co[k])) ch[n++] = k; } for (size_t k = 0; k < w->cn.size(); ++k) if (can(k)) ch[n++] = 100 + k; if (!n) break;
    int m = mine && pre >= preemptions ? 1 : n, q = 0; if (m > 1) { size_t i = picks.size(); if (i < plan.size()) q = plan[i]; if (q >= m) q = m - 1; picks.push_back({q, m}); } if (mine && q) ++pre; int t = ch[q]; if (t >= 100) { trace += " c" + to_string(t - 100); does(t - 100); continue; } if (t != w->cur) trace += " t" + to_string(t); w->cur = t; Co* o = w->co[t].get(); if (o->st != COND && o->st != OVER) swapcontext(&home, &o->c); }
  return trace; }
static void verdict(const Conf& cf) { if (!w->bad.empty()) return; for (auto& b : w->mem) if (b.second.live) check_block(b.first, b.second);
  // how much of the output is right
  size_t pos = 0, ok = 0; for (size_t i = 0; i < cf.lines.size(); ++i) { bool hit = false; if (cf.lines[i] == "===SYNCH===") { if (w->out.compare(pos, 12, "===SYNCH===\n") == 0) { pos += 12; hit = true; } } else for (size_t k = 0; k < cf.clients.size(); ++k) { string r = reply(k, cf.lines[i], cf.multi); if (w->cn[k].extra && w->out.compare(pos, 6, "extra\n") == 0) r = "extra\n"; if (w->out.compare(pos, r.size(), r) == 0 && w->answered[i]) { pos += r.size(); hit = true; break; } } if (!hit) break; ++ok; }
  if (pos != w->out.size()) return bad("output", "the output is '" + w->out + "'"); const bool all = ok == cf.lines.size(); bool ever = false, live = false; for (auto& c : w->cn) { ever = ever || (c.accepted && c.in); live = live || (c.started && c.in && !c.dead && !c.closed); }
  if (w->exit_code == 0 && !all) return bad("incomplete", "the server ends successfully after '" + w->out + "'"); if (w->exit_code == 0) return;
  if (w->exit_code == 1) { if (cf.stay) return bad("gave-up", "the server gives up although it was told to stay alive"); if (w->live_at_end == 1) return bad("gave-up", "the server gives up although a client is connected"); if (all) return bad("gave-up", "the server reports failure although every result was written"); return; }
  if (w->exit_code >= 0) return bad("status", "exit status " + to_string(w->exit_code)); string st; for (size_t i = 0; i < w->co.size(); ++i) st += " thread " + to_string(i) + ":" + to_string(w->co[i]->st); if (all && ever) return bad("no-end", "the server does not end although every result was written;" + st); if (live) return bad("stuck", "nothing happens any more although a client is connected; output '" + w->out + "';" + st); if (ever && !cf.stay) return bad("hang", "all clients are gone and the server neither ends nor gives up; output '" + w->out + "';" + st); }
static void explore(vc::X& x, const Conf& cf, int p, uint64_t limit) { if (!x.take()) return; x.desc([=] { return what(cf); }); preemptions = p; plan.clear(); uint64_t n = 0; set<uint64_t> ends; bool complete = true;
  for (;;) { World W_; string trace = execute(cf, &W_); verdict(cf); ++n; x.step(); ends.insert(vc::hstr(W_.out + to_string(W_.exit_code))); for (auto& b : W_.mem) free(b.first); if (!W_.bad.empty()) { x.fail(W_.badkey, W_.bad + "; schedule:" + trace); break; }
    plan.clear(); for (auto& q : picks) plan.push_back(q.c); int i = int(plan.size()) - 1; while (i >= 0 && plan[i] + 1 >= picks[i].n) --i; if (i < 0) break; plan.resize(i + 1); ++plan[i]; if (n >= limit) { complete = false; break; } }
  if (n > 1) x.nontrivial(); x.stat("schedules", n); x.stat("max_preemptions_" + to_string(p)); if (!complete) x.stat("cut_at_limit"); for (auto e : ends) x.state(e ^ vc::hstr(what(cf))); }
static void schedules(vc::X& x, bool th) {
  finer = th;
  const S L = {"a b", "c", "d e f"}; const uint64_t LIM = th ? 20000 : 12000; vector<Script> K; auto add = [&](vector<Act> a, bool h) { K.push_back({a, h, ""}); };
  add({}, true); for (Act a : {DIE_IDLE, DIE_GOT, RST_IDLE, RST_GOT, PART_FIN, PART_RST, EXTRA_FIN}) { add({a}, false); if (a == EXTRA_FIN) continue; add({REPLY, a}, false); add({REPLY, REPLY, a}, false); }
  const int NK = K.size(); auto conf = [&](int n, vector<Script> c) { Conf f; f.lines.assign(L.begin(), L.begin() + n); f.clients = c; return f; };
  // one and two clients, then three
  for (int n = 0; n <= 3; ++n) for (int a = 0; a < NK; ++a) { for (uint32_t fill : {0u, 1u, 2u}) for (int st = 0; st < 2; ++st) for (int m = 0; m < 2; ++m) { Conf f = conf(n, {K[a]}); f.fill = fill; f.stay = st; f.multi = m; f.nl = !(fill == 1); if (m && (find(K[a].acts.begin(), K[a].acts.end(), EXTRA_FIN) != K[a].acts.end() || find(K[a].acts.begin(), K[a].acts.end(), PART_FIN) != K[a].acts.end())) continue; explore(x, f, th ? 3 : 2, LIM); } }
  for (int n = 1; n <= 3; ++n) for (int a = 0; a < NK; ++a) for (int b = a; b < NK; ++b) { Conf f = conf(n, {K[a], K[b]}); f.fill = (a + b) % 3; if (!th && n == 3 && (a + b) % 2) continue; const int p = th ? 2 : (a * 3 + b + n) % (n == 1 ? 5 : 17) ? 1 : 2; explore(x, f, p, LIM); if ((a + b + n) % (th ? 1 : 4) == 0) { f.stay = true; explore(x, f, th ? 2 : 1, LIM); } }
  for (int n = 1; n <= 3; ++n) for (int a = 0; a < NK; ++a) for (int b = a; b < NK; ++b) for (int c = b; c < NK; ++c) { if ((!th && n == 3) || (a + 2 * b + 3 * c + n) % (th ? 5 : 40)) continue; Conf f = conf(n, {K[a], K[b], K[c]}); f.stay = (a + b + c) % 4 == 0; f.fill = (a + b) % 3; explore(x, f, th ? 1 : 0, LIM); }
  // synchronisation lines, memory in every state
  const string Y = "===SYNCH==="; for (uint32_t fill : {0u, 1u, 2u}) for (auto& ls : vector<S>{{Y}, {"a b", Y}, {Y, "a b"}, {"a b", Y, "c"}, {Y, Y}, {"a b", Y, Y, "c"}}) for (int a = 0; a < NK; a += th ? 1 : 3) for (int b = -1; b <= a; b += th ? 1 : 4) { Conf f; f.lines = ls; f.fill = fill; f.clients = {K[a]}; if (b >= 0) f.clients.push_back(K[b]); explore(x, f, th ? 2 : 1, LIM); }
  // keys
  for (auto& h : S{"sesame\n", "wrong\n", "", "sesam", "sesame\nx", "\n", "sesame extra\n"}) for (int a = 0; a < NK; a += th ? 1 : 2) for (int b = 0; b < 2; ++b) { Conf f = conf(2, {K[a]}); f.key = "sesame"; f.clients[0].hello = h; if (h.size() && h.back() != '\n') { if (h == "sesame\nx") continue; f.clients[0].acts = {DIE_IDLE}; f.clients[0].healthy = false; } if (b) { f.clients.push_back({{}, true, "sesame\n"}); } explore(x, f, th ? 2 : 1, LIM); }
  // long lines
  for (size_t n : {78, 79, 80, 81, 82, 159, 160, 161, 400}) { Conf f; f.lines = {string(n, 'z'), "c"}; f.clients = {{{}, true, ""}}; explore(x, f, 1, LIM); f.clients.push_back({{DIE_GOT}, false, ""}); explore(x, f, 1, LIM); } }
// ---- the real programs over the loopback network
static string slurp(int fd) { string t; char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) t.append(b, k); return t; }
static void programs(vc::X& x, bool th) {
  const char* HOW[] = {"while read l; do echo \"R:$l\"; done", "read l; echo \"R:$l\"", "read l; echo \"R:$l\"; read l", "read l; echo \"R:$l\"; read l; printf 'R:'", "true"}; const vector<vector<int>> CL = {{0}, {0, 0}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {0, 2, 3, 4, 0}, {1, 1, 1, 0}, {4}, {2}};
  for (int n : {0, 1, 3, th ? 200 : 30}) for (size_t c = 0; c < CL.size(); ++c) for (int key = 0; key < 2; ++key) { if (!th && key && c % 3) continue; if (!x.take()) continue; x.desc([=] { string t = "real server and clients: " + to_string(n) + " sentences" + (key ? " with a key" : "") + ", clients:"; for (int k : CL[c]) t += string(" [") + HOW[k] + "]"; return t; }); x.nontrivial(); x.step();
      string in = x.dir + "/in", out = x.dir + "/out", want; { ofstream o(in.c_str()); for (int i = 0; i < n; ++i) { o << "sentence " << i << "\n"; want += "R:sentence " + to_string(i) + "\n"; } } int pe[2]; if (pipe2(pe, O_CLOEXEC)) continue; string sv = getenv("VC_SENTSERVER"), cv = getenv("VC_SENTCLIENT");
      pid_t s = fork(); if (!s) { dup2(open(in.c_str(), O_RDONLY), 0); dup2(open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 1); dup2(pe[1], 2); if (key) execl(sv.c_str(), "sentserver", "-k", "open sesame", "0", (char*)0); else execl(sv.c_str(), "sentserver", "0", (char*)0); _exit(127); } close(pe[1]); string e; char ch; int port = -1; while (read(pe[0], &ch, 1) == 1) { e += ch; if (ch == '\n') { size_t p = e.find("Listening on port "); if (p != string::npos) { port = atoi(e.c_str() + p + 18); break; } } } fcntl(pe[0], F_SETFL, O_NONBLOCK);
      vector<pid_t> cl; if (port > 0) for (int k : CL[c]) { pid_t q = fork(); if (!q) { int nl = open("/dev/null", O_RDWR); dup2(nl, 2); string at = "127.0.0.1:" + to_string(port) + (key ? ":open sesame" : ""); execl(cv.c_str(), "sentclient", at.c_str(), "sh", "-c", HOW[k], (char*)0); _exit(127); } cl.push_back(q); }
      int st = 0; bool ended = false; for (int i = 0; i < 4000 && !ended; ++i) { ended = waitpid(s, &st, WNOHANG) == s; slurp(pe[0]); if (!ended) usleep(5000); } if (!ended) { kill(s, SIGKILL); waitpid(s, &st, 0); } close(pe[0]); for (pid_t q : cl) { for (int i = 0; i < 400; ++i) { if (waitpid(q, 0, WNOHANG) == q) { q = -1; break; } usleep(5000); } if (q > 0) { kill(q, SIGKILL); waitpid(q, 0, 0); } }
      ifstream f(out.c_str()); string got((istreambuf_iterator<char>(f)), istreambuf_iterator<char>()); bool survivor = find(CL[c].begin(), CL[c].end(), 0) != CL[c].end(); if (!x.check(ended && WIFEXITED(st), "real-end", [&] { return string(ended ? "the server is killed by signal " + to_string(WTERMSIG(st)) : "the server does not end"); })) continue; const int code = WEXITSTATUS(st);
      x.check(code == 0 ? got == want : code == 1 && got != want && want.compare(0, got.size(), got) == 0, "real-output", [&] { return "exit " + to_string(code) + ", output '" + got + "'"; }); if (code) x.stat("real_gave_up"); (void)survivor; x.state(vc::hstr(got)); } }
static void run_all(vc::X& x) { signal(SIGPIPE, SIG_IGN); load(getenv("VC_SERVER_SO")); schedules(x, x.thorough); programs(x, x.thorough); }
VC_MAIN(run_all)
