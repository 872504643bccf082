#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <map>
#include <vector>
#include <sstream>
namespace sched {
enum { MAXT = 24 };
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum St { RUN, B_MUTEX, B_SEM, B_COND, B_JOIN, DONE, B_GUARD };
struct Thr { int id; volatile int gate; St st; void* obj; void* obj2; int joinee; VC vc; void* (*fn)(void*); void* arg; void* ret; pthread_t real; bool joined; };
struct Mx { int owner = -1; int depth = 0; VC vc; };
struct Sm { long count = 0; VC vc; };
struct At { VC vc; };
static volatile bool g_on = false;   // a schedule is running
static __thread int t_id = -1;
static Thr* g_thr[MAXT]; static int g_n = 0; static int g_cur = 0;
static std::map<void*, Mx>* g_mx; static std::map<void*, Sm>* g_sm; static std::map<void*, At>* g_at; static std::map<void*, int>* g_guard;
static std::map<pthread_t, int>* g_real;
static Options g_o; static std::vector<int> g_plan; struct Pick { int chosen, n; }; static std::vector<Pick>* g_picks; static int g_pre, g_flt; static uint64_t g_points;
static std::string* g_err; static std::string* g_kind; static std::string* g_trace; static volatile bool g_abort = false; static jmp_buf g_jmp;
static void fwait(volatile int* g) { while (__atomic_load_n(g, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, g, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(g, 0, __ATOMIC_RELEASE); }
static void fwake(volatile int* g) { __atomic_store_n(g, 1, __ATOMIC_RELEASE); syscall(SYS_futex, g, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
struct Off { int id; Off() : id(t_id) { t_id = -1; } ~Off() { t_id = id; } };  // runtime code itself is not controlled
template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
static bool on() { return g_on && t_id >= 0; }
static bool enabled(Thr* t) {
  switch (t->st) {
    case RUN: return true;
    case B_MUTEX: { auto it = g_mx->find(t->obj); return it == g_mx->end() || it->second.owner < 0; }
    case B_SEM: { auto it = g_sm->find(t->obj); return it != g_sm->end() && it->second.count > 0; }
    case B_JOIN: return g_thr[t->joinee]->st == DONE;
    case B_GUARD: { auto it = g_guard->find(t->obj); return it == g_guard->end() || it->second != 1; }
    default: return false;
  }
}
static void park_forever() { for (;;) { volatile int z = 0; syscall(SYS_futex, &z, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); } }
// stop the schedule with an error: hand control back to thread 0
static void stop(int me, const std::string& kind, const std::string& msg) {
  if (g_kind->empty()) { *g_kind = kind; *g_err = msg; }
  g_abort = true;
  if (me == 0) longjmp(g_jmp, 1);
  fwake(&g_thr[0]->gate); park_forever();
}
static int pick(int n) { // the next recorded decision
  int c = 0; size_t i = g_picks->size(); if (i < g_plan.size()) c = g_plan[i]; if (c >= n) c = n - 1; g_picks->push_back({c, n}); return c; }
static std::string where() { std::ostringstream o; static const char* N[] = {"running", "waiting for mutex", "waiting for semaphore", "waiting for condition", "joining", "finished", "waiting for static"}; for (int i = 0; i < g_n; ++i) { o << " thread " << i << ": " << N[g_thr[i]->st]; if (g_thr[i]->st == B_JOIN) o << " " << g_thr[i]->joinee; o << ";"; } return o.str(); }
// give up the processor; returns when this thread runs again
static void resched(int me) {
  if (g_abort) { if (me == 0) longjmp(g_jmp, 1); park_forever(); }
  if (++g_points > g_o.max_points) stop(me, "livelock", "no end after " + std::to_string(g_o.max_points) + " scheduling points;" + where());
  int en[MAXT], n = 0; bool mine = enabled(g_thr[me]); if (mine) en[n++] = me; for (int j = 1; j < g_n; ++j) { int i = (me + j) % g_n; if (enabled(g_thr[i])) en[n++] = i; }
  if (!n) { bool all = true; for (int i = 0; i < g_n; ++i) if (g_thr[i]->st != DONE) all = false; if (all) return; stop(me, "deadlock", "deadlock:" + where()); }
  int m = (mine || g_o.delay) && g_pre >= g_o.preemptions ? 1 : n; int c = m > 1 ? pick(m) : 0; if ((mine || g_o.delay) && c) ++g_pre; int nx = en[c];
  if (nx != me) { if (g_trace) { char b[32]; snprintf(b, sizeof b, " >%d", nx); *g_trace += b; } g_cur = nx; bool fin = g_thr[me]->st == DONE; fwake(&g_thr[nx]->gate); if (fin) return; fwait(&g_thr[me]->gate); if (g_abort) { if (me == 0) longjmp(g_jmp, 1); park_forever(); } }
}
static void block(int me, St s, void* o) { Thr* t = g_thr[me]; t->st = s; t->obj = o; resched(me); t->st = RUN; }
static void tick(int me) { g_thr[me]->vc.c[me]++; }
// ---- shadow memory ----
struct RE { int8_t t; uint8_t m; Clk c; };
struct Cell { uintptr_t k; uint32_t ep; int8_t wt; uint8_t wm; Clk wc; void* wpc; RE r[4]; void* rpc; };
static Cell* g_sh; static size_t g_shn = 0, g_used = 0; static uint32_t g_ep = 1; static uintptr_t* g_keys; static size_t g_nk = 0, g_ck = 0;
static Cell* cell(uintptr_t k, bool mk) {
  if (!g_sh) { g_shn = 1 << 16; g_sh = (Cell*)calloc(g_shn, sizeof(Cell)); }
  if (mk && g_used * 2 > g_shn) { Cell* o = g_sh; size_t on = g_shn; g_shn *= 2; g_sh = (Cell*)calloc(g_shn, sizeof(Cell)); g_used = 0; g_nk = 0; for (size_t i = 0; i < on; ++i) if (o[i].ep == g_ep) { Cell* c = cell(o[i].k, true); *c = o[i]; } free(o); }
  size_t h = (k * 0x9E3779B97F4A7C15ull) >> 20 & (g_shn - 1);
  for (;; h = (h + 1) & (g_shn - 1)) { Cell* c = &g_sh[h]; if (c->ep != g_ep) { if (!mk) return 0; if (g_nk == g_ck) { g_ck = g_ck ? g_ck * 2 : 4096; g_keys = (uintptr_t*)realloc(g_keys, g_ck * sizeof *g_keys); } g_keys[g_nk++] = k; memset(c, 0, sizeof *c); c->k = k; c->ep = g_ep; c->wt = -1; for (auto& r : c->r) r.t = -1; ++g_used; return c; } if (c->k == k) return c; }
}
static std::string sym(void* pc) { char exe[256], cmd[512]; ssize_t n = readlink("/proc/self/exe", exe, 255); exe[n > 0 ? n : 0] = 0; Dl_info d; if (!dladdr(pc, &d)) return "?"; snprintf(cmd, sizeof cmd, "addr2line -Cfe %s %lx 2>/dev/null", exe, (unsigned long)((char*)pc - (char*)d.dli_fbase) - 1); FILE* p = popen(cmd, "r"); std::string o; char b[300]; while (p && fgets(b, sizeof b, p)) { o += b; } if (p) pclose(p); for (auto& c : o) if (c == '\n') c = ' '; return o; }
static void race(int me, const char* a, int other, const char* b, void* pc, void* opc) {
  if (!g_kind->empty()) return; Off off; bool was = g_on; g_on = false; *g_kind = "race"; *g_err = std::string("data race: ") + a + " by thread " + std::to_string(me) + " at " + sym(pc) + "conflicts with unordered " + b + " by thread " + std::to_string(other) + " at " + sym(opc); g_on = was; }
static void access8(uintptr_t k, uint8_t m, bool w, void* pc) {
  int me = t_id; Cell* c = cell(k, true); VC& v = g_thr[me]->vc;
  if (c->wt >= 0 && c->wt != me && (c->wm & m) && c->wc > v.c[c->wt]) race(me, w ? "write" : "read", c->wt, "write", pc, c->wpc);
  if (w) { for (auto& r : c->r) if (r.t >= 0 && r.t != me && (r.m & m) && r.c > v.c[r.t]) race(me, "write", r.t, "read", pc, c->rpc);
    if (c->wt == me && c->wc == v.c[me]) c->wm |= m; else { c->wt = me; c->wm = m; c->wc = v.c[me]; } c->wpc = pc; }
  else { RE* s = 0; for (auto& r : c->r) if (r.t == me) s = &r; if (!s) for (auto& r : c->r) if (r.t < 0) { s = &r; break; } if (!s) { s = &c->r[me & 3]; s->t = -1; } if (s->t == me && s->c == v.c[me]) s->m |= m; else { s->t = me; s->m = m; s->c = v.c[me]; } c->rpc = pc; }
}
static inline void mem(void* p, size_t n, bool w, void* pc) {
  if (!on() || !g_o.races) return;
  uintptr_t a = (uintptr_t)p, e = a + n; while (a < e) { uintptr_t k = a >> 3; unsigned lo = a & 7, hi = (e - (k << 3) < 8) ? e - (k << 3) : 8; access8(k, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), w, pc); a = (k + 1) << 3; }
}
static void clear_range(uintptr_t, uintptr_t);
static void clear(void* p, size_t n) { if (!g_sh) return; if (n > 4096) { clear_range((uintptr_t)p, (uintptr_t)p + n - 1); return; } uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; for (; a < e; ++a) { Cell* c = cell(a, false); if (c) { c->wt = -1; for (auto& r : c->r) r.t = -1; } } }
static void clear_range(uintptr_t lo, uintptr_t hi) { for (size_t i = 0; i < g_nk; ++i) if (g_keys[i] >= lo >> 3 && g_keys[i] <= hi >> 3) { Cell* c = cell(g_keys[i], false); if (c) { c->wt = -1; for (auto& r : c->r) r.t = -1; } } }
// ---- operations ----
static void op_point() { Off off; resched(off.id); }
void point() { if (on()) op_point(); }
int self() { return g_on ? t_id : -1; }
void note(const std::string& s) { if (g_trace) *g_trace += " " + s; }
static void sync_at(void* a, int mo, bool acq, bool rel) { Off off; int me = off.id; VC& v = g_thr[me]->vc; At& s = (*g_at)[a]; bool A = acq && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME), R = rel && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST); if (A) v.join(s.vc); if (R) { s.vc.join(v); tick(me); } }
static void lock_mx(int me, void* m) { Mx* x = &(*g_mx)[m]; while (x->owner >= 0 && x->owner != me) { block(me, B_MUTEX, m); x = &(*g_mx)[m]; } x->owner = me; ++x->depth; g_thr[me]->vc.join(x->vc); }
static bool unlock_mx(int me, void* m) { Mx& x = (*g_mx)[m]; if (x.owner != me) return false; if (--x.depth == 0) { x.owner = -1; x.vc = g_thr[me]->vc; tick(me); } return true; }
static void* entry(void* a) {
  Thr* t = (Thr*)a; fwait(&t->gate); if (g_abort) park_forever(); t_id = t->id; t->ret = t->fn(t->arg);
  { Off off; if (g_o.races) { pthread_attr_t a; void* lo; size_t sz; if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a); clear_range((uintptr_t)lo, (uintptr_t)lo + sz - 1); } } t->st = DONE; tick(t->id); off.id = -1; resched(t->id); }
  return t->ret;
}
static int create(int me, pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  Thr* t = new Thr(); t->id = g_n; t->gate = 0; t->st = RUN; t->fn = fn; t->arg = arg; t->vc = g_thr[me]->vc; t->joined = false; if (g_n >= MAXT) { fprintf(stderr, "too many threads\n"); abort(); } t->vc.c[t->id] = 1; tick(me);
  static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); int rc = r(th, at, entry, t); if (rc) { delete t; return rc; }
  t->real = *th; g_thr[g_n++] = t; (*g_real)[*th] = t->id; return 0;
}
// handing over between threads is fastest on one processor; so each shard keeps to one
void pin(int who) { cpu_set_t a, b; if (sched_getaffinity(0, sizeof a, &a)) return; int n = CPU_COUNT(&a), k = who % n; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &a) && k-- == 0) { CPU_ZERO(&b); CPU_SET(i, &b); sched_setaffinity(0, sizeof b, &b); } }
Result explore(const Options& o, const std::function<std::string()>& body, const std::function<void()>& tk) {
  Result R; g_o = o; g_plan.clear();
  for (;;) {
    for (int i = 0; i < g_n; ++i) { delete g_thr[i]; } g_n = 0;
    g_mx = new std::map<void*, Mx>; g_sm = new std::map<void*, Sm>; g_at = new std::map<void*, At>; g_guard = new std::map<void*, int>; g_real = new std::map<pthread_t, int>; g_picks = new std::vector<Pick>; g_err = new std::string; g_kind = new std::string; g_trace = new std::string;
    g_pre = g_flt = 0; g_points = 0; g_abort = false; ++g_ep; g_used = 0; g_nk = 0;
    Thr* t = new Thr(); t->id = 0; t->gate = 0; t->st = RUN; t->vc.c[0] = 1; t->real = pthread_self(); t->joined = false; g_thr[0] = t; g_n = 1; g_cur = 0;
    std::string e;
    if (!setjmp(g_jmp)) { t_id = 0; g_on = true; e = body(); { Off off; t->st = DONE; bool live = false; for (int i = 1; i < g_n; ++i) if (g_thr[i]->st != DONE) live = true; if (live) { t->st = B_COND; for (;;) { bool rest = false; for (int i = 1; i < g_n; ++i) if (g_thr[i]->st != DONE) rest = true; if (!rest) break; t->st = B_JOIN; for (int i = 1; i < g_n; ++i) if (g_thr[i]->st != DONE) { t->joinee = i; break; } resched(0); } t->st = DONE; e = e.empty() ? "threads still running at the end" : e; } off.id = -1; } }
    g_on = false; t_id = -1;
    R.execs++; R.points += g_points; if (g_n > R.max_threads) R.max_threads = g_n; if (tk) tk();
    if (!g_kind->empty() || !e.empty()) { R.kind = g_kind->empty() ? "result" : *g_kind; R.error = g_kind->empty() ? e : *g_err; std::ostringstream s; s << "schedule (thread switches):" << *g_trace << "; choices:"; for (auto& p : *g_picks) s << ' ' << p.chosen; R.trace = s.str(); if (g_abort) g_n = 0; R.complete = false; return R; }
    // next plan
    g_plan.clear(); for (auto& p : *g_picks) g_plan.push_back(p.chosen); int i = (int)g_plan.size() - 1; while (i >= 0 && g_plan[i] + 1 >= (*g_picks)[i].n) --i;
    delete g_mx; delete g_sm; delete g_at; delete g_guard; delete g_real; delete g_err; delete g_kind; delete g_trace; std::vector<Pick>* pk = g_picks; g_trace = 0;
    if (i < 0) { delete pk; return R; } g_plan.resize(i + 1); g_plan[i]++; delete pk;
    if (R.execs >= o.max_execs) { R.complete = false; return R; }
  }
}
}  // namespace sched
using namespace sched;
extern "C" {
void __libc_free(void*);
void free(void* p) { if (p && g_on && t_id >= 0) { size_t n = malloc_usable_size(p); clear(p, n); } __libc_free(p); }
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) { if (!on()) { static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return r(th, at, fn, arg); } Off off; return create(off.id, th, at, fn, arg); }
int pthread_join(pthread_t th, void** ret) { static auto r = real<int (*)(pthread_t, void**)>("pthread_join"); if (!on()) return r(th, ret); Off off; int me = off.id; auto it = g_real->find(th); if (it == g_real->end()) return r(th, ret); int k = it->second; resched(me); while (g_thr[k]->st != DONE) { g_thr[me]->joinee = k; block(me, B_JOIN, 0); } g_thr[me]->vc.join(g_thr[k]->vc); g_real->erase(th); return r(th, ret); }
static bool trusted(void* pc) { static uintptr_t lo = 0, hi = 0; if (!lo) { lo = 1; FILE* f = fopen("/proc/self/maps", "r"); char b[600]; while (f && fgets(b, sizeof b, f)) if (strstr(b, "libboost_thread") || strstr(b, "libstdc++")) { unsigned long x, y; if (sscanf(b, "%lx-%lx", &x, &y) == 2) { if (lo == 1 || x < lo) lo = x; if (y > hi) hi = y; } } if (f) fclose(f); } return (uintptr_t)pc >= lo && (uintptr_t)pc < hi; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m); } void* pc = __builtin_return_address(0); Off off; int me = off.id; if (!trusted(pc)) resched(me); lock_mx(me, m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); } Off off; int me = off.id; resched(me); Mx& x = (*g_mx)[m]; if (x.owner >= 0 && x.owner != me) return EBUSY; lock_mx(me, m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!on()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); } Off off; int me = off.id; if (!unlock_mx(me, m)) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (on()) { Off off; g_mx->erase(m); } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m); } Off off; int me = off.id;
  if (g_flt < g_o.faults && pick(2)) { ++g_flt; unlock_mx(me, m); resched(me); lock_mx(me, m); return 0; }
  unlock_mx(me, m); Thr* t = g_thr[me]; t->obj2 = m; t->st = B_COND; t->obj = c; resched(me); t->st = RUN; lock_mx(me, m); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!on()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return r(c, m, ts); } Off off; int me = off.id; unlock_mx(me, m); resched(me); lock_mx(me, m); return ETIMEDOUT; }
static int sig(void* c, bool all) { Off off; int me = off.id; resched(me); std::vector<Thr*> w; for (int i = 0; i < g_n; ++i) if (g_thr[i]->st == B_COND && g_thr[i]->obj == c) w.push_back(g_thr[i]); if (w.empty()) return 0; VC& v = g_thr[me]->vc; if (all) { for (auto t : w) { t->st = B_MUTEX; t->obj = t->obj2; t->vc.join(v); } } else { Thr* t = w[w.size() > 1 ? pick(w.size()) : 0]; t->st = B_MUTEX; t->obj = t->obj2; t->vc.join(v); } tick(me); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c); } return sig(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c); } return sig(c, true); }
int sem_init(sem_t* s, int sh, unsigned v) { if (!on()) { static auto r = real<int (*)(sem_t*, int, unsigned)>("sem_init"); return r(s, sh, v); } Off off; Sm& x = (*g_sm)[s]; x.count = v; x.vc = VC(); return 0; }
int sem_destroy(sem_t* s) { if (!on()) { static auto r = real<int (*)(sem_t*)>("sem_destroy"); return r(s); } Off off; g_sm->erase(s); return 0; }
int sem_post(sem_t* s) { if (!on()) { static auto r = real<int (*)(sem_t*)>("sem_post"); return r(s); } Off off; int me = off.id; resched(me); auto it = g_sm->find(s); if (it == g_sm->end()) { stop(me, "lifetime", "semaphore used after its destruction"); } it->second.count++; it->second.vc.join(g_thr[me]->vc); tick(me); return 0; }
int sem_wait(sem_t* s) { if (!on()) { static auto r = real<int (*)(sem_t*)>("sem_wait"); return r(s); } Off off; int me = off.id; resched(me); if (g_flt < g_o.faults && pick(2)) { ++g_flt; errno = EINTR; return -1; } Sm* x = &(*g_sm)[s]; while (x->count <= 0) { block(me, B_SEM, s); auto it = g_sm->find(s); if (it == g_sm->end()) stop(me, "lifetime", "semaphore destroyed while waited for"); x = &it->second; } x->count--; g_thr[me]->vc.join(x->vc); return 0; }
int sem_trywait(sem_t* s) { if (!on()) { static auto r = real<int (*)(sem_t*)>("sem_trywait"); return r(s); } Off off; int me = off.id; resched(me); Sm& x = (*g_sm)[s]; if (x.count <= 0) { errno = EAGAIN; return -1; } x.count--; g_thr[me]->vc.join(x.vc); return 0; }
int sched_yield() { if (on()) op_point(); return 0; }
// OpenMP critical sections and barriers
void GOMP_critical_name_start(void** p) { if (!on()) return; Off off; resched(off.id); lock_mx(off.id, p); }
void GOMP_critical_name_end(void** p) { if (!on()) return; Off off; unlock_mx(off.id, p); }
static void* g_crit; static void* g_atom;
void GOMP_critical_start() { GOMP_critical_name_start(&g_crit); }
void GOMP_critical_end() { GOMP_critical_name_end(&g_crit); }
// statics
int __vc_ga(uint64_t*) __asm__("__cxa_guard_acquire"); void __vc_gr(uint64_t*) __asm__("__cxa_guard_release"); void __vc_gb(uint64_t*) __asm__("__cxa_guard_abort");
int __vc_ga(uint64_t* g) { if (*(volatile char*)g) { if (on()) sync_at(g, __ATOMIC_ACQUIRE, true, false); return 0; } if (!on()) return 1; Off off; int me = off.id; for (;;) { if (*(volatile char*)g) { g_thr[me]->vc.join((*g_at)[g].vc); return 0; } int& s = (*g_guard)[g]; if (s != 1) { s = 1; return 1; } block(me, B_GUARD, g); } }
void __vc_gr(uint64_t* g) { *(volatile char*)g = 1; if (on()) { sync_at(g, __ATOMIC_RELEASE, false, true); Off off; (*g_guard)[g] = 2; } }
void __vc_gb(uint64_t* g) { if (on()) { Off off; (*g_guard)[g] = 0; } }
// instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* p) { mem(p, n, false, PC); } void __tsan_write##n(void* p) { mem(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { mem(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { mem(p, n, true, PC); } void __tsan_volatile_read##n(void* p) { } void __tsan_volatile_write##n(void* p) { }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { mem(p, 8, false, PC); }
void __tsan_read_range(void* p, long n) { mem(p, n, false, PC); }
void __tsan_write_range(void* p, long n) { mem(p, n, true, PC); }
#define PT if (on() && g_o.atomic_points && mo == __ATOMIC_SEQ_CST) op_point()
#define SY(a, r) if (on()) sync_at((void*)p, mo, a, r)
#define ATOM(n, T) \
T __tsan_atomic##n##_load(const volatile T* p, int mo) { PT; SY(true, false); return *p; } \
void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { PT; SY(false, true); *p = v; } \
T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { PT; SY(true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) { PT; SY(true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) { PT; SY(true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) { PT; SY(true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) { PT; SY(true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo) { PT; SY(true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { PT; SY(true, true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) { PT; SY(true, true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// a small OpenMP runtime on controlled threads
struct Loop { long next, end, incr, chunk; int left; VC vc; };
struct Team { int n; int barrier_in; uint64_t gen; std::map<int, Loop> loops; std::map<int, bool> singles; std::map<int, int> seen; };
struct Member { Team* t; int num; int nloop; int nsingle; void (*fn)(void*); void* data; };
static __thread Member* t_mem = 0;
static void* member_main(void* a) { Member* m = (Member*)a; t_mem = m; m->fn(m->data); t_mem = 0; return 0; }
int omp_get_thread_num() { return t_mem ? t_mem->num : 0; }
int omp_get_num_threads() { return t_mem ? t_mem->t->n : 1; }
int omp_get_max_threads() { return 1; }
int omp_in_parallel() { return t_mem && t_mem->t->n > 1; }
int omp_get_num_procs() { return 1; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  if (n == 0 || !on() || t_mem) n = 1;
  Team t; t.n = n; t.barrier_in = 0; t.gen = 0; Member* outer = t_mem; std::vector<Member> m(n); for (unsigned i = 0; i < n; ++i) m[i] = Member{&t, (int)i, 0, 0, fn, data};
  std::vector<pthread_t> th(n); for (unsigned i = 1; i < n; ++i) if (pthread_create(&th[i], 0, member_main, &m[i])) abort();
  t_mem = &m[0]; fn(data); for (unsigned i = 1; i < n; ++i) pthread_join(th[i], 0); t_mem = outer;
}
static bool loop_next(long* a, long* b) { Member* m = t_mem; if (on()) op_point(); Loop& l = m->t->loops[m->nloop]; if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false; *a = l.next; long e = l.next + l.incr * l.chunk; if (l.incr > 0 ? e > l.end : e < l.end) e = l.end; *b = e; l.next = e; return true; }
static Member g_solo_m; static Team g_solo_t;
static bool loop_start(long s, long e, long i, long c, long* a, long* b) { if (!t_mem) { g_solo_t.n = 1; g_solo_t.loops.clear(); g_solo_m = Member{&g_solo_t, 0, 0, 0, 0, 0}; t_mem = &g_solo_m; } Member* m = t_mem; ++m->nloop; { Off off; if (!m->t->loops.count(m->nloop)) m->t->loops[m->nloop] = Loop{s, e, i, c < 1 ? 1 : c, 0, VC()}; } return loop_next(a, b); }
void GOMP_barrier() { Member* m = t_mem; if (!m || m->t->n == 1 || !on()) return; Off off; int me = off.id; resched(me); Team* t = m->t; At& v = (*g_at)[t]; v.vc.join(g_thr[me]->vc); tick(me); if (++t->barrier_in == t->n) { t->barrier_in = 0; ++t->gen; for (int i = 0; i < g_n; ++i) if (g_thr[i]->st == B_COND && g_thr[i]->obj == t) g_thr[i]->st = RUN; } else { Thr* x = g_thr[me]; x->st = B_COND; x->obj = t; resched(me); x->st = RUN; } g_thr[me]->vc.join((*g_at)[t].vc); }
void GOMP_loop_end_nowait() { if (t_mem == &g_solo_m) t_mem = 0; }
void GOMP_loop_end() { if (t_mem == &g_solo_m) { t_mem = 0; return; } GOMP_barrier(); }
bool GOMP_single_start() { Member* m = t_mem; if (!m) return true; Off off; bool& s = m->t->singles[++m->nsingle]; if (s) return false; return s = true; }
void GOMP_atomic_start() { GOMP_critical_name_start(&g_atom); }
void GOMP_atomic_end() { GOMP_critical_name_end(&g_atom); }
#define LOOPS(k) \
bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
bool GOMP_loop_##k##_next(long* a, long* b) { return loop_next(a, b); } \
bool GOMP_loop_ull_##k##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return loop_start(s, e, i, c, (long*)a, (long*)b); } \
bool GOMP_loop_ull_##k##_next(unsigned long long* a, unsigned long long* b) { return loop_next((long*)a, (long*)b); } \
void GOMP_parallel_loop_##k(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned f) { struct A { void (*fn)(void*); void* d; long s, e, i, c; static void go(void* x) { A* a = (A*)x; Member* m = t_mem; { Off off; if (!m->t->loops.count(1)) m->t->loops[1] = Loop{a->s, a->e, a->i, a->c < 1 ? 1 : a->c, 0, VC()}; m->nloop = 1; } a->fn(a->d); } } a = {fn, data, s, e, i, c}; GOMP_parallel(&A::go, &a, n, f); }
LOOPS(dynamic) LOOPS(nonmonotonic_dynamic) LOOPS(guided) LOOPS(nonmonotonic_guided) LOOPS(static) LOOPS(runtime) LOOPS(nonmonotonic_runtime) LOOPS(maybe_nonmonotonic_runtime)
}
