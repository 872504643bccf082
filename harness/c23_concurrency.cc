// C23: PCQueue, ThreadPool and stream Chain under every schedule within a preemption bound, with EINTR and data race checking.
#include "vc.h"
#include "vsched.h"
#include "util/pcqueue.hh"
#include "util/thread_pool.hh"
#include "util/stream/chain.hh"
#include "util/stream/stream.hh"
#include "util/stream/io.hh"
#include "util/file.hh"
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <memory>
using namespace std;
#define QUIET __attribute__((no_sanitize("thread")))
// The observers record without being seen by the race detector; one thread runs at a time.
struct Vec { pair<int, int> a[64]; int n = 0; QUIET const pair<int, int>* begin() const { return a; } QUIET const pair<int, int>* end() const { return a + n; } QUIET size_t size() const { return n; } QUIET const pair<int, int>& operator[](int i) const { return a[i]; } };
struct Log { Vec v; int in = 0, out = 0; QUIET __attribute__((noinline)) void add(int a, int b); QUIET __attribute__((noinline)) int begun() { return ++out; } QUIET __attribute__((noinline)) int done() { return ++in; } };
void Log::add(int a, int b) { if (v.n < 64) { v.a[v.n].first = a; v.a[v.n++].second = b; } }
static int g_throw_at = -1, g_copies = 0;  // the copy that throws
struct Boom {};
struct Item { int p, i; Item() : p(-1), i(-1) {} Item(int a, int b) : p(a), i(b) {} Item(const Item& o) : p(o.p), i(o.i) {} QUIET static bool boom() { return g_copies++ == g_throw_at; } Item& operator=(const Item& o) { if (boom()) throw Boom(); p = o.p; i = o.i; return *this; } };
typedef util::PCQueue<Item> Q;
static vc::X* X_; static string kind_count;
static bool go(const sched::Options& o, const string& key, function<string()> body) {
  vc::X& x = *X_; sched::Result r = sched::explore(o, body, [&] { x.step(); });
  x.stat("schedules", r.execs); x.stat("scheduling_points", r.points); if (!r.complete && r.kind.empty()) x.stat("incomplete_explorations"); else x.stat("complete_explorations");
  if (r.execs > 1) x.nontrivial(); x.state(vc::hstr(key, r.points));
  if (!r.kind.empty()) x.fail(r.kind + ":" + key.substr(0, key.find(' ')), r.error + "\nin schedule " + to_string(r.execs) + "; " + r.trace.substr(0, 3000));
  return r.kind.empty();
}
struct Fd { int a, b; };
static string queue_body(int np, int nc, int size, int items, int thr) {
  g_throw_at = thr; g_copies = 0;
  Q q(size); vector<unique_ptr<Log>> seen, sent; for (int i = 0; i < nc; ++i) seen.emplace_back(new Log); for (int i = 0; i < np; ++i) sent.emplace_back(new Log); Log cap; bool over = false; bool* ov = &over;
  struct P { static void run(Q* q, int p, int items, Log* l, Log* cap, int size, bool* over) { for (int i = 0; i < items; ++i) for (;;) { try { q->Produce(Item(p, i)); full(cap, size, over); l->add(p, i); break; } catch (Boom&) {} } }
    QUIET __attribute__((noinline)) static void full(Log* cap, int size, bool* over) { if (cap->done() > size + cap->out) *over = true; } };
  struct C { static void run(Q* q, int n, Log* l, Log* cap) { for (int i = 0; i < n; ++i) { Item it; cap->begun(); for (;;) { try { Item& r = q->Consume(it); if (&r != &it) l->add(-9, -9); break; } catch (Boom&) {} } l->add(it.p, it.i); } } };
  int total = np * items; vector<unique_ptr<boost::thread>> ts;
  for (int p = 0; p < np; ++p) ts.emplace_back(new boost::thread(boost::bind(&P::run, &q, p, items, sent[p].get(), &cap, size, ov)));
  for (int c = 1; c < nc; ++c) { int n = total / nc; ts.emplace_back(new boost::thread(boost::bind(&C::run, &q, n, seen[c].get(), &cap))); }
  C::run(&q, total - (nc - 1) * (total / nc), seen[0].get(), &cap);
  for (auto& t : ts) t->join();
  if (over) return "more items were accepted than the queue holds";
  set<pair<int, int>> got; size_t n = 0; for (auto& l : seen) { map<int, int> last; for (auto& e : l->v) { ++n; if (!got.insert(e).second) return "item " + to_string(e.first) + "/" + to_string(e.second) + " delivered twice"; if (last.count(e.first) && last[e.first] > e.second) return "items of producer " + to_string(e.first) + " delivered out of order"; last[e.first] = e.second; if (e.first < 0 || e.first >= np || e.second < 0 || e.second >= items) return "an item that was never produced was delivered"; } }
  if ((int)n != total || (int)got.size() != total) return "lost items: " + to_string(got.size()) + " of " + to_string(total);
  return "";
}
// ---- thread pool ----
struct Handler { typedef int Request; Log* l; explicit Handler(Log* log) : l(log) {} void operator()(int r) { l->add(r, sched::self()); } };
static string pool_body(int workers, int qlen, int items, bool via_in) {
  Log l; { util::ThreadPool<Handler> pool(qlen, workers, &l, -1); for (int i = 0; i < items; ++i) { if (via_in) pool.In().Produce(i); else pool.Produce(i); } }
  set<int> s; map<int, int> last; for (auto& e : l.v) { if (!s.insert(e.first).second) return "request " + to_string(e.first) + " handled twice"; if (e.first < 0 || e.first >= items) return "a request that was never made was handled"; if (last.count(e.second) && last[e.second] > e.first) return "a worker handled requests out of order"; last[e.second] = e.first; }
  if ((int)s.size() != items) return "the destructor returned with " + to_string(items - s.size()) + " requests not handled"; return "";
}
// ---- chains ----
using namespace util::stream;
struct Source { int n, fill; void Run(const ChainPosition& pos) { int next = 0, blk = 0; const int per = pos.GetChain().BlockSize() / sizeof(int); Link l(pos); while (next < n) { int* b = (int*)l->Get(); int k = min(n - next, fill < 0 ? per : (blk++ % 2));  for (int i = 0; i < k; ++i) b[i] = next++; l->SetValidSize(k * sizeof(int)); ++l; } l.Poison(); } };
struct SSource { int n; void Run(const ChainPosition& pos) { Stream s(pos); for (int i = 0; i < n; ++i, ++s) *(int*)s.Get() = i; s.Poison(); } };
struct Add { int k; void Run(const ChainPosition& pos) { for (Link l(pos); l; ++l) { int* b = (int*)l->Get(); for (size_t i = 0; i < l->ValidSize() / sizeof(int); ++i) b[i] += k; } } };
struct Filter { void Run(const ChainPosition& pos) { for (Link l(pos); l; ++l) { int* b = (int*)l->Get(); int* o = b; for (size_t i = 0; i < l->ValidSize() / sizeof(int); ++i) if (b[i] % 2 == 0) *o++ = b[i]; l->SetValidSize((char*)o - (char*)b); } } };
struct Sink { Log* l; void Run(const ChainPosition& pos) { for (Link k(pos); k; ++k) { int* b = (int*)k->Get(); for (size_t i = 0; i < k->ValidSize() / sizeof(int); ++i) l->add(b[i], 0); } } };
struct SSink { Log* l; void Run(const ChainPosition& pos) { for (Stream k(pos); k; ++k) l->add(*(int*)k.Get(), 0); } };
struct RSink : public Sink { int runs = 0; RSink(Log* g) { l = g; } void Run(const ChainPosition& p) { ++runs; Sink::Run(p); } };
struct CC { int blocks, per, n, fill, shape, runs; string str() const { ostringstream o; o << "shape " << shape << " blocks " << blocks << " of " << per << " records, " << n << " records, fill " << fill << ", runs " << runs; return o.str(); } };
static string chain_body(const CC& c, const string& dir) {
  Log l; vector<int> want; string err;
  { Chain ch(ChainConfig(sizeof(int), c.blocks, c.blocks * c.per * sizeof(int) + 3));
    if (ch.BlockSize() != c.per * sizeof(int)) return "block size " + to_string(ch.BlockSize());
    for (int r = 0; r < c.runs; ++r) {
      auto exp = [&](int add, bool even) { for (int i = 0; i < c.n; ++i) if (!even || (i + add) % 2 == 0) want.push_back(i + add); };
      switch (c.shape) {
        case 0: ch >> Source{c.n, c.fill} >> Sink{&l}; exp(0, false); break;
        case 1: ch >> Source{c.n, c.fill} >> Add{10} >> Sink{&l} >> kRecycle; exp(10, false); break;
        case 2: ch >> SSource{c.n} >> Filter() >> SSink{&l}; exp(0, true); break;
        case 3: { ch >> Source{c.n, c.fill}; Link k; ch >> k; ch.CompleteLoop(); for (; k; ++k) { int* b = (int*)k->Get(); for (size_t i = 0; i < k->ValidSize() / sizeof(int); ++i) l.add(b[i], 0); } exp(0, false); } break;
        case 4: { ch >> SSource{c.n} >> Filter(); { Stream k; ch >> k >> kRecycle; for (; k; ++k) l.add(*(int*)k.Get(), 0); } exp(0, true); } break;
        case 5: { util::scoped_fd f(util::MakeTemp(dir + "/c23")); ch >> Source{c.n, c.fill} >> WriteAndRecycle(f.get()); ch.Wait(r % 2 == 0); util::SeekOrThrow(f.get(), 0); ch >> PRead(f.get(), false) >> Sink{&l}; ch.Wait(); exp(0, false); } break;
        case 6: { RSink s(&l); ch >> Source{c.n, c.fill} >> boost::ref(s); ch.Wait(false); if (s.runs != 1) return "the referenced worker ran " + to_string(s.runs) + " times"; exp(0, false); } break;
        case 7: { Link w; ch >> w; ch >> Sink{&l}; ch.CompleteLoop(); int next = 0; while (next < c.n) { int k = min(c.n - next, c.per); for (int i = 0; i < k; ++i) ((int*)w->Get())[i] = next++; w->SetValidSize(k * sizeof(int)); ++w; } w.Poison(); exp(0, false); } break;
        case 8: { ch >> Source{c.n, c.fill} >> Filter() >> Add{1} >> Sink{&l}; for (int i = 0; i < c.n; i += 2) want.push_back(i + 1); } break;
      }
      if (r + 1 < c.runs) { ch.Wait(r % 2); if (ch.Running()) return "still running after Wait"; }
    }
  }
  vector<int> got; for (auto& e : l.v) got.push_back(e.first);
  if (got != want) return "the sink saw " + vc::str(got) + " instead of " + vc::str(want); return "";
}
// two chains joined by one worker reading both
struct Merge { Log* l; void Run(const ChainPosition& a, const ChainPosition& b) {} };
static string merge_body(int blocks, int n) {
  Log l; vector<int> want;
  { Chain a(ChainConfig(sizeof(int), blocks, blocks * sizeof(int))), b(ChainConfig(sizeof(int), blocks, blocks * 2 * sizeof(int)));
    a >> SSource{n}; b >> SSource{n}; Stream s, t; a >> s >> kRecycle; b >> t >> kRecycle; for (; s; ++s, ++t) { if (!t) return "second chain ended early"; l.add(*(int*)s.Get(), *(int*)t.Get()); } if (t) return "second chain too long"; }
  for (int i = 0; i < n; ++i) if ((int)l.v.size() != n || l.v[i] != make_pair(i, i)) return "the chains delivered the wrong records"; return "";
}
static void run(vc::X& x) {
  X_ = &x; sched::pin(x.shard); bool T = x.thorough; if (x.only < 0) { static ofstream nul("/dev/null"); cerr.rdbuf(nul.rdbuf()); }
  sched::Options o; o.max_execs = T ? 2000000 : 20000;
  // pre >= 0: that many preemptions, every order at blocking operations; pre < 0: -pre deviations from round robin of any kind
  auto cs = [&](const string& d, int pre, int faults, function<string()> b) { if (!x.take()) return; x.desc([=] { return d + ", " + (pre < 0 ? to_string(-pre) + " deviations from round robin, " : to_string(pre) + " preemptions, ") + to_string(faults) + " interrupted waits"; }); o.delay = pre < 0; o.preemptions = pre < 0 ? -pre : pre; o.faults = faults; go(o, d, b); };
  struct QC { int np, nc, size, items, pre; };
  vector<QC> qs = {{1, 1, 1, 2, 3}, {1, 1, 1, 3, 3}, {1, 1, 2, 3, 3}, {1, 1, 3, 4, 3}, {2, 1, 1, 1, 3}, {2, 1, 1, 2, 2}, {2, 1, 2, 1, 3}, {2, 1, 2, 2, 2}, {1, 2, 1, 2, 2}, {1, 2, 2, 2, 2}, {1, 2, 2, 4, 1}, {2, 2, 1, 1, 1}, {2, 2, 2, 1, 1}, {2, 2, 2, 2, 1}, {2, 2, 3, 2, 1}, {3, 1, 2, 1, 1}, {3, 1, 1, 1, 1}, {1, 3, 2, 3, 1}};
  for (auto q : qs) for (int f = 0; f < (q.np + q.nc > 3 ? 1 : 2); ++f) cs("queue " + to_string(q.np) + " producers " + to_string(q.nc) + " consumers size " + to_string(q.size) + " items " + to_string(q.items), q.np + q.nc > 3 ? -2 - T : q.pre - (f && q.pre > 1) + (T && q.np + q.nc < 4 ? 1 : 0), f, [=] { return queue_body(q.np, q.nc, q.size, q.items, -1); });
  for (auto q : qs) if (q.np * q.items <= 3) for (int t = 0; t < 2 * q.np * q.items; ++t) cs("queue-throwing " + to_string(q.np) + " producers " + to_string(q.nc) + " consumers size " + to_string(q.size) + " items " + to_string(q.items) + " copy " + to_string(t) + " throws", T ? 2 : 1, 0, [=] { return queue_body(q.np, q.nc, q.size, q.items, t); });
  for (int w = 1; w <= 3; ++w) for (int ql = 1; ql <= 2; ++ql) for (int n = 0; n <= 3; ++n) for (int f = 0; f < 2; ++f) { if (w == 3 && n > 2) continue; cs("pool " + to_string(w) + " workers queue " + to_string(ql) + " requests " + to_string(n), w == 1 ? 3 + T - f : w == 2 && n < 2 ? 2 + T - f : w == 3 && (f || n == 2) ? -1 - T : -2 - T, f, [=] { return pool_body(w, ql, n, n % 2); }); }
  string dir = x.dir;
  for (int shape = 0; shape < 9; ++shape) for (int blocks = 1; blocks <= 3; ++blocks) for (int per = 1; per <= 2; ++per) for (int n = 0; n <= 4; ++n) for (int fill = -1; fill <= 0; ++fill) for (int runs = 1; runs <= 2; ++runs) {
    if (fill == 0 && (shape == 2 || shape == 4 || shape == 7)) continue; if (fill == 0 && per == 1) continue; if (runs == 2 && n > 2) continue; if (n > 3 && blocks > 1) continue; if (shape == 4 && blocks == 1 && n == 0) continue;  // reading a Stream before the loop is closed needs a block to spare
    CC c{blocks, per, n, fill, shape, runs};
    bool three = shape == 1 || shape == 2 || shape == 8; int pre = runs == 1 && n * (fill == 0 ? 2 : 1) <= (three ? 1 : 2) && (!three || blocks < 3) && shape != 8 ? -2 : -1; if (T) --pre;
    cs("chain " + c.str(), pre, 0, [=] { return chain_body(c, dir); }); if (n == 1 && runs == 1 && fill < 0 && per == 1 && (blocks < 3 || !three)) cs("chain " + c.str(), -1 - T, 1, [=] { return chain_body(c, dir); }); }
  for (int blocks = 1; blocks <= 2; ++blocks) for (int n = blocks == 1; n <= 3; ++n) cs("two chains, blocks " + to_string(blocks) + ", records " + to_string(n), -1 - T - (n < 2), 0, [=] { return merge_body(blocks, n); });
}
VC_MAIN(run)
