// Bounded exhaustive exploration driver shared by all harnesses.
//
// A harness defines   void vc_run(vc::X& x)   which deterministically enumerates a finite space.
// For every element it calls x.take(); when that returns true, this process owns the element
// ("case"), runs the real code on it, compares with the reference and reports through
// x.check()/x.fail().  The driver forks N shards (case index modulo N), watches for crashes,
// aborts and hangs, re-executes every failing case alone before reporting it, and merges counts.
#ifndef VC_H_
#define VC_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <functional>
#include <fstream>
#include <iostream>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>

namespace vc {

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 31; h *= 0x7fb5d329728ea185ULL; h ^= h >> 27;
  return h;
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h, s.size());
}
inline uint64_t hdbl(double d) { long long q = (d > 1e15 || d < -1e15 || d != d) ? 77 : llround(d * 1e6); return (uint64_t)q; }

inline bool close(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  if (a != a || b != b) return a != a && b != b;
  if (std::isinf(a) || std::isinf(b)) return false;
  double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * m;
}
template <class T> std::string str(const std::vector<T>& v) {
  std::ostringstream o; o << '['; for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i]; o << ']'; return o.str();
}

struct Shared {  // one per shard, in shared memory
  volatile uint64_t cur;       // case being executed (index+1), 0 none
  volatile uint64_t progress;  // bumps
  volatile uint64_t done;
};

class X {
 public:
  bool thorough = false;
  std::string dir;  // scratch directory of this shard (exists, private)
  int shard = 0, nshards = 1;
  int64_t only = -1;
  uint64_t skip_until = 0;
  uint64_t next = 0;        // next case index
  uint64_t cur = 0;
  Shared* sh = nullptr;
  uint64_t evaluations = 0, transitions = 0, nontriv = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, uint64_t> stats;   // extra counters, summed over shards
  std::vector<std::string> samples;
  struct Fail { uint64_t id; std::string key, msg; };
  std::vector<Fail> fails;
  std::set<std::string> failkeys;
  std::string desc_;
  bool cur_nontriv = false;

  bool take() {
    uint64_t id = next++;
    if (only >= 0) { if ((int64_t)id != only) return false; }
    else if (id < skip_until || (int)(id % nshards) != shard) return false;
    cur = id; cur_nontriv = false; descf_ = nullptr;
    if (sh) { sh->cur = id + 1; ++sh->progress; }
    ++evaluations;
    return true;
  }
  // description of the current case (cheap to call: only kept when needed)
  bool want_desc() const { return only >= 0 || samples.size() < 2; }
  template <class F> void desc(F f) {
    if (only >= 0) { desc_ = f(); fprintf(stderr, "CASE %llu: %s\n", (unsigned long long)cur, desc_.c_str()); fflush(stderr); }
    descf_ = [f]() { return f(); };
    // keep two early and a few spread-out samples
    if (only < 0 && samples.size() < 4 && (evaluations == 1 || evaluations == 37 || evaluations == 1009 || evaluations == 20011)) samples.push_back(f());
  }
  void step(uint64_t n = 1) { transitions += n; if (sh) ++sh->progress; }
  void state(uint64_t h) { if (states.size() < 3000000) states.insert(h); }
  void nontrivial() { if (!cur_nontriv) { cur_nontriv = true; ++nontriv; } }
  void stat(const std::string& k, uint64_t n = 1) { stats[k] += n; }
  // report a property violation of the current case.  key identifies the kind of failure.
  void fail(const std::string& key, const std::string& msg) {
    if (only >= 0) { fprintf(stderr, "FAIL %s: %s\n", key.c_str(), msg.c_str()); fflush(stderr); }
    stats["failures"]++;
    if (failkeys.count(key) || fails.size() >= 40) return;
    failkeys.insert(key);
    std::string m = msg;
    if (descf_) m = descf_() + "\n  => " + msg;
    fails.push_back({cur, key, m});
  }
  bool check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); return ok; }
  bool check(bool ok, const std::string& key, const char* msg) { if (!ok) fail(key, msg); return ok; }
  template <class F> bool check(bool ok, const std::string& key, F f) { if (!ok) fail(key, f()); return ok; }
 private:
  std::function<std::string()> descf_;
};

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '\\') o += "\\\\"; else if (c == '"') o += "\\\""; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c;
  }
  return o;
}

inline void write_json(X& x, const std::string& path) {
  std::ofstream o(path.c_str());
  o << "{\"evaluations\":" << x.evaluations << ",\"transitions\":" << x.transitions << ",\"nontrivial\":" << x.nontriv
    << ",\"cases\":" << x.next << ",\"stats\":{";
  bool f = true;
  for (auto& kv : x.stats) { o << (f ? "" : ",") << '"' << esc(kv.first) << "\":" << kv.second; f = false; }
  o << "},\"samples\":["; f = true;
  for (auto& s : x.samples) { o << (f ? "" : ",") << '"' << esc(s.substr(0, 1200)) << '"'; f = false; }
  o << "],\"fails\":["; f = true;
  for (auto& e : x.fails) { o << (f ? "" : ",") << "{\"id\":" << e.id << ",\"key\":\"" << esc(e.key) << "\",\"msg\":\"" << esc(e.msg.substr(0, 6000)) << "\"}"; f = false; }
  o << "]}\n";
  o.close();
  std::ofstream b((path + ".states").c_str(), std::ios::binary);
  for (uint64_t s : x.states) b.write((const char*)&s, 8);
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Config {
  int hang_s = 60;             // no progress for so long = hang
  size_t mem_mb = 6000;        // address space limit of each shard (half of it in the quick tier, where eight of them must fit)
  bool quiet = true;
  int max_shards = 64;
};

inline void redirect(const std::string& file) {
  int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
  dup2(fd, 1); dup2(fd, 2); ::close(fd);
}

typedef void (*RunFn)(X&);

// usage: prog --tier T --out DIR [--shards N] | --only K
inline int drive(int argc, char** argv, RunFn run, Config cfg = Config()) {
  std::string tier = "quick", out = "."; int n = 8; int64_t only = -1; int shard = -1; uint64_t skip = 0;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") tier = v; else if (a == "--out") out = v; else if (a == "--shards") n = atoi(v.c_str());
    else if (a == "--only") only = atoll(v.c_str()); else if (a == "--shard") shard = atoi(v.c_str());
    else if (a == "--skip") skip = strtoull(v.c_str(), 0, 10);
  }
  if (n > cfg.max_shards) n = cfg.max_shards;
  if (tier != "thorough") cfg.mem_mb /= 2;
  signal(SIGPIPE, SIG_IGN);
  struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
  mkdir(out.c_str(), 0700);
  if (only >= 0) {  // replay a single case, output visible
    X x; x.thorough = tier == "thorough"; x.only = only; x.dir = out + "/only"; mkdir(x.dir.c_str(), 0700);
    if (cfg.mem_mb) { struct rlimit r = {cfg.mem_mb << 20, cfg.mem_mb << 20}; setrlimit(RLIMIT_AS, &r); }
    run(x);
    write_json(x, out + "/only.json");
    return x.fails.empty() ? 0 : 1;
  }
  Shared* sh = (Shared*)mmap(0, sizeof(Shared) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared) * n);
  std::vector<pid_t> pid(n, 0); std::vector<int> restarts(n, 0), parts(n, 0); std::vector<uint64_t> lastp(n, 0), from(n, 0);
  std::vector<double> lastt(n, 0);
  std::ofstream crash((out + "/crashes.txt").c_str());
  auto start = [&](int s, uint64_t skipto) {
    std::ostringstream base; base << out << "/shard" << s << "." << parts[s]++;
    fflush(0);
    sh[s].cur = 0; lastt[s] = now(); lastp[s] = sh[s].progress;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      if (cfg.quiet) redirect(base.str() + ".log");
      X x; x.thorough = tier == "thorough"; x.shard = s; x.nshards = n; x.sh = &sh[s]; x.skip_until = skipto;
      x.dir = base.str() + ".d"; mkdir(x.dir.c_str(), 0700);
      if (cfg.mem_mb) { struct rlimit r = {cfg.mem_mb << 20, cfg.mem_mb << 20}; setrlimit(RLIMIT_AS, &r); }
      // shard logs must not fill the disk
      struct rlimit fs = {1u << 30, 1u << 30}; setrlimit(RLIMIT_FSIZE, &fs);
      run(x);
      write_json(x, base.str() + ".json");
      sh[s].done = 1;
      _exit(0);
    }
    pid[s] = p; from[s] = skipto;
  };
  for (int s = 0; s < n; ++s) start(s, 0);
  int live = n;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(20000);
      double t = now();
      for (int s = 0; s < n; ++s) if (pid[s]) {
        if (sh[s].progress != lastp[s]) { lastp[s] = sh[s].progress; lastt[s] = t; }
        else if (t - lastt[s] > cfg.hang_s) { kill(-pid[s], SIGKILL); kill(pid[s], SIGKILL); lastt[s] = t + 1e9; }
      }
      continue;
    }
    for (int s = 0; s < n; ++s) if (pid[s] == p) {
      kill(-p, SIGKILL);
      pid[s] = 0;
      bool hang = lastt[s] > now() + 1e8;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[s].done) { --live; break; }
      uint64_t c = sh[s].cur;
      crash << s << ' ' << parts[s] - 1 << ' ' << (c ? (long long)(c - 1) : -1LL) << ' ' << (hang ? "hang" : WIFSIGNALED(st) ? "signal" : "exit")
            << ' ' << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ' ' << from[s] << std::endl;
      if (c == 0 || ++restarts[s] > 2) { --live; break; }
      start(s, c);  // continue after the crashing case
      break;
    }
  }
  return 0;
}

}  // namespace vc

#define VC_MAIN(run) int main(int argc, char** argv) { return vc::drive(argc, argv, run); }
#endif
