// Controlled scheduler: every synchronisation operation of the code under test is a scheduling point, one thread runs
// at a time, and explore() enumerates all schedules within a preemption bound.  Memory accesses (compiled in with
// -fsanitize=thread, but with the runtime in sched.cc) are checked for data races by vector clocks in each schedule.
#ifndef VC_SCHED_H_
#define VC_SCHED_H_
#include <functional>
#include <string>
#include <stdint.h>
namespace sched {
struct Options { int preemptions = 2;  /* deviations from running on (and, with delay, from round robin when a thread blocks) */ bool delay = false; int faults = 0; bool atomic_points = true; bool races = true; uint64_t max_execs = 200000; uint64_t max_points = 100000; };
struct Result { uint64_t execs = 0, points = 0; bool complete = true; std::string error, kind, trace; int max_threads = 0; };
// body runs once per schedule (as thread 0) and returns an error message or "".  Stops at the first failing schedule.
Result explore(const Options& o, const std::function<std::string()>& body, const std::function<void()>& tick);
void note(const std::string& s);  // adds to the trace of the current schedule
int self();                       // controlled thread number, -1 outside
void pin(int shard);               // keep this process to one processor
void point();                     // an explicit scheduling point
}
#endif
