// Deterministic cooperative scheduler: one thread of the program runs at a time; which one is decided by a seeded
// generator at every synchronization operation and (the code under test being compiled with -fsanitize=thread and linked
// with stubs of the __tsan_* entry points) at memory accesses.  Time is virtual.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
namespace sched {
struct Options {
  uint64_t seed = 1;
  uint64_t max_steps = 3000000;     // memory accesses + synchronization operations before the run counts as stuck
  bool spurious = true;             // condition variables may wake up spuriously
  bool early_timeouts = true;       // the virtual clock may jump to the next deadline although threads are runnable
  int64_t tick_ns = 1000;           // how far the clock moves per reading (random in [0, 2 * tick))
  bool mem = true;                  // preempt at memory accesses
};
// Runs `f` as thread 0 under the scheduler and then waits for every thread it created.
// `stuck(kind, detail)` is called (in whatever thread notices) instead of returning when the run cannot finish:
// "deadlock", "livelock", "use-after-free", "bad-unlock", "crash"; it must not return normally (the process then exits).
void Run(const Options& o, const std::function<void()>& f,
         const std::function<void(const char*, const std::string&)>& stuck);
bool Active();
int Tid();
void Point();                                             // a possible preemption
uint64_t Rand(uint64_t n);                                // uniform in [0, n), from the schedule's generator
int64_t NowNs();
int64_t WallNs();
void SetWall(int64_t ns);                                 // the wall clock may be set arbitrarily by the environment (NowNs() is steady)
bool Block(const void* key, int64_t deadline_ns = -1);    // true: woken, false: timeout
void Wake(const void* key, bool all = true);
uint64_t Steps();
uint64_t Switches();
size_t ArenaUsed();   // memory is never reused within a process: drivers stop and are restarted when this grows large
void Name(const char*);                                   // names the calling thread in reports
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
void Fail(const char* kind, const std::string& detail);
}
