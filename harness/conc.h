// Common part of the drivers that run programs under the scheduler.
// stdin: one job per line {"id":..., "seed0":s, "n":k, "prog":{...}, "opt":{...}}; stdout: one line per distinct trace
// {"id","seed","ev":[...],"n":<how many schedules gave exactly this trace>} or {"id","seed","stuck":kind,"detail":...,"ev":[...]};
// at the end of a job {"id","done":n,"steps":...,"switches":...}.
#pragma once
#include <iostream>
#include <map>
#include <set>
#include <unistd.h>
#include "csched.h"
#include "mj.h"
namespace conc {
using mj::V;
inline V& Events() { static V v = V::arr(); return v; }
// Records an event of the run; never preempted inside.
#define Rec(...) do { sched::NoPreempt np_; conc::Events().push(__VA_ARGS__); } while (0)
inline V E(const char* k) { return V::obj().set("k", k); }
// `body(prog)` runs as thread 0 under the scheduler.
inline int Main(const std::function<void(const V&)>& body, const std::function<void()>& after_run = nullptr) {
  std::string line;
  Events();
  while (std::getline(std::cin, line)) {
    V job = mj::parse(line);
    const V prog = job["prog"];
    const long long s0 = job["seed0"].i, n = job["n"].i;
    std::map<std::string, std::pair<long long, long long>> seen;
    unsigned long long steps = 0, sw = 0;
    long long s = s0;
    for (; s < s0 + n; ++s) {
      sched::Options o;
      o.seed = (uint64_t)s;
      const V& jo = job["opt"];
      if (jo.has("max_steps")) o.max_steps = jo["max_steps"].i;
      if (jo.has("tick_ns")) o.tick_ns = jo["tick_ns"].i;
      if (jo.has("spurious")) o.spurious = jo["spurious"].i;
      if (jo.has("early")) o.early_timeouts = jo["early"].i;
      Events() = V::arr();
      sched::Run(o, [&] { body(prog); }, [&](const char* kind, const std::string& detail) {
        for (auto& x : seen) std::cout << "{\"id\":" << job["id"].i << ",\"seed\":" << x.second.first << ",\"n\":" << x.second.second << ",\"ev\":" << x.first << "}\n";
        std::cout << V::obj().set("id", job["id"]).set("seed", s).set("stuck", kind).set("detail", detail).set("ev", Events()).str() << std::endl;
        std::cout << V::obj().set("id", job["id"]).set("next", s + 1).set("steps", (long long)steps).str() << std::endl;
        _exit(77);
      });
      if (after_run) after_run();
      steps += sched::Steps(); sw += sched::Switches();
      auto& c = seen[Events().str()];
      if (!c.second) c.first = s;
      ++c.second;
      if (sched::ArenaUsed() > (600ull << 20)) { ++s; break; }
    }
    for (auto& x : seen) std::cout << "{\"id\":" << job["id"].i << ",\"seed\":" << x.second.first << ",\"n\":" << x.second.second << ",\"ev\":" << x.first << "}\n";
    V d = V::obj().set("id", job["id"]).set("steps", (long long)steps).set("switches", (long long)sw);
    if (s < s0 + n) { std::cout << d.set("next", s).str() << std::endl; return 0; }
    std::cout << d.set("done", s - s0).str() << std::endl;
    if (sched::ArenaUsed() > (300ull << 20)) return 0;
  }
  return 0;
}
}
