// current::time::Now() / SleepUntil() from several threads while the environment moves the wall clock.
// prog = {"threads":[[["now"],["clock",us],["sleep",us],["rest",us],...],...]}; "clock" sets the wall clock (relative microseconds).
#include "conc.h"
#include <thread>
#include "bricks/time/chrono.h"
using namespace conc;
static long long base;  // microseconds
static long long T() { return sched::WallNs() / 1000 - base; }
static void Do(const V& o, int id) {
  const std::string& op = o.a[0].s; const long long v = o.a.size() > 1 ? o.a[1].i : 0;
  if (op == "clock") { sched::NoPreempt n; sched::SetWall((base + v) * 1000); Rec(E("clk").set("i", id).set("o", op).set("v", v).set("t", T()).set("f", 0)); return; }
  if (op == "rest") { std::this_thread::sleep_for(std::chrono::microseconds(v)); return; }
  Rec(E("c").set("i", id).set("o", op).set("v", v).set("t", T()).set("f", 0));
  long long f = 0;
  if (op == "now") f = current::time::Now().count() - base;
  else current::time::SleepUntil(std::chrono::microseconds(base + v));
  Rec(E("r").set("i", id).set("o", op).set("v", v).set("t", T()).set("f", f));
}
int main() {
  return Main([](const V& prog) {
    { sched::NoPreempt n; base = current::time::Now().count(); sched::SetWall(base * 1000); }
    std::vector<std::thread> ts;
    for (size_t i = 0; i < prog["threads"].a.size(); ++i) {
      const V* p = &prog["threads"].a[i];
      ts.emplace_back([p, i] { for (auto& o : p->a) Do(o, (int)i); });
    }
    for (auto& t : ts) t.join();
  });
}
