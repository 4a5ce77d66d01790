// Programs over Owned / Borrowed / BorrowedWithCallback handles, run under the scheduler.
// Thread 0 owns; prog = {"own": [[op,...] for thread 0], "threads": [[op...],...]}: ops are applied to the thread's own slots.
//   ["use",h] ["valid",h] ["copy",h,g] ["copycb",h,g] ["move",h,g] ["movecb",h,g] ["drop",h] ["excl",h] ["count",h] ["assign",h,g]
// thread 0 additionally: ["give",t] (borrow into slot 0 of thread t, before starting it), ["start",t], ["moveowner"], ["destroy"].
#include "conc.h"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include "bricks/sync/owned_borrowed.h"
using namespace conc;
struct Obj {
  int canary = 12345; int excl = 0;
  ~Obj() { canary = 0; Rec(E("dtor")); }
};
using W = current::sync::WeakBorrowed<Obj>;
using B = current::sync::Borrowed<Obj>;
using BC = current::sync::BorrowedWithCallback<Obj>;
using O = current::sync::Owned<Obj>;
struct Slot { std::unique_ptr<B> b; std::unique_ptr<BC> c; std::string id; W* w() { return b ? (W*)b.get() : (W*)c.get(); } };
struct T { Slot s[4]; std::thread th; int n = 0; std::mutex m; std::condition_variable cv; bool asked = false; };
static V Ev(const char* k, const std::string& h) { return E(k).set("h", h); }
static void Do(const V& o, T& me, int tid) {
  const std::string& op = o.a[0].s; const int h = (int)o.a[1].i; const int g = o.a.size() > 2 ? (int)o.a[2].i : 0;
  Slot& x = me.s[h];
  if (op == "await") {  // until asked to leave
    std::unique_lock<std::mutex> l(me.m); me.cv.wait(l, [&] { return me.asked; });
    return;
  }
  if (op == "use") { Rec(Ev("use", x.id)); int v = (*x.w())->canary; Rec(Ev("used", x.id).set("ok", v == 12345)); }
  else if (op == "excl") {
    Rec(Ev("excl", x.id));
    int peak = 0; x.w()->ExclusiveUse([&](Obj& q) { peak = ++q.excl; sched::Point(); if (q.excl > peak) peak = q.excl; --q.excl; });
    Rec(Ev("excled", x.id).set("ok", peak == 1));
  }
  else if (op == "valid") { Rec(Ev("valid", x.id)); bool v = *x.w(); Rec(Ev("validret", x.id).set("v", v)); }
  else if (op == "count") { Rec(Ev("count", x.id)); int v = (int)x.w()->NumberOfActiveBorrowers(); Rec(Ev("countret", x.id).set("v", v)); }
  else if (op == "copy" || op == "copycb") {
    Slot& y = me.s[g]; y.id = std::to_string(tid) + "." + std::to_string(++me.n);
    const std::string id = y.id;
    Rec(Ev("borrow", x.id).set("g", id).set("cb", op == "copycb"));
    if (op == "copy") y.b = std::make_unique<B>(*x.w()); else y.c = std::make_unique<BC>(*x.w(), [id] { Rec(Ev("cb", id)); });
    Rec(Ev("borrowed", id));
  } else if (op == "move" || op == "movecb") {
    Slot& y = me.s[g]; y.id = std::to_string(tid) + "." + std::to_string(++me.n);
    const std::string id = y.id;
    Rec(Ev("move", x.id).set("g", id).set("cb", op == "movecb"));
    if (op == "move") { if (x.b) y.b = std::make_unique<B>(std::move(*x.b)); else y.b = std::make_unique<B>(std::move((W&)*x.c)); }
    else y.c = std::make_unique<BC>(std::move(*x.w()), [id] { Rec(Ev("cb", id)); });
    Rec(Ev("moved", id));
    x.b = nullptr; x.c = nullptr;  // destroying a moved-from handle has no effect
  } else if (op == "assign") {  // move assignment: over a handle which is held (and thus gets released), or over an empty one
    Slot& y = me.s[g]; const std::string id = std::to_string(tid) + "." + std::to_string(++me.n), old = y.id;
    const bool held = y.id != "";
    if (held) Rec(Ev("drop", old));
    Rec(Ev("move", x.id).set("g", id).set("cb", false));
    *y.b = std::move(*x.b); y.id = id;
    Rec(Ev("moved", id));
    if (held) Rec(Ev("dropped", old));
    x.b = nullptr; x.id = "";
  } else if (op == "drop") {
    Rec(Ev("drop", x.id)); x.b = nullptr; x.c = nullptr; Rec(Ev("dropped", x.id));
  } else if (op == "null") {
    Rec(Ev("drop", x.id)); if (x.b) *x.b = nullptr; else *x.c = nullptr;
    Rec(Ev("dropped", x.id)); x.id = "";
  }
}
static void Run(const V& prog) {
  std::vector<std::unique_ptr<T>> ts;
  for (auto& t : prog["threads"].a) { (void)t; ts.push_back(std::make_unique<T>()); }
  auto own = std::make_unique<O>();
  int k = 0;
  for (auto& o : prog["own"].a) {
    const std::string& op = o.a[0].s;
    if (op == "give" || op == "givecb") {
      T& t = *ts[o.a[1].i]; const std::string id = "o." + std::to_string(++k); t.s[0].id = id;
      Rec(Ev("borrow", "o").set("g", id).set("cb", op == "givecb"));
      if (op == "give") t.s[0].b = std::make_unique<B>(*own); else t.s[0].c = std::make_unique<BC>(*own, [id, &t] {
        Rec(Ev("cb", id));
        std::lock_guard<std::mutex> l(t.m); t.asked = true; t.cv.notify_all();
      });
      Rec(Ev("borrowed", id));
    } else if (op == "start") {
      const int i = (int)o.a[1].i; T* t = ts[i].get(); const V* p = &prog["threads"].a[i];
      t->th = std::thread([t, p, i] { for (auto& q : p->a) Do(q, *t, i); });
    } else if (op == "moveowner") {
      auto n = std::make_unique<O>(std::move(*own)); own = std::move(n);
    } else if (op == "use") { Rec(Ev("use", "o")); int v = (*own)->canary; Rec(Ev("used", "o").set("ok", v == 12345));
    } else if (op == "count") { Rec(Ev("count", "o")); int v = (int)own->NumberOfActiveBorrowers(); Rec(Ev("countret", "o").set("v", v));
    } else if (op == "destroy") { Rec(E("destroy")); own = nullptr; Rec(E("destroyed")); }
  }
  for (auto& t : ts) if (t->th.joinable()) t->th.join();
}
int main() { return Main(Run); }
