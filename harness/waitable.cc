// Programs over WaitableAtomic, plain or intrusive, under the scheduler.
// prog = {"intrusive":0/1, "clients":[1,..], "threads":[[["inc"],...],...], "destroy":0/1}
#include "conc.h"
#include <memory>
#include <thread>
#include "bricks/sync/waitable_atomic.h"
using namespace conc;
struct S { int a = 0; int b = 0; S() {} S(int x) : a(x), b(x) {} };
using PLAIN = current::WaitableAtomic<S>;
using INTR = current::WaitableAtomic<S, true>;
static long long T0;
static long long Now() { return (sched::NowNs() - T0) / 1000; }
struct Section {  // mutual exclusion of everything that touches the value
  static int inside; bool ok;
  Section() { ok = ++inside == 1; sched::Point(); ok = ok && inside == 1; }
  ~Section() { --inside; }
};
int Section::inside = 0;
template <class W> struct Ctx {
  std::unique_ptr<W> w;
  std::vector<std::unique_ptr<current::IntrusiveClient>> cl;
};
static current::IntrusiveClient Register(INTR& w) { return w.RegisterScopedClient(); }
static current::IntrusiveClient Register(PLAIN&) { return current::IntrusiveClient(nullptr); }
template <class W> static void Do(Ctx<W>& c, W& w, const V& o, int me) {
  const std::string& op = o.a[0].s;
  const int e = o.a.size() > 1 ? (int)o.a[1].i : 0, v = o.a.size() > 2 ? (int)o.a[2].i : 0;
  std::string name = op; int variant = 0;
  if (op == "inc2" || op == "inc3") { name = "inc"; variant = op[3] - '0'; }
  if (op == "get2" || op == "get3") { name = "get"; variant = op[3] - '0'; }
  int f = 0; bool x = true;
  Rec(E("c").set("i", me).set("o", name).set("e", e).set("t", Now()).set("v", v));
  auto inc = [&](S& s) { Section q; int t = s.a; x = x && s.a == s.b; sched::Point(); s.a = t + 1; sched::Point(); s.b = s.a; f = s.a; x = x && q.ok; };
  if (name == "inc") {
    if (variant == 0) w.MutableUse([&](S& s) { inc(s); return 0; });
    else if (variant == 2) { auto a = w.MutableScopedAccessor(); inc(*a); }
    else { auto a = w.MutableScopedAccessor(); auto b = std::move(a); inc(*b); }
  } else if (name == "get") {
    auto get = [&](const S& s) { Section q; f = s.a; x = x && s.a == s.b && q.ok; };
    if (variant == 0) { S s = w.GetValue(); f = s.a; x = s.a == s.b; }
    else if (variant == 2) w.ImmutableUse([&](const S& s) { get(s); return 0; });
    else { auto a = w.ImmutableScopedAccessor(); get(*a); }
  } else if (name == "set") w.SetValue(S(v));
  else if (name == "setif") w.SetValueIf([&](const S& s) { Section q; x = x && q.ok; return s.a == e; }, S(v));
  else if (name == "pot") f = w.PotentiallyMutableUse([&](S& s) { if (s.a == e) { inc(s); return true; } return false; });
  else if (name == "wait") f = w.Wait([&](const S& s) { Section q; x = x && q.ok && s.a == s.b; return s.a >= v; });
  else if (name == "waitfor") f = w.WaitFor([&](const S& s) { Section q; x = x && q.ok && s.a == s.b; return s.a >= v; }, std::chrono::microseconds(e));
  else if (name == "reg") { c.cl[v] = std::make_unique<current::IntrusiveClient>(Register(w)); f = 1; bool b = *c.cl[v]; (void)b; f = -1; }
  else if (name == "leave") c.cl[v] = nullptr;
  else if (name == "ok") f = (bool)*c.cl[me];
  Rec(E("r").set("i", me).set("o", name).set("f", name == "pot" || name == "wait" || name == "waitfor" || name == "ok" ? f : name == "get" || name == "inc" ? f : 0).set("x", x ? 1 : 0).set("t", Now()));
}
template <class W> static void RunW(const V& prog) {
  T0 = sched::NowNs(); Section::inside = 0;
  Ctx<W> c; c.w = std::make_unique<W>();
  W& w = *c.w;
  for (size_t i = 0; i <= prog["threads"].a.size(); ++i) c.cl.emplace_back();
  for (auto& k : prog["clients"].a) c.cl[(int)k.i] = std::make_unique<current::IntrusiveClient>(Register(w));
  std::vector<std::thread> ts;
  for (size_t i = 0; i < prog["threads"].a.size(); ++i) {
    const V* p = &prog["threads"].a[i];
    ts.emplace_back([&c, &w, p, i] { for (auto& o : p->a) Do<W>(c, w, o, (int)i); });
  }
  if (prog["destroy"].i) {
    Rec(E("c").set("i", 99).set("o", "destroy").set("e", 0).set("v", 0).set("t", Now()));
    c.w = nullptr;
    Rec(E("r").set("i", 99).set("o", "destroy").set("f", 0).set("x", 1).set("t", Now()));
  }
  for (auto& t : ts) t.join();
}
int main() { return Main([](const V& p) { if (p["intrusive"].i) RunW<INTR>(p); else RunW<PLAIN>(p); }); }
