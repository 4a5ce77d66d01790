// RipCurrent flows (P21), under the scheduler.
// prog = {"top":name,"threads":[[[b,op..]..]..],"ctor":{b:[op..]},"f":{b:[[op..]..]},"dtor":{b:[op..]},"async":0|1}
// op = ["emit",y] ["post",y,d] ["sched",y,d] ["head",d]; y is "A" or "B"; times are so many microseconds from now.
// Blocks are numbered from left to right.  f: what the block does with the first, second.. message; nothing after that.
#include "conc.h"
#include <cstdio>
#include <memory>
#include <thread>
#include "ripcurrent/ripcurrent.h"
using namespace conc;
CURRENT_STRUCT(MA) { CURRENT_FIELD(id, int32_t, 0); CURRENT_FIELD(s, std::string); CURRENT_DEFAULT_CONSTRUCTOR(MA) {} CURRENT_CONSTRUCTOR(MA)(int32_t id) : id(id), s("A" + std::to_string(id) + std::string(40, 'a')) {} };
CURRENT_STRUCT(MB) { CURRENT_FIELD(id, int32_t, 0); CURRENT_FIELD(s, std::string); CURRENT_DEFAULT_CONSTRUCTOR(MB) {} CURRENT_CONSTRUCTOR(MB)(int32_t id) : id(id), s("B" + std::to_string(id) + std::string(40, 'b')) {} };
static long long base, ids;
static V prog;
static std::map<int, std::function<void(const V&)>> doers;
static std::map<int, int> count;
static thread_local int in_op, refused;
static long long Now() { return current::time::Now().count() - base; }
// what every block does; X makes the very calls
template <typename X> struct Core {
  X* x; const int b;
  void Op(const V& o) {
    const std::string& op = o.a[0].s;
    V c = E("call").set("t", sched::Tid()).set("b", b).set("o", op);
    size_t at; long long lo; int id = 0;
    const bool is_head = op == "head";
    {
      sched::NoPreempt np;
      lo = Now(); id = is_head ? 0 : (int)++ids;
      c.set("y", is_head ? std::string("-") : o.a[1].s).set("id", id).set("lo", lo).set("hi", 0).set("us", op == "emit" ? 0 : lo + o.a[is_head ? 1 : 2].i);
      at = Events().a.size(); Events().push(c);
    }
    const long long us = base + c["us"].i;
    in_op = 1; refused = 0;
    x->Make(op, is_head ? 'A' : o.a[1].s[0], std::chrono::microseconds(us), id);
    in_op = 0;
    { sched::NoPreempt np; Events().a[at].set("hi", Now()); Events().push(E("ret").set("t", sched::Tid()).set("ref", refused)); }
  }
  void All(const char* what) { const V& s = prog[what]; const std::string k = std::to_string(b); if (s.has(k)) for (auto& o : s[k].a) Op(o); }
  Core(X* x, int b) : x(x), b(b) {
    { sched::NoPreempt np; doers[b] = [this](const V& o) { Op(o); }; }
    Rec(E("born").set("b", b));
    All("ctor");
  }
  ~Core() { All("dtor"); Rec(E("gone").set("b", b)); }
  template <typename M> void F(const char* y, const M& m) {
    Rec(E("f").set("b", b).set("id", m.id).set("y", y).set("ok", m.s == M(m.id).s ? 1 : 0));
    int k; { sched::NoPreempt np; k = count[b]++; }
    const V& s = prog["f"]; const std::string key = std::to_string(b);
    if (s.has(key) && k < (int)s[key].a.size()) for (auto& o : s[key].a[k].a) Op(o);
    Rec(E("g").set("b", b).set("id", m.id));
  }
};
#define MAKES \
  void Make(const std::string& op, char y, std::chrono::microseconds t, int id) { \
    if (op == "head") head(t); \
    else if (op == "emit") { if (y == 'A') emit<MA>(id); else emit<MB>(id); } \
    else if (op == "post") { if (y == 'A') post<MA>(t, id); else post<MB>(t, id); } \
    else { if (y == 'A') schedule<MA>(t, id); else schedule<MB>(t, id); } \
  }
#define MAKES_NOT void Make(const std::string&, char, std::chrono::microseconds, int) {}
RIPCURRENT_NODE(Src, void, (MA, MB)) { MAKES Core<Src> core; Src(int b) : core(this, b) {} };
RIPCURRENT_NODE(Via, (MA, MB), (MA, MB)) { MAKES Core<Via> core; Via(int b) : core(this, b) {} void f(MA m) { core.F("A", m); } void f(MB m) { core.F("B", m); } };
RIPCURRENT_NODE(ViaA, MA, (MA, MB)) { MAKES Core<ViaA> core; ViaA(int b) : core(this, b) {} void f(MA m) { core.F("A", m); } };
RIPCURRENT_NODE(ViaB, MB, (MA, MB)) { MAKES Core<ViaB> core; ViaB(int b) : core(this, b) {} void f(MB m) { core.F("B", m); } };
RIPCURRENT_NODE(Dst, (MA, MB), void) { MAKES_NOT Core<Dst> core; Dst(int b) : core(this, b) {} void f(MA&& m) { core.F("A", m); } void f(const MB& m) { core.F("B", m); } };
RIPCURRENT_NODE(DstA, MA, void) { MAKES_NOT Core<DstA> core; DstA(int b) : core(this, b) {} void f(MA m) { core.F("A", m); } };
RIPCURRENT_NODE(DstB, MB, void) { MAKES_NOT Core<DstB> core; DstB(int b) : core(this, b) {} void f(MB m) { core.F("B", m); } };
#define S(b) RIPCURRENT_MACRO(Src, b)
#define P(b) RIPCURRENT_MACRO(Via, b)
#define PA(b) RIPCURRENT_MACRO(ViaA, b)
#define PB(b) RIPCURRENT_MACRO(ViaB, b)
#define D(b) RIPCURRENT_MACRO(Dst, b)
#define DA(b) RIPCURRENT_MACRO(DstA, b)
#define DB(b) RIPCURRENT_MACRO(DstB, b)
static const std::map<std::string, std::function<current::ripcurrent::RipCurrentScope()>> kFlows = {
#define FLOW(name, ...) {name, [] { return (__VA_ARGS__).RipCurrent(); }}
#include "rip_flows.h"
};
int main() {
  std::cerr.setstate(std::ios::failbit);
  if (!freopen("/dev/null", "w", stderr)) return 3;
  return Main([&](const V& p) {
    { sched::NoPreempt n; base = current::time::Now().count(); }
    prog = p; ids = 0; doers.clear(); count.clear();
    const auto mock = current::Singleton<current::ripcurrent::RipCurrentMockableErrorHandler>().ScopedInjectHandler([](const std::string& e) {
      if (in_op) ++refused; else Rec(E("err").set("what", e));
    });
    {
      auto scope = kFlows.at(prog["top"].s)();
      if (prog["async"].i) scope.Async();
      std::vector<std::thread> ts;
      for (auto& th : prog["threads"].a) ts.emplace_back([&th] { for (auto& o : th.a) { V op = V::arr(); for (size_t i = 1; i < o.a.size(); ++i) op.push(o.a[i]); doers[(int)o.a[0].i](op); } });
      for (auto& t : ts) t.join();
      Rec(E("join"));
      if (!prog["async"].i) { scope.Join(); Rec(E("joined")); }
    }
    if (prog["async"].i) Rec(E("joined"));
  });
}
