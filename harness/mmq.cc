// Programs over MMQ (blocking and dropping) and MMPQ under the scheduler.
// prog = {"q":"mmq"|"drop"|"mmpq","n":buffer,"threads":[[["pub",ts],["head",ts],["rest",us]],...],"slow":k,"echo":m}; ts < 0: the default.
// Timestamps are microseconds relative to the beginning of the run.
#include "conc.h"
#include <memory>
#include <thread>
#include "blocks/mmq/mmq.h"
#include "blocks/mmq/mmpq.h"
using namespace conc;
using current::ss::EntryResponse;
static long long base;
static long long Rel(long long us) { return us < base - 1000 ? -1 : us - base; }
static long long T() { return Rel(sched::WallNs() / 1000); }
struct M {
  std::string s; int v = 0;
  M() {}
  explicit M(int v) : s("message #" + std::to_string(v) + " which is not short"), v(v) {}
};
static int V_(const M& m) { return m.s == M(m.v).s ? m.v : -7; }
struct Q { virtual ~Q() {} virtual idxts_t Pub(int v, long long ts, bool move) = 0; virtual void Head(long long) {} };
static void Pub(Q& q, int id, int v, long long ts) {
  Rec(E("c").set("i", id).set("o", "pub").set("v", v).set("ts", ts).set("t", T()));
  int ok = 0; idxts_t r;
  try { r = q.Pub(v, ts, v % 2); ok = r.index ? 1 : 0; } catch (const current::ss::InconsistentTimestampException&) { ok = 2; }
  Rec(E("r").set("i", id).set("o", "pub").set("f", ok).set("idx", ok == 1 ? (long long)r.index : 0).set("us", ok == 1 ? Rel(r.us.count()) : 0).set("t", T()));
}
struct ConsumerImpl {
  int slow = 0, echo = 0, inside = 0, echoed = 0; Q* q = nullptr;
  EntryResponse operator()(M m, idxts_t cur, idxts_t last) {
    ++inside;
    Rec(E("in").set("v", inside == 1 ? V_(m) : -9).set("idx", (long long)cur.index).set("us", Rel(cur.us.count())).set("lidx", (long long)last.index).set("lus", Rel(last.us.count())).set("t", T()));
    for (int i = 0; i < slow; ++i) sched::Point();
    if (slow > 3) std::this_thread::sleep_for(std::chrono::microseconds(slow));
    if (echo && m.v < 100 && m.v % echo == 0 && q) Pub(*q, 50, 100 + m.v, -1);
    Rec(E("out").set("v", V_(m)));
    --inside;
    return EntryResponse::More;
  }
  EntryResponse operator()(std::chrono::microseconds) { return EntryResponse::More; }
};
using C = current::ss::EntrySubscriber<ConsumerImpl, M>;
template <class X> struct QI : Q {
  X x; template <class... A> QI(A&&... a) : x(std::forward<A>(a)...) {}
  idxts_t Pub(int v, long long ts, bool move) override {
    M m(v);
    if (ts < 0) { if (move) return x.Publish(std::move(m)); return x.Publish(static_cast<const M&>(m)); }
    const std::chrono::microseconds us(base + ts);
    if (move) return x.Publish(std::move(m), us);
    return x.Publish(static_cast<const M&>(m), us);
  }
};
struct PQ : Q {
  current::mmq::MMPQ<M, C> x; PQ(C& c) : x(c) {}
  idxts_t Pub(int v, long long ts, bool) override { M m(v); return ts < 0 ? x.Publish(std::move(m)) : x.Publish(std::move(m), std::chrono::microseconds(base + ts)); }
  void Head(long long ts) override { if (ts < 0) x.UpdateHead(); else x.UpdateHead(std::chrono::microseconds(base + ts)); }
};
int main() {
  return Main([](const V& prog) {
    { sched::NoPreempt n; base = current::time::Now().count(); sched::SetWall(base * 1000); }
    C c; c.slow = (int)prog["slow"].i; c.echo = (int)prog["echo"].i;
    std::unique_ptr<Q> q;
    const std::string& k = prog["q"].s; const size_t n = (size_t)prog["n"].i;
    if (k == "mmq") q.reset(new QI<current::mmq::MMQ<M, C>>(c, n));
    else if (k == "drop") q.reset(new QI<current::mmq::MMQ<M, C, 1024, true>>(c, n));
    else q.reset(new PQ(c));
    c.q = q.get();
    std::vector<std::thread> ts;
    int v = 0;
    for (size_t i = 0; i < prog["threads"].a.size(); ++i) {
      const V* p = &prog["threads"].a[i]; const int v0 = v; v += (int)p->a.size();
      ts.emplace_back([p, i, v0, &q] {
        int v = v0;
        for (auto& o : p->a) {
          ++v;
          if (o.a[0].s == "pub") Pub(*q, (int)i, v, o.a[1].i);
          else if (o.a[0].s == "rest") std::this_thread::sleep_for(std::chrono::microseconds(o.a[1].i));
          else {
            Rec(E("c").set("i", (int)i).set("o", "head").set("v", 0).set("ts", o.a[1].i).set("t", T()));
            int ok = 1;
            try { q->Head(o.a[1].i); } catch (const current::ss::InconsistentTimestampException&) { ok = 2; }
            Rec(E("r").set("i", (int)i).set("o", "head").set("f", ok).set("idx", 0).set("us", 0).set("t", T()));
          }
        }
      });
    }
    for (auto& t : ts) t.join();
    Rec(E("c").set("i", 99).set("o", "destroy").set("v", 0).set("ts", 0).set("t", T()));
    q.reset();
    Rec(E("r").set("i", 99).set("o", "destroy").set("f", 1).set("idx", 0).set("us", 0).set("t", T()));
  });
}
