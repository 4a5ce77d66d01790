// Programs over a stream (memory or file) under the scheduler.
// prog = {"p":"mem"|"file","init":[[v,ts]..],"inithead":ts,"subs":[{"begin","from","mode":"c"|"u"|"t","after":n,"term":"t"|"w"}],
//         "threads":[[[op..]..]..],"end":"subs"|"stream"}
// ops: ["pub",v,ts] (the stream's own publisher) ["lpub",v,ts] (with the publishing mutex held, as the storage does) ["raw",v,ts] ["head",ts]
//      ["sub",k] ["unsub",k] ["wait",k] ["alive",k] ["rest",us] ["iter"]
//      ["borrow",h] ["follow",h] ["rel",h] ["hpub",h,v,ts] ["hhead",h,ts] ["valid",h] ["master"] ["is"]
// Timestamps are microseconds relative to the beginning of the run; ts < 0: the default. Odd payloads are of type A, even ones of type B.
#include "conc.h"
#include <cstdio>
#include <memory>
#include <thread>
#include "stream/stream.h"
using namespace conc;
using current::ss::EntryResponse;
using current::ss::TerminationResponse;
using current::locks::MutexLockStatus;
CURRENT_STRUCT(A) { CURRENT_FIELD(v, int32_t, 0); CURRENT_FIELD(s, std::string, ""); CURRENT_CONSTRUCTOR(A)(int v = 0) : v(v), s("A, a longer text number " + std::to_string(v)) {} };
CURRENT_STRUCT(B) { CURRENT_FIELD(w, int32_t, 0); CURRENT_CONSTRUCTOR(B)(int w = 0) : w(w) {} };
CURRENT_VARIANT(R, A, B);
static long long base;
static long long Rel(long long us) { return us < base - 1000000 ? -1 : us - base; }
static long long Of(const A& a) { return a.s == A(a.v).s ? a.v : -7; }
static long long Of(const B& b) { return b.w; }
static long long Of(const R& r) { return Exists<A>(r) ? Of(Value<A>(r)) : Exists<B>(r) ? Of(Value<B>(r)) : -8; }
static R Make(long long v) { if (v % 2) return R(A((int)v)); return R(B((int)v)); }
struct Sub {
  int k = 0; long long after = 0, n = 0; bool wait = false, termd = false, fin = false, done = false;
  long long next = 0, told = -1000000000, lastmatch = -1;
  bool key = false;
  EntryResponse Entered(const V& e) {
    Rec(e);
    sched::Point();
    ++n;
    const bool end = (after && n >= after) || termd;
    Rec(E("ex").set("i", k).set("r", end ? "done" : "more"));
    fin = fin || end;
    sched::Wake(&key);
    return end ? EntryResponse::Done : EntryResponse::More;
  }
  EntryResponse Entry(long long v, long long idx, long long us, idxts_t last) {
    sched::NoPreempt* np = new sched::NoPreempt; next = idx + 1; told = us; delete np;
    return Entered(E("en").set("i", k).set("v", v).set("idx", idx).set("us", us).set("lidx", (long long)last.index).set("lus", Rel(last.us.count())));
  }
  EntryResponse operator()(const A& a, idxts_t c, idxts_t l) { return Entry(Of(a), c.index, Rel(c.us.count()), l); }
  EntryResponse operator()(const R& r, idxts_t c, idxts_t l) { return Entry(Of(r), c.index, Rel(c.us.count()), l); }
  EntryResponse operator()(const std::string& raw, uint64_t i, idxts_t l) {
    long long v = -9, us = -9, idx = -9;
    { sched::NoPreempt np;
      const size_t t = raw.find('\t');
      if (t != std::string::npos) try { auto x = ParseJSON<idxts_t>(raw.substr(0, t)); idx = x.index; us = Rel(x.us.count()); v = Of(ParseJSON<R>(raw.substr(t + 1))); } catch (...) {} }
    return Entry(v, idx == (long long)i ? idx : -9, us, l);
  }
  EntryResponse operator()(std::chrono::microseconds h) { told = Rel(h.count()); return Entered(E("hd").set("i", k).set("us", Rel(h.count()))); }
  EntryResponse EntryResponseIfNoMorePassTypeFilter() const { return EntryResponse::More; }
  TerminationResponse Terminate() {
    Rec(E("ter").set("i", k));
    sched::Point();
    termd = true;
    Rec(E("ex").set("i", k).set("r", wait ? "more" : "done"));
    fin = fin || !wait;
    sched::Wake(&key);
    return wait ? TerminationResponse::Wait : TerminationResponse::Terminate;
  }
};
// No preemption between the test and blocking.
__attribute__((no_sanitize("thread"), noinline)) static void UntilTerm(Sub& b) { while (!b.termd && !b.fin && !b.done) sched::Block(&b.key); }
__attribute__((no_sanitize("thread"), noinline)) static void UntilDone(Sub& b) { while (!b.done) sched::Block(&b.key); }
__attribute__((no_sanitize("thread"), noinline)) static void BrieflyUntilFin(Sub& b) { if (!b.fin && !b.done) sched::Block(&b.key, sched::NowNs() + 50000000); }
__attribute__((no_sanitize("thread"), noinline)) static void UntilTold(Sub& b, long long match, long long head) {
  while (!b.fin && !b.done && (b.next <= match || b.told < head)) sched::Block(&b.key);
}
__attribute__((no_sanitize("thread"), noinline)) static bool Told(Sub& b, long long match, long long head) {
  if (b.fin || b.done || (b.next > match && b.told >= head)) return true;
  sched::Block(&b.key, sched::NowNs() + 100000000);
  return false;
}
using SA = current::ss::StreamSubscriber<Sub, A>;
using SR = current::ss::StreamSubscriber<Sub, R>;
template <template <typename> class P> struct Run {
  using S = current::stream::Stream<R, P>;
  using Pub_t = typename S::publisher_t;
  current::Owned<S> s;
  const V& prog;
  struct SubSlot { SA a; SR r; Sub* sub = nullptr; current::stream::SubscriberScope scope; bool created = false, removed = false, filtered = false; long long begin = 0, from = 0; };
  std::vector<std::unique_ptr<SubSlot>> subs;
  std::vector<std::unique_ptr<current::Borrowed<Pub_t>>> hold;
  template <class... X> Run(const V& prog, X&&... x) : s(S::CreateStream(std::forward<X>(x)...)), prog(prog), hold(8) {
    for (size_t k = 0; k < prog["subs"].a.size(); ++k) {
      const V& d = prog["subs"].a[k];
      subs.push_back(std::make_unique<SubSlot>());
      auto& x = *subs.back();
      x.filtered = d["mode"].s == "t"; x.sub = x.filtered ? (Sub*)&x.a : (Sub*)&x.r;
      x.sub->k = (int)k; x.sub->after = d["after"].i; x.sub->wait = d["term"].s == "w"; x.begin = d["begin"].i; x.from = d["from"].i;
    }
  }
  static std::chrono::microseconds Us(long long ts) { return std::chrono::microseconds(base + ts); }
  template <MutexLockStatus MLS, class PUB> void Publish(PUB& p, int id, const char* op, int h, long long v, long long ts) {
    Rec(E("c").set("i", id).set("o", op).set("h", h).set("v", v).set("ts", ts).set("t", Rel(sched::WallNs() / 1000)));
    int f = 0; idxts_t r(0, std::chrono::microseconds(0));
    try {
      if (ts < 0) r = p->template Publish<MLS>(Make(v)); else if (v % 3 == 0) r = p->template Publish<MLS>(Make(v), Us(ts));
      else if (v % 2) r = p->template Publish<MLS>(A((int)v), Us(ts)); else r = p->template Publish<MLS>(B((int)v), Us(ts));
      f = 1;
    } catch (const current::ss::InconsistentTimestampException&) { f = 2; }
    Rec(E("r").set("i", id).set("o", op).set("f", f).set("idx", f == 1 ? (long long)r.index : 0).set("us", f == 1 ? Rel(r.us.count()) : 0).set("t", Rel(sched::WallNs() / 1000)));
  }
  template <class PUB> void Head(PUB& p, int id, const char* op, int h, long long ts) {
    Rec(E("c").set("i", id).set("o", op).set("h", h).set("v", 0).set("ts", ts).set("t", Rel(sched::WallNs() / 1000)));
    int f = 1;
    try { if (ts < 0) p->UpdateHead(); else p->UpdateHead(Us(ts)); } catch (const current::ss::InconsistentTimestampException&) { f = 2; }
    Rec(E("r").set("i", id).set("o", op).set("f", f).set("idx", 0).set("us", 0).set("t", Rel(sched::WallNs() / 1000)));
  }
  V C(int id, const char* op, int h = 0) { return E("c").set("i", id).set("o", op).set("h", h).set("v", 0).set("ts", 0).set("t", 0); }
  V Rt(int id, const char* op, int f) { return E("r").set("i", id).set("o", op).set("f", f).set("idx", 0).set("us", 0).set("t", 0); }
  void Subscribe(int id, int k) {
    SubSlot& x = *subs[k]; const V& d = prog["subs"].a[k];
    Rec(C(id, "sub", k)); x.created = true;
    auto done = [this, k] { Rec(E("done").set("i", k)); subs[k]->sub->done = true; sched::Wake(&subs[k]->sub->key); };
    const auto from = d["from"].i > 0 ? Us(d["from"].i) : std::chrono::microseconds(0);
    if (x.filtered) x.scope = s->template Subscribe<A>(x.a, (uint64_t)x.begin, from, done);
    else if (d["mode"].s == "c") x.scope = s->Subscribe(x.r, (uint64_t)x.begin, from, done);
    else x.scope = s->SubscribeUnchecked(x.r, (uint64_t)x.begin, from, done);
    Rec(Rt(id, "sub", 1));
  }
  void Unsubscribe(int id, int k) {
    SubSlot& x = *subs[k]; Sub& b = *x.sub;
    if (!x.created || x.removed) return;
    x.removed = true;
    std::thread pump;
    if (b.wait && !b.done) pump = std::thread([this, k, &x, &b] {
      UntilTerm(b);
      while (!b.fin && !b.done) {
        const long long h = Rel(s->Data()->CurrentHead().count());
        Publish<MutexLockStatus::NeedToLock>(s->Publisher(), 60 + k, "pub", 0, 1001 + 2 * k, std::max(h + 1, x.from));
        BrieflyUntilFin(b);
      }
    });
    Rec(C(id, "unsub", k));
    x.scope = nullptr;
    Rec(Rt(id, "unsub", 1));
    if (pump.joinable()) pump.join();
  }
  // until the subscriber has been told everything there is
  void CatchUp(int k) {
    SubSlot& x = *subs[k]; Sub& b = *x.sub;
    if (!x.created || x.removed) return;
    while (true) {
      long long size = 0, head = -1, match = -1, last = -1;
      { const auto h = s->Data()->HeadAndLastPublishedIndexAndTimestamp(); head = Rel(h.head.count()); if (Exists(h.idxts)) { size = Value(h.idxts).index + 1; last = Rel(Value(h.idxts).us.count()); } }
      const long long floor = x.from > 0 ? x.from : -1;
      if (head < floor) return;
      for (const auto& e : s->Data()->Iterate(0, size)) {
        if ((long long)e.idx_ts.index >= x.begin && Rel(e.idx_ts.us.count()) >= floor) { if (!x.filtered || Exists<A>(e.entry)) match = e.idx_ts.index; }
      }
      const bool wanthead = size >= x.begin && head >= 0 && head > last;  // the timestamp of an entry is not news by itself
      if (!x.filtered || !wanthead) { UntilTold(b, match, wanthead ? head : -2000000000); return; }
      if (Told(b, match, head)) return;  // (the head may have been overtaken by an entry of another type, which the subscriber is not told of)
    }
  }
  void Op(int id, const V& o) {
    const std::string& op = o.a[0].s; const int a = o.a.size() > 1 ? (int)o.a[1].i : 0;
    if (op == "rest") std::this_thread::sleep_for(std::chrono::microseconds(a));
    else if (op == "pub") Publish<MutexLockStatus::NeedToLock>(s->Publisher(), id, "pub", 0, a, o.a[2].i);
    else if (op == "lpub") {
      current::Borrowed<Pub_t> p = s->BorrowPublisher();
      std::lock_guard<std::mutex> l(s->Impl()->publishing_mutex);
      Publish<MutexLockStatus::AlreadyLocked>(p, id, "pub", 0, a, o.a[2].i);
    } else if (op == "raw") {
      const uint64_t n = s->Data()->Size(); const long long us = base + o.a[2].i;
      Rec(E("c").set("i", id).set("o", "raw").set("h", (long long)n).set("v", a).set("ts", o.a[2].i).set("t", 0));
      int f = 0; idxts_t r(0, std::chrono::microseconds(0)); std::string line;
      { sched::NoPreempt np; line = JSON(idxts_t(n, std::chrono::microseconds(us))) + '\t' + JSON(Make(a)); }
      try { r = s->Publisher()->PublishUnsafe(line); f = 1; } catch (const current::ss::InconsistentTimestampException&) { f = 2; } catch (const current::persistence::UnsafePublishBadIndexTimestampException&) { f = 3; }
      Rec(E("r").set("i", id).set("o", "raw").set("f", f).set("idx", f == 1 ? (long long)r.index : 0).set("us", f == 1 ? Rel(r.us.count()) : 0).set("t", 0));
    } else if (op == "head") Head(s->Publisher(), id, "head", 0, a);
    else if (op == "sub") Subscribe(id, a);
    else if (op == "unsub") Unsubscribe(id, a);
    else if (op == "wait") CatchUp(a);
    else if (op == "alive") { if (subs[a]->created && !subs[a]->removed) { Rec(C(id, "alive", a)); bool v = subs[a]->scope; Rec(Rt(id, "alive", v)); } }
    else if (op == "iter") {
      Rec(C(id, "iter"));
      V l = V::arr();
      for (const auto& e : s->Data()->Iterate()) { sched::NoPreempt np; l.push(V::obj().set("v", Of(e.entry)).set("us", Rel(e.idx_ts.us.count()))); }
      Rec(E("r").set("i", id).set("o", "iter").set("f", 1).set("idx", 0).set("us", 0).set("t", 0).set("log", l));
    }
    else if (op == "borrow" || op == "follow") {
      if (hold[a]) return;
      Rec(C(id, op.c_str(), a)); int f = 1;
      try { if (op == "borrow") hold[a] = std::make_unique<current::Borrowed<Pub_t>>(s->BorrowPublisher()); else hold[a] = std::make_unique<current::Borrowed<Pub_t>>(s->BecomeFollowingStream()); }
      catch (const current::stream::PublisherNotAvailableException&) { f = 2; }
      Rec(Rt(id, op.c_str(), f));
    } else if (op == "trypub") {  // the stream gives its publisher only while it is the master
      Rec(C(id, op.c_str(), a)); int f = 1;
      try { s->Publisher(); } catch (const current::stream::PublisherNotAvailableException&) { f = 2; }
      Rec(Rt(id, op.c_str(), f));
    } else if (op == "rel") { if (hold[a]) { Rec(C(id, "rel", a)); hold[a] = nullptr; Rec(Rt(id, "rel", 1)); } }
    else if (op == "hpub") { if (hold[a]) Publish<MutexLockStatus::NeedToLock>(*hold[a], id, "hpub", a, o.a[2].i, o.a[3].i); }
    else if (op == "hhead") { if (hold[a]) Head(*hold[a], id, "hhead", a, o.a[2].i); }
    else if (op == "valid") { if (hold[a]) { Rec(C(id, "valid", a)); bool v = *hold[a]; Rec(Rt(id, "valid", v)); } }
    else if (op == "master") { Rec(C(id, "master")); s->BecomeMasterStream(); Rec(Rt(id, "master", 1)); }
    else if (op == "is") { Rec(C(id, "is")); bool v = s->IsMasterStream(); Rec(Rt(id, "is", v)); }
  }
  void Go() {
    { sched::NoPreempt np;
      for (auto& e : prog["init"].a) s->Publisher()->Publish(Make(e.a[0].i), Us(e.a[1].i));
      if (prog["inithead"].i > 0) s->Publisher()->UpdateHead(Us(prog["inithead"].i)); }
    std::vector<std::thread> ts;
    for (size_t i = 0; i < prog["threads"].a.size(); ++i) ts.emplace_back([this, i] { for (auto& o : prog["threads"].a[i].a) Op((int)i, o); });
    for (auto& t : ts) t.join();
    for (size_t k = 0; k < subs.size(); ++k) CatchUp((int)k);
    Op(90, V::arr().push(V("iter")));
    if (prog["end"].s == "stream") {
      for (size_t h = 0; h < hold.size(); ++h) Op(90, V::arr().push(V("rel")).push(V((long long)h)));
      std::thread d([this] { Rec(C(91, "destroy")); { current::Owned<S> gone(std::move(s)); } Rec(Rt(91, "destroy", 1)); });
      std::this_thread::sleep_for(std::chrono::seconds(1));
      for (size_t k = 0; k < subs.size(); ++k) if (subs[k]->created && !subs[k]->removed) {
        UntilDone(*subs[k]->sub);
      }
      for (size_t k = 0; k < subs.size(); ++k) if (subs[k]->created && !subs[k]->removed) { Rec(C(90, "unsub", (int)k)); subs[k]->scope = nullptr; Rec(Rt(90, "unsub", 1)); }
      d.join();
    } else {
      for (size_t k = 0; k < subs.size(); ++k) Unsubscribe(90, (int)k);
      for (size_t h = 0; h < hold.size(); ++h) Op(90, V::arr().push(V("rel")).push(V((long long)h)));
      Rec(C(91, "destroy")); { current::Owned<S> gone(std::move(s)); } Rec(Rt(91, "destroy", 1));
    }
  }
};
int main(int argc, char** argv) {
  const std::string file = std::string(argc > 1 ? argv[1] : "/tmp") + "/stream." + std::to_string(getpid()) + ".log";
  { auto warm = current::stream::Stream<R>::CreateStream(); }
  int rc = Main([&](const V& prog) {
    { sched::NoPreempt n; base = current::time::Now().count(); sched::SetWall(base * 1000); }
    if (prog["p"].s == "mem") { Run<current::persistence::Memory> r(prog); r.Go(); }
    else { std::remove(file.c_str()); Run<current::persistence::File> r(prog, file); r.Go(); }
  });
  std::remove(file.c_str());
  return rc;
}
