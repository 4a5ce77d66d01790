// Programs over a storage under the scheduler.
// prog = {"mode":"master"|"follower","file":0|1,"use":[containers],"init":[tx..],"threads":[[op..]..]}
//   init: transactions done before; for a follower they are done by another storage, whose journal is fed to the follower's stream
// ops: {"tx":kind,"body":[..],"end":how,"f2":how2} (see storage.cc; body ops also ["point"], ["viewp"]: a view which can be preempted)
//      {"lock":[tx..]} transactions with the publishing mutex held   {"shutdown":1} {"feed":1} {"flip":1} {"is":1} {"applied":1} {"rest":us}
#define STORAGE_SMALL
#include "conc.h"
#include <cstdio>
#include <thread>
#include "storage_common.h"
using namespace conc;
using namespace st;
using current::locks::MutexLockStatus;
struct Oops {};
static int64_t base;
template <class STORAGE> struct Run {
  using S = STORAGE; using stream_t = typename S::stream_t;
  const V& prog; std::set<std::string> use;
  std::unique_ptr<current::Owned<stream_t>> stream; std::unique_ptr<current::Owned<S>> s;
  std::vector<std::pair<typename S::transaction_t, std::chrono::microseconds>> feed; size_t fed = 0; std::mutex feed_mutex;
  std::atomic<int> txn{0};
  V mj = V::arr();
  Run(const V& p, const std::string& file) : prog(p) {
    for (auto& x : p["use"].a) use.insert(x.s);
    if constexpr (std::is_same_v<S, F_FILE>) { std::remove(file.c_str()); stream = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream(file)); }
    else stream = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream());
  }
  template <class FIELDS> void Ops(int id, FIELDS& f, const V& body) {
    for (auto& o : body.a) {
      const std::string& k = o.a[0].s;
      if (k == "point") sched::Point();
      else if (k == "view") Rec(E("view").set("i", id).set("d", DumpAll(f, use, base)));
      else if (k == "viewp") { V d = DumpAll(f, use, base); Rec(E("view").set("i", id).set("d", d)); }
      else if constexpr (!std::is_const_v<FIELDS>) {
        MutateField(f, o.a[1].s, k, (int)o.a[2].i, (int)o.a[3].i, (int)o.a[4].i);
        Rec(E("op").set("i", id).set("op", k == "erase2" ? "erase" : k).set("c", o.a[1].s).set("key", V::arr().push(o.a[2]).push(o.a[3])).set("v", o.a[4]).set("lm", DumpLm(f, o.a[1].s)));
      }
    }
  }
  template <class FIELDS> V DumpLm(const FIELDS& f, const std::string& name) {
#define LM(n, C, T, ro, co) if (name == #n) return Lm(f.n, base, false);
    STORAGE_CONTAINERS(LM)
#undef LM
    return V();
  }
  void End(int id, const char* k, const std::string& how, int v) {
    Rec(E(k).set("i", id).set("how", how).set("v", v));
    if (how == "throw") throw Oops();
    if (how == "rb") CURRENT_STORAGE_THROW_ROLLBACK();
    if (how == "rbv") CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, v);
  }
  static void Res(V& e, const current::storage::TransactionResult<int>& r) { e.set("st", WasCommitted(r) ? "committed" : "rolledback").set("val", Exists(r) ? (long long)Value(r) : -1ll); }
  static void Res(V& e, const current::storage::TransactionResult<void>& r) { e.set("st", WasCommitted(r) ? "committed" : "rolledback"); }
  template <class FUT> void Hm(V& e, FUT&& fut) { fut.Wait(); Res(e, fut.Go()); }
  template <MutexLockStatus M> void Tx(int id, const V& o) {
    const std::string& kind = o["tx"].s; const std::string how = o["end"].s, f2 = o["f2"].s;
    const int n = ++txn; const V& body = o["body"];
    const bool rw = kind == "v" || kind == "void" || kind == "two", two = kind == "two" || kind == "rotwo", valued = kind == "v" || kind == "rov";
    Rec(E("c").set("i", id).set("o", "tx").set("rw", rw).set("two", two).set("valued", valued).set("n", n));
    V e = E("r").set("i", id).set("o", "tx").set("val", -1);
    auto second = [&](int v) { End(id, "f2", f2, v); };
    auto mv = [&](MutableFields<S> f) -> int { Rec(E("begin").set("i", id)); Ops(id, f, body); End(id, "bend", how, n); return n; };
    auto mvoid = [&](MutableFields<S> f) { Rec(E("begin").set("i", id)); Ops(id, f, body); End(id, "bend", how, n); };
    auto iv = [&](ImmutableFields<S> f) -> int { Rec(E("begin").set("i", id)); Ops(id, f, body); End(id, "bend", how, n); return n; };
    auto ivoid = [&](ImmutableFields<S> f) { Rec(E("begin").set("i", id)); Ops(id, f, body); End(id, "bend", how, n); };
    try {
      if (kind == "v") Hm(e, (*s)->template ReadWriteTransaction<M>(mv));
      else if (kind == "void") Hm(e, (*s)->template ReadWriteTransaction<M>(mvoid));
      else if (kind == "two") Hm(e, (*s)->template ReadWriteTransaction<M>(mv, second));
      else if (kind == "rov") Hm(e, (*s)->template ReadOnlyTransaction<M>(iv));
      else if (kind == "rovoid") Hm(e, (*s)->template ReadOnlyTransaction<M>(ivoid));
      else if (kind == "rotwo") Hm(e, (*s)->template ReadOnlyTransaction<M>(iv, second));
    } catch (const current::storage::StorageInGracefulShutdownException&) { e.set("st", "shutdown");
    } catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) { e.set("st", "follower");
    } catch (const Oops&) { e.set("st", "exc");
    } catch (const current::storage::StorageRollbackException&) { e.set("st", "exc");
    } catch (const std::exception&) { e.set("st", "other"); }
    Rec(e);
  }
  V C(int id, const char* op) { return E("c").set("i", id).set("o", op).set("rw", false).set("two", false).set("valued", false).set("n", 0); }
  V Rt(int id, const char* op, const std::string& st, long long val) { return E("r").set("i", id).set("o", op).set("st", st).set("val", val); }
  void Op(int id, const V& o) {
    if (o.has("tx")) Tx<MutexLockStatus::NeedToLock>(id, o);
    else if (o.has("lock")) {
      auto keep = (*s)->BorrowUnderlyingStream();
      std::lock_guard<std::mutex> l(keep->Impl()->publishing_mutex);
      Rec(C(id, "lock"));
      for (auto& x : o["lock"].a) Tx<MutexLockStatus::AlreadyLocked>(id, x);
      Rec(Rt(id, "lock", "ok", 0));
    } else if (o.has("rest")) std::this_thread::sleep_for(std::chrono::microseconds(o["rest"].i));
    else if (o.has("shutdown")) { Rec(C(id, "shutdown")); (*s)->GracefulShutdown(); Rec(Rt(id, "shutdown", "ok", 0)); }
    else if (o.has("feed")) {
      std::lock_guard<std::mutex> l(feed_mutex);
      if (fed >= feed.size()) return;
      Rec(C(id, "feed")); std::string st = "ok";
      try {
        if (prog["borrow"].i) { auto p = (*stream)->BorrowPublisher(); p->Publish(feed[fed].first, feed[fed].second); }
        else (*stream)->Publisher()->Publish(feed[fed].first, feed[fed].second);
        ++fed;
      } catch (const current::stream::PublisherNotAvailableException&) { st = "no"; }
      Rec(Rt(id, "feed", st, 0));
    } else if (o.has("flip")) {
      Rec(C(id, "flip")); std::string st = "ok";
      try { (*s)->FlipToMaster(); } catch (const current::storage::StorageIsAlreadyMasterException&) { st = "no"; }
      Rec(Rt(id, "flip", st, 0));
    } else if (o.has("is")) { Rec(C(id, "is")); bool b = (*s)->IsMasterStorage(); Rec(Rt(id, "is", "ok", b)); }
    else if (o.has("applied")) { Rec(C(id, "applied")); auto t = (*s)->LastAppliedTimestamp().count(); Rec(Rt(id, "applied", "ok", t < 0 ? -1 : t - base)); }
  }
  template <class STREAM> static V Log(STREAM& str) {
    V l = V::arr();
    for (const auto& x : str->Data()->Iterate()) l.push(TxV(Value<typename S::transaction_t>(x.entry), x.idx_ts.us.count(), base));
    return l;
  }
  template <class ST> void Init(ST& st) {
    for (auto& o : prog["init"].a) st->ReadWriteTransaction([&](MutableFields<S> f) { for (auto& b : o.a) MutateField(f, b.a[1].s, b.a[0].s, (int)b.a[2].i, (int)b.a[3].i, (int)b.a[4].i); }).Go();
  }
  void Go() {
    const bool follower = prog["mode"].s == "follower";
    { sched::NoPreempt np;
      V fl = V::arr(); long long pre = 0;
      if (follower) {
        auto ms = F_MEM::stream_t::CreateStream();
        { auto m = F_MEM::CreateMasterStorageAtopExistingStream(ms); Init(m); }
        for (const auto& x : ms->Data()->Iterate()) feed.emplace_back(Value<typename S::transaction_t>(x.entry), x.idx_ts.us);
        fl = Log(ms);
        while (fed < feed.size() && (long long)fed < prog["pre"].i) { (*stream)->Publisher()->Publish(feed[fed].first, feed[fed].second); ++fed; }
        pre = (long long)fed;
      } else {
        { auto m = S::CreateMasterStorageAtopExistingStream(*stream); Init(m); }
        (*stream)->BecomeMasterStream();
        fl = Log(*stream); pre = (long long)fl.a.size();
      }
      Rec(E("start").set("master", !follower).set("feed", fl).set("pre", pre));
    }
    if (follower) s = std::make_unique<current::Owned<S>>(S::CreateFollowingStorageAtopExistingStream(*stream));
    else s = std::make_unique<current::Owned<S>>(S::CreateMasterStorageAtopExistingStream(*stream));
    std::vector<std::thread> ts;
    for (size_t i = 0; i < prog["threads"].a.size(); ++i) ts.emplace_back([this, i] { for (auto& o : prog["threads"].a[i].a) Op((int)i, o); });
    for (auto& t : ts) t.join();
    // everything which is in the stream is applied sooner or later
    std::chrono::microseconds last(-1);
    { sched::NoPreempt np; for (const auto& x : (*stream)->Data()->Iterate()) last = x.idx_ts.us; }
    while ((*s)->LastAppliedTimestamp() < last) std::this_thread::sleep_for(std::chrono::microseconds(50));
    Rec(E("caughtup"));
    { V o = V::obj().set("tx", "rovoid").set("body", V::arr().push(V::arr().push("view"))).set("end", "ret").set("f2", "ret"); Tx<MutexLockStatus::NeedToLock>(90, o); }
    { sched::NoPreempt np; Rec(E("journal").set("log", Log(*stream))); }
    s = nullptr;
    stream = nullptr;
  }
};
int main(int argc, char** argv) {
  const std::string file = std::string(argc > 1 ? argv[1] : "/tmp") + "/storage." + std::to_string(getpid()) + ".log";
  { auto warm = F_MEM::stream_t::CreateStream(); }
  int rc = Main([&](const V& prog) {
    { sched::NoPreempt n; base = current::time::Now().count(); sched::SetWall(base * 1000); }
    if (prog["file"].i) { Run<F_FILE> r(prog, file); r.Go(); } else { Run<F_MEM> r(prog, file); r.Go(); }
  });
  std::remove(file.c_str());
  return rc;
}
