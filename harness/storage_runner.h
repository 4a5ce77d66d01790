// Sequential histories over a storage.  stdin: {"file":0|1, "use":[containers], "ops":[...]}; stdout: {"ev":[...]}.
// ops: {"tx":kind, "body":[[op,c,r,q,v]...], "end":how, "f2":how2}
//   kind: "v" "void" "two" "rov" "rovoid" "rotwo"; end: "ret" "throw" "rb" "rbv" (rollback without / with a value)
//   body op: add erase erase2 readd eraserow erasecol | ["view"] | ["meta",k,v] | ["unmeta",k]
//   {"replay":n} another storage over the first n journal entries (n = -1: over the whole journal, as a file reopened / the same stream)
//   {"reopen":1} (file only) the storage itself is closed and opened again    {"shutdown":1}
#include <fstream>
#include <iostream>
#include "storage_common.h"
using namespace st;
extern std::string dir;
extern V ev;
struct Oops {};
template <class STORAGE> struct Runner {
  using S = STORAGE;
  std::set<std::string> use; int64_t base; V prog; std::string file;
  std::unique_ptr<current::Owned<typename S::stream_t>> stream; std::unique_ptr<current::Owned<S>> s;
  void Open() {
    if constexpr (std::is_same_v<S, F_FILE>) stream = std::make_unique<current::Owned<typename S::stream_t>>(S::stream_t::CreateStream(file));
    else stream = std::make_unique<current::Owned<typename S::stream_t>>(S::stream_t::CreateStream());
    s = std::make_unique<current::Owned<S>>(S::CreateMasterStorageAtopExistingStream(*stream));
  }
  template <class FIELDS> void Ops(FIELDS& f, const V& body, bool rw) {
    for (auto& o : body.a) {
      const std::string& k = o.a[0].s;
      if (k == "view") ev.push(V::obj().set("k", "view").set("d", DumpAll(f, use, base)));
      else if constexpr (!std::is_const_v<FIELDS>) {
        if (k == "meta") { f.SetTransactionMetaField(o.a[1].s, o.a[2].s); ev.push(V::obj().set("k", "meta").set("key", o.a[1].s).set("v", o.a[2].s)); }
        else if (k == "unmeta") { f.EraseTransactionMetaField(o.a[1].s); ev.push(V::obj().set("k", "unmeta").set("key", o.a[1].s)); }
        else {
          MutateField(f, o.a[1].s, k, (int)o.a[2].i, (int)o.a[3].i, (int)o.a[4].i);
                    ev.push(V::obj().set("k", "op").set("op", k == "erase2" ? "erase" : k).set("c", o.a[1].s).set("key", V::arr().push(o.a[2]).push(o.a[3])).set("v", o.a[4]).set("lm", DumpLm(f, o.a[1].s)));
        }
      }
    }
  }
  template <class FIELDS> V DumpLm(const FIELDS& f, const std::string& name) {
#define LM(n, C, T, ro, co) if (name == #n) return Lm(f.n, base, false);
    STORAGE_CONTAINERS(LM)
#undef LM
    return V();
  }
  static void End(const std::string& how, int v) {
    if (how == "throw") throw Oops();
    if (how == "rb") CURRENT_STORAGE_THROW_ROLLBACK();
    if (how == "rbv") CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, v);
  }
  static void Res(V& e, const current::storage::TransactionResult<int>& r) { e.set("st", WasCommitted(r) ? "committed" : "rolledback").set("val", Exists(r) ? (long long)Value(r) : -1ll); }
  static void Res(V& e, const current::storage::TransactionResult<void>& r) { e.set("st", WasCommitted(r) ? "committed" : "rolledback"); }
  void Tx(const V& o, int n) {
    const std::string& kind = o["tx"].s; const std::string how = o["end"].s, f2 = o["f2"].s;
    const bool rw = kind == "v" || kind == "void" || kind == "two";
    ev.push(V::obj().set("k", "begin").set("rw", rw));
    V e = V::obj().set("k", "end").set("how", how).set("f2", kind == "two" || kind == "rotwo" ? f2 : std::string("none")).set("n", n).set("val", -1).set("f2n", 0).set("f2v", -1);
    int f2n = 0, f2v = -1;
    auto second = [&](int v) { ++f2n; f2v = v; End(f2, 0); };
    try {
      if (kind == "v") { auto fut = (*s)->ReadWriteTransaction([&](MutableFields<S> f) -> int { Ops(f, o["body"], true); End(how, n); return n; }); fut.Wait(); Hm(e, fut); }
      else if (kind == "void") { auto fut = (*s)->ReadWriteTransaction([&](MutableFields<S> f) { Ops(f, o["body"], true); End(how, n); }); fut.Wait(); Hm(e, fut); }
      else if (kind == "two") { auto fut = (*s)->ReadWriteTransaction([&](MutableFields<S> f) -> int { Ops(f, o["body"], true); End(how, n); return n; }, second); fut.Wait(); Hm(e, fut); }
      else if (kind == "rov") { auto fut = (*s)->ReadOnlyTransaction([&](ImmutableFields<S> f) -> int { Ops(f, o["body"], false); End(how, n); return n; }); fut.Wait(); Hm(e, fut); }
      else if (kind == "rovoid") { auto fut = (*s)->ReadOnlyTransaction([&](ImmutableFields<S> f) { Ops(f, o["body"], false); End(how, n); }); fut.Wait(); Hm(e, fut); }
      else if (kind == "rotwo") { auto fut = (*s)->ReadOnlyTransaction([&](ImmutableFields<S> f) -> int { Ops(f, o["body"], false); End(how, n); return n; }, second); fut.Wait(); Hm(e, fut); }
    } catch (const current::storage::StorageInGracefulShutdownException&) { e.set("st", "shutdown");
    } catch (const Oops&) { e.set("st", "exc");
    } catch (const current::storage::StorageRollbackException&) { e.set("st", "exc");
    } catch (const std::exception&) { e.set("st", "other"); }
    e.set("f2n", f2n).set("f2v", f2v);
    ev.push(e);
  }
  template <class FUT> void Hm(V& e, FUT& fut) { Res(e, fut.Go()); }
  void Journal() {
    V e = V::obj().set("k", "journal"); V l = V::arr();
    for (const auto& x : (*stream)->Data()->Iterate()) l.push(TxV(Value<typename S::transaction_t>(x.entry), x.idx_ts.us.count(), base));
    e.set("n", (long long)l.a.size()); e.set("last", l.a.empty() ? V::arr() : V::arr().push(l.a.back()));
    e.set("applied", (long long)(*s)->LastAppliedTimestamp().count() < 0 ? -1ll : (long long)((*s)->LastAppliedTimestamp().count() - base));
    ev.push(e);
  }
  void View(const char* k, S& x, int n) {
    x.ReadOnlyTransaction([&](ImmutableFields<S> f) { V e = V::obj().set("k", k).set("d", DumpAll(f, use, base)); if (n >= 0) e.set("n", n); ev.push(e); }).Wait();
  }
  void Replay(int n) {
    const int size = (int)(*stream)->Data()->Size();
    if (n < 0 || n > size) n = size;
    if constexpr (std::is_same_v<S, F_FILE>) {
      const std::string copy = file + ".copy";
      { std::ifstream fi(file); std::ofstream fo(copy); std::string l; int k = 0; while (std::getline(fi, l)) { if (!l.empty() && l[0] != '#' && k++ >= n) break; fo << l << '\n'; } }
      {
        auto st = S::stream_t::CreateStream(copy);
        auto o = S::CreateMasterStorageAtopExistingStream(st);
        View("replay", *o, n);
      }
      std::remove(copy.c_str());
    } else {
      auto st = S::stream_t::CreateStream();
      int k = 0;
      for (const auto& x : (*stream)->Data()->Iterate()) { if (k++ >= n) break; st->Publisher()->Publish(x.entry, x.idx_ts.us); }
      auto o = S::CreateMasterStorageAtopExistingStream(st);
      View("replay", *o, n);
    }
  }
  void Run(const V& p) {
    static int count = 0;
    prog = p; file = dir + "/s" + std::to_string(++count);
    for (auto& x : p["use"].a) use.insert(x.s);
    base = current::time::Now().count() - 1;
    Open();
    int n = 0;
    for (auto& o : p["ops"].a) {
      ++n;
      if (o.has("tx")) { Tx(o, n); Journal(); if (o["v"].i) View("view", **s, -1); }
      else if (o.has("replay")) Replay((int)o["replay"].i);
      else if (o.has("shutdown")) { (*s)->GracefulShutdown(); ev.push(V::obj().set("k", "shutdown")); }
      else if (o.has("reopen") && std::is_same_v<S, F_FILE>) { s = nullptr; stream = nullptr; Open(); ev.push(V::obj().set("k", "reopen")); View("view", **s, -1); }
    }
    s = nullptr; stream = nullptr;
    std::remove(file.c_str());
  }
};
