// Streams which take over from one another (P06), under the scheduler, over vnet.
// prog = {"p":"mem"|"file","rm":"checked"|"unchecked","sub":0|1,"n":2|3,"cut":k,"plan":[[port,nth,up,down,reset]..],"main":[op..],"threads":[[op..]..],"end":[nodes]}
// ops (nodes are 1..n): ["pub",n,"text"] ["head",n] (with times which increase)  ["flip",n,key's node, 0: a wrong key] ["follow",n,m] ["expose",n,{idx,size,head,clock}]
//   ["unexpose",n] ["ask",n,size,head,key's node,clock: how far off | null] ["sleep",us] ["quiet"]
#include "conc.h"
#include <cstdio>
#include <memory>
#include <thread>
#include "blocks/http/api.h"
#include "stream/replicator.h"
#include "stream/stream.h"
#include "vnet.h"
using namespace conc;
CURRENT_STRUCT(Rec_) { CURRENT_FIELD(s, std::string, ""); CURRENT_CONSTRUCTOR(Rec_)(std::string s = "") : s(std::move(s)) {} };
static const int kPort = 25010;
static long long base, clk;
static long long Now() { return current::time::Now().count() - base; }
static std::chrono::microseconds Us(long long ts) { return std::chrono::microseconds(base + ts); }
static long long Rel(std::chrono::microseconds us) { return us.count() >= base ? us.count() - base : us.count(); }
template <template <typename> class P, current::stream::ReplicationMode RM> struct Run {
  using S = current::stream::Stream<Rec_, P>;
  using C = current::stream::MasterFlipController<S, current::stream::StreamReplicator<S>, RM>;
  const V& prog; const std::string file; const int n;
  std::vector<std::unique_ptr<C>> c;
  std::vector<uint64_t> key;
  std::vector<V> cb;  // started, finished, canceled
  std::vector<int> to, gen, seq;
  Run(const V& prog, const std::string& file) : prog(prog), file(file), n((int)prog["n"].i), c(n + 1), key(n + 1, 1), cb(n + 1), to(n + 1, 0), gen(n + 1, 0), seq(n + 1, 0) {
    for (int i = 1; i <= n; ++i) { cb[i] = V::arr().push(0).push(0).push(0); c[i] = std::make_unique<C>(Make(file + std::to_string(i))); }
  }
  static current::Owned<S> Make(const std::string& f) {
    std::remove(f.c_str());
    if constexpr (std::is_same_v<S, current::stream::Stream<Rec_, current::persistence::Memory>>) return S::CreateStream(); else return S::CreateStream(f);
  }
  static std::string Url(int i) { return "http://127.0.0.1:" + std::to_string(kPort + i) + "/s"; }
  void Called(int i, int k) { sched::NoPreempt np; cb[i].a[k].i++; if (k == 0) seq[i] = gen[i]; if (k == 1 && seq[i] == gen[i]) to[i] = 0; }  // (that it has finished is told in a thread of its own, maybe after it follows another one)
  V NoAnswer() { return V::obj().set("code", 0).set("log", V::arr()).set("head", -1); }
  V Ask(int m, long long size, long long hd, uint64_t k, const std::string& clock) {
    const int fd = vnet::Connect(kPort + m);
    if (fd < 0) return NoAnswer();
    vnet::Send(fd, "GET /s/control/flip_to_master?" + (size ? "i=" + std::to_string(size - 1) + "&" : std::string()) + "head=" + std::to_string(hd >= 0 ? base + hd : hd) + "&key=" + std::to_string(k) + clock +
                       (prog["sub"].i ? "&checked" : "") + " HTTP/1.1\r\nHost: h\r\n\r\n");
    const std::string r = vnet::RecvAll(fd);
    vnet::Close(fd);
    const size_t h = r.find("\r\n\r\n");
    if (h == std::string::npos || r.compare(0, 12, "HTTP/1.1 200")) return NoAnswer();
    V log = V::arr(); long long head = -1;
    for (size_t b = h + 4; b < r.size();) {
      const size_t e = r.find('\n', b);
      const std::string line = r.substr(b, e - b);
      const size_t t = line.find('\t');
      if (t == std::string::npos) head = Rel(ParseJSON<ts_only_t>(line).us);
      else { const auto x = ParseJSON<idxts_t>(line.substr(0, t)); log.push(V::obj().set("us", Rel(x.us)).set("j", line.substr(t + 1))); if ((long long)x.index != size + (long long)log.a.size() - 1) head = -9; }
      if (e == std::string::npos) break;
      b = e + 1;
    }
    return V::obj().set("code", 200).set("log", log).set("head", head);
  }
  void Op(const V& o, int t) {
    const std::string& op = o.a[0].s; const int i = o.a.size() > 1 ? (int)o.a[1].i : 0;
    if (op == "quiet") {
      std::this_thread::sleep_for(std::chrono::milliseconds(150));
      V all = V::arr();
      for (int k = 1; k <= n; ++k) {
        V log = V::arr();
        for (const auto& e : (*c[k])->Data()->Iterate()) log.push(V::obj().set("us", Rel(e.idx_ts.us)).set("j", JSON(e.entry)));
        all.push(V::obj().set("master", c[k]->IsMasterStream() ? 1 : 0).set("log", log).set("head", Rel((*c[k])->Data()->CurrentHead())).set("cb", cb[k]));
      }
      Rec(E("quiet").set("ns", all));
      return;
    }
    if (op == "sleep") { std::this_thread::sleep_for(std::chrono::microseconds(o.a[1].i)); return; }
    V x = V::obj().set("o", op).set("n", i), r;
    auto Begin = [&] { Rec(E("call").set("t", t).set("x", x)); };
    { sched::NoPreempt np; x.set("now", Now()); }
    if (op == "pub" || op == "head") {
      long long us; { sched::NoPreempt np; us = clk += 3; }
      x.set("us", us);
      if (op == "pub") x.set("j", JSON(Rec_(o.a[2].s)));
      Begin();
      try { auto p = (*c[i])->BorrowPublisher(); if (op == "pub") p->Publish(Rec_(o.a[2].s), Us(us)); else p->UpdateHead(Us(us)); r = V("ok"); }
      catch (const current::stream::PublisherNotAvailableException&) { r = V("refused"); }
      catch (const current::ss::InconsistentTimestampException&) { r = V("late"); }
    } else if (op == "flip") {
      x.set("key", o.a[2]); Begin();
      try { c[i]->FlipToMaster(o.a[2].i ? key[o.a[2].i] : 12345); to[i] = 0; r = V("ok"); }
      catch (const current::stream::StreamIsAlreadyMasterException&) { r = V("already"); }
      catch (const current::stream::StreamDoesNotFollowAnyoneException&) { r = V("nobody"); }
      catch (const current::stream::RemoteStreamRefusedFlipRequestException&) { r = V("refused"); }
      catch (const current::Exception& e) { r = V("exc"); }
    } else if (op == "follow") {
      // neither in a circle nor away from what has been published
      for (int k = (int)o.a[2].i; k; k = c[k]->IsMasterStream() ? 0 : to[k]) if (k == i) return;
      if (clk && c[i]->IsMasterStream()) return;
      x.set("m", o.a[2]); Begin();
      try { c[i]->FollowRemoteStream(Url((int)o.a[2].i), prog["sub"].i ? current::stream::SubscriptionMode::Checked : current::stream::SubscriptionMode::Unchecked); r = V("ok"); to[i] = (int)o.a[2].i; ++gen[i]; }
      catch (const current::stream::StreamIsAlreadyFollowingException&) { r = V("already"); }
      catch (const current::Exception& e) { r = V("exc"); }
    } else if (op == "expose") {
      x.set("x", o.a[2]); Begin();
      try {
        key[i] = c[i]->ExposeViaHTTP(kPort + i, "/s", current::stream::MasterFlipRestrictions().SetMaxIndexDifference(o.a[2]["idx"].i).SetMaxDiffSize(o.a[2]["size"].i)
            .SetMaxHeadDifference(std::chrono::microseconds(o.a[2]["head"].i)).SetMaxClockDifference(std::chrono::microseconds(o.a[2]["clock"].i)),
            [this, i] { Called(i, 0); }, [this, i] { Called(i, 1); }, [this, i] { Called(i, 2); });
        r = V("ok");
        std::this_thread::sleep_for(std::chrono::microseconds(10));  // the server's thread begins to listen
      } catch (const current::stream::StreamIsAlreadyExposedException&) { r = V("already"); }
    } else if (op == "unexpose") {
      for (int k = 1; k <= n; ++k) if (to[k] == i && !c[k]->IsMasterStream()) return;  // they would try to connect again without a pause
      Begin();
      try { c[i]->StopExposingViaHTTP(); r = V("ok"); } catch (const current::stream::StreamIsNotExposedException&) { r = V("not"); }
    } else if (op == "ask") {
      const bool has = o.a[5].t != V::Null;
      const long long cl = x["now"].i + (has ? o.a[5].i : 0);
      x.set("a", V::obj().set("size", o.a[2]).set("hd", o.a[3]).set("key", o.a[4]).set("clk", has ? cl : -1)); Begin();
      r = Ask(i, o.a[2].i, o.a[3].i, o.a[4].i ? key[o.a[4].i] : 12345, has ? "&clock=" + std::to_string(base + cl) : "");
    }
    Rec(E("ret").set("t", t).set("r", r));
  }
  void Go() {
    for (auto& o : prog["main"].a) Op(o, 0);
    std::vector<std::thread> ts;
    for (size_t i = 0; i < prog["threads"].a.size(); ++i) ts.emplace_back([this, i] { for (auto& o : prog["threads"].a[i].a) Op(o, (int)i + 1); });
    for (auto& t : ts) t.join();
    Op(V::arr().push("quiet"), 0);
    for (auto& x : prog["after"].a) Op(x, 0);
    Op(V::arr().push("quiet"), 0);
    // nobody is followed any more when it goes: those who cannot connect try again without a pause
    for (int i = 1; i <= n; ++i) if (c[i]->IsMasterStream()) to[i] = 0;
    for (int left = n; left;) {
      int pick = 0;
      for (auto& x : prog["end"].a) { bool ok = !!c[x.i]; for (int k = 1; k <= n; ++k) if (c[k] && to[k] == x.i) ok = false; if (ok) { pick = (int)x.i; break; } }
      if (!pick) for (int k = 1; k <= n; ++k) if (c[k]) pick = k;
      c[pick] = nullptr; --left;
    }
    c.clear();
    auto& h = current::Singleton<HTTP_IMPL::HandlersSingleton>();
    h.servers.clear();
    for (int i = 1; i <= n; ++i) std::remove((file + std::to_string(i)).c_str());
  }
};
int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  if (!freopen("/dev/null", "w", stderr)) return 3;
  const std::string file = std::string(argc > 1 ? argv[1] : "/tmp") + "/flip." + std::to_string(getpid()) + ".";
  { auto warm = current::stream::Stream<Rec_>::CreateStream(); }
  return Main([&](const V& prog) {
    { sched::NoPreempt n; base = current::time::Now().count(); sched::SetWall(base * 1000); }
    clk = 0;
    vnet::Options o; o.cut = (int)prog["cut"].i;
    o.plan = [&prog](int port, int nth, int64_t& up, int64_t& down, bool& reset) { for (auto& x : prog["plan"].a) if (kPort + x.a[0].i == port && x.a[1].i == nth) { up = x.a[2].i; down = x.a[3].i; reset = x.a[4].i; } };
    vnet::Start(o);
    using current::persistence::File; using current::persistence::Memory; using RM = current::stream::ReplicationMode;
    if (prog["p"].s == "mem") { if (prog["rm"].s == "checked") { Run<Memory, RM::Checked> r(prog, file); r.Go(); } else { Run<Memory, RM::Unchecked> r(prog, file); r.Go(); } }
    else { if (prog["rm"].s == "checked") { Run<File, RM::Checked> r(prog, file); r.Go(); } else { Run<File, RM::Unchecked> r(prog, file); r.Go(); } }
    if (vnet::Open()) Rec(E("leak").set("n", vnet::Open()));
  });
}
