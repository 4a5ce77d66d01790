// A stream replicated over HTTP (P05), under the scheduler, over vnet.
// prog = {"p":"mem"|"file","rm":"checked"|"unchecked","sub":0|1,"from":0|1,"cut":n,"plan":[[nth,up,down,reset]..],"main":[op..],"threads":[[op..]..]}
// ops: ["pub",us,"text"] ["head",us] ["quiet"] ["start"] ["stop"] ["break",reset] ["refuse",n] ["schema",n,what]: the next n requests for the schema are answered wrongly
//      ["hostile",[[line..],..]]: the next subscriptions are answered with these lines (a line without "\n" is incomplete)
// Timestamps are microseconds relative to the beginning of the run; in hostile lines they are "@us".
#include "conc.h"
#include <cstdio>
#include <deque>
#include <memory>
#include <thread>
#include "blocks/http/api.h"
#include "stream/replicator.h"
#include "stream/stream.h"
#include "vnet.h"
using namespace conc;
using current::url::URLPathArgs;
CURRENT_STRUCT(Rec_) { CURRENT_FIELD(s, std::string, ""); CURRENT_CONSTRUCTOR(Rec_)(std::string s = "") : s(std::move(s)) {} };
CURRENT_STRUCT(Other_) { CURRENT_FIELD(t, uint32_t, 0); };
static const int kPort = 25002;
static long long base;
static std::chrono::microseconds Us(long long ts) { return std::chrono::microseconds(base + ts); }
static long long Rel(std::chrono::microseconds us) { return us.count() >= base ? us.count() - base : us.count(); }
static std::string Abs(const std::string& q) {
  std::string r;
  for (size_t i = 0; i < q.size();) {
    if (q[i] == '@') { size_t e = i + 1; while (e < q.size() && isdigit(q[e])) ++e; r += std::to_string(base + atoll(q.c_str() + i + 1)); i = e; } else r += q[i++];
  }
  return r;
}
static int Refuse = 0;
using S0 = current::ss::EntryResponse;
// The replicator, with a record of what reaches it.
template <typename STREAM> struct Watched : current::stream::StreamReplicatorImpl<STREAM> {
  using base_t = current::stream::StreamReplicatorImpl<STREAM>;
  using base_t::base_t;
  template <class F> S0 Do(const char* k, long long i, long long us, const std::string& j, F&& f) {
    Rec(E("rx").set("o", k).set("i", i).set("us", us).set("j", j));
    try { const S0 r = f(); Rec(E("rxd").set("ok", 1)); return r; } catch (const current::Exception&) { Rec(E("rxd").set("ok", 0)); throw; }
  }
  S0 operator()(Rec_&& e, idxts_t c, idxts_t l) { return Do("pub", c.index, Rel(c.us), JSON(e), [&] { return base_t::operator()(std::move(e), c, l); }); }
  S0 operator()(const Rec_& e, idxts_t c, idxts_t l) { return Do("pub", c.index, Rel(c.us), JSON(e), [&] { return base_t::operator()(e, c, l); }); }
  S0 operator()(const std::string& raw, uint64_t n, idxts_t l) {
    long long i = -2, us = -2; std::string j;
    const size_t t = raw.find('\t');
    try { const auto x = ParseJSON<idxts_t>(raw.substr(0, t)); i = x.index; us = Rel(x.us); j = raw.substr(t + 1); } catch (const current::Exception&) {}
    return Do("pub", i, us, j, [&] { return base_t::operator()(raw, n, l); });
  }
  S0 operator()(std::chrono::microseconds us) { return Do("head", -1, Rel(us), "", [&] { return base_t::operator()(us); }); }
};
template <typename STREAM> using Replicator = current::ss::StreamSubscriber<Watched<STREAM>, typename STREAM::entry_t>;
template <template <typename> class P> struct Run {
  using S = current::stream::Stream<Rec_, P>;
  current::Owned<S> m, f;
  const V& prog;
  std::unique_ptr<Replicator<S>> repl;
  std::unique_ptr<current::stream::SubscribableRemoteStream<Rec_>> remote;
  current::stream::SubscriberScope scope;
  bool on = false;
  int schema = 0; std::string schema_what;
  std::deque<std::vector<std::string>> hostile;
  Run(const V& prog, const std::string& a, const std::string& b) : m(Make(a)), f(Make(b)), prog(prog) {}
  static current::Owned<S> Make(const std::string& file) {
    if constexpr (std::is_same_v<S, current::stream::Stream<Rec_, current::persistence::Memory>>) return S::CreateStream(); else return S::CreateStream(file);
  }
  static V Log(S& s) {
    V v = V::arr();
    for (const auto& e : s.Data()->Iterate()) v.push(V::obj().set("us", Rel(e.idx_ts.us)).set("j", JSON(e.entry)));
    return v;
  }
  void Quiet() {
    std::this_thread::sleep_for(std::chrono::milliseconds(60));
    Rec(E("quiet").set("mh", Head(*m)).set("fh", Head(*f)).set("m", Log(*m)).set("f", Log(*f)).set("left", (long long)hostile.size()));
  }
  static long long Head(S& s) { return Rel(s.Data()->CurrentHead()); }
  bool Unchecked() { return prog["rm"].s == "unchecked"; }
  void Op(const V& o) {
    const std::string& op = o.a[0].s;
    if (op == "pub") {
      Rec(E("pub").set("us", o.a[1]).set("j", JSON(Rec_(o.a[2].s))));
      m->Publisher()->Publish(Rec_(o.a[2].s), Us(o.a[1].i));
      Rec(E("did"));
    } else if (op == "head") { Rec(E("head").set("us", o.a[1])); m->Publisher()->UpdateHead(Us(o.a[1].i)); Rec(E("did"));
    } else if (op == "quiet") Quiet();
    else if (op == "start" && !on) {
      for (int i = 0; i < 20 && !remote; ++i) { try { remote = std::make_unique<current::stream::SubscribableRemoteStream<Rec_>>("http://127.0.0.1:" + std::to_string(kPort) + "/s"); } catch (const current::Exception& e) { Rec(E("nostart")); } }
      if (!remote) return;
      const uint64_t i = f->Data()->Size();
      const auto from = prog["from"].i ? f->Data()->CurrentHead() + std::chrono::microseconds(1) : std::chrono::microseconds(0);
      const auto sm = prog["sub"].i ? current::stream::SubscriptionMode::Checked : current::stream::SubscriptionMode::Unchecked;
      Rec(E("start").set("from", Rel(from)));
      if (Unchecked()) scope = remote->SubscribeUnchecked(*repl, i, from, sm); else scope = remote->Subscribe(*repl, i, from, sm);
      on = true;
    } else if (op == "stop" && on) { Rec(E("stop")); scope = nullptr; Rec(E("stopped")); on = false; if (o.a.size() > 1 && o.a[1].i) remote = nullptr;
    } else if (op == "break") vnet::BreakAll(kPort, o.a[1].i);
    else if (op == "refuse") Refuse = (int)o.a[1].i;
    else if (op == "schema") { sched::NoPreempt np; schema = (int)o.a[1].i; schema_what = o.a[2].s; }
    else if (op == "hostile") { sched::NoPreempt np; for (auto& x : o.a[1].a) { std::vector<std::string> v; for (auto& l : x.a) v.push_back(l.s); hostile.push_back(v); } }
  }
  void Serve(Request r) {
    const auto& q = r.url.query;
    if (r.url_path_args.size() == 1) {
      std::string what;
      { sched::NoPreempt np; if (schema > 0) { --schema; what = schema_what; } }
      if (what.empty()) { (*m)(std::move(r)); return; }
      if (what == "500") r("no", HTTPResponseCode.InternalServerError);
      else if (what == "garbage") r("garbage");
      else {
        const auto id = Value<current::reflection::ReflectedTypeBase>(current::reflection::Reflector().ReflectType<Other_>()).type_id;
        r(current::stream::SubscribableStreamSchema(id, "Other_", "X"));
      }
      return;
    }
    if (!q.has("terminate")) {
      std::vector<std::string> say; bool h = false;
      {
        sched::NoPreempt np;
        V v = E("req").set("i", atoll(q["i"].c_str())).set("since", q.has("since") ? atoll(q["since"].c_str()) - base : 0).set("chk", q.has("checked") ? 1 : 0);
        if (!hostile.empty()) { h = true; say = hostile.front(); hostile.pop_front(); V l = V::arr(); for (auto& x : say) l.push(x); v.set("say", l); }
        Rec(v);
      }
      if (h) {
        auto out = r.SendChunkedResponse(HTTPResponseCode.OK, current::net::http::Headers({{"X-Current-Stream-Subscription-Id", "hostile"}}));
        try { std::string all; for (auto& l : say) all += Abs(l); const size_t w = (size_t)prog["whole"].i; if (w > 1) { for (size_t i = 0; i < all.size(); i += w - 1) out(all.substr(i, w - 1)); } else if (w) out(all); else for (auto& l : say) if (!l.empty()) out(Abs(l)); } catch (const current::net::NetworkException&) {}
        return;
      }
    }
    (*m)(std::move(r));
  }
  void Go() {
    repl = std::make_unique<Replicator<S>>(f);
    {
      current::http::HTTPServerPOSIX server(current::net::ReserveLocalPort(kPort));
      auto route = server.Register("/s", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, [this](Request r) { Serve(std::move(r)); });
      for (auto& o : prog["main"].a) Op(o);
      std::vector<std::thread> ts;
      for (size_t i = 0; i < prog["threads"].a.size(); ++i) ts.emplace_back([this, i] { for (auto& o : prog["threads"].a[i].a) Op(o); });
      for (auto& t : ts) t.join();
      Quiet();
      Op(V::arr().push("stop"));
      Quiet();
    }
    repl = nullptr;
    Rec(E("end").set("f", Log(*f)));
  }
};
int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  if (!freopen("/dev/null", "w", stderr)) return 3;
  const std::string file = std::string(argc > 1 ? argv[1] : "/tmp") + "/replication." + std::to_string(getpid()) + ".";
  { auto warm = current::stream::Stream<Rec_>::CreateStream(); }
  int rc = Main([&](const V& prog) {
    { sched::NoPreempt n; base = current::time::Now().count(); sched::SetWall(base * 1000); }
    Refuse = 0;
    vnet::Options o; o.cut = (int)prog["cut"].i;
    o.refuse = [](int) { if (Refuse > 0) { --Refuse; return true; } return false; };
    o.plan = [&prog](int, int nth, int64_t& up, int64_t& down, bool& reset) { for (auto& x : prog["plan"].a) if (x.a[0].i == nth) { up = x.a[1].i; down = x.a[2].i; reset = x.a[3].i; } };
    vnet::Start(o);
    std::remove((file + "m").c_str()); std::remove((file + "f").c_str());
    if (prog["p"].s == "mem") { Run<current::persistence::Memory> r(prog, "", ""); r.Go(); }
    else { Run<current::persistence::File> r(prog, file + "m", file + "f"); r.Go(); }
    if (vnet::Open()) Rec(E("leak").set("n", vnet::Open()));
  });
  std::remove((file + "m").c_str()); std::remove((file + "f").c_str());
  return rc;
}
