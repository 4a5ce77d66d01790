// A storage behind REST interfaces, plain and structured (P12).  prog = {"ops":[...], "use":[containers]}
// ops: {"m":method,"u":url,"h":[[name,value]..],"b":body,"ius":{"c","r","q","d","form"}?} one request (`ius`: If-Unmodified-Since is d after
//   the time when the element was last modified)   {"sleep":ms}   {"follow":1} the storage becomes a following one   {"master":1}   {"down":1}
#define STORAGE_REST
#include "conc.h"
#include <memory>
#include <thread>
#include "storage_common.h"
#include "storage/api.h"
#include "storage/rest/simple.h"
#include "storage/rest/hypermedia.h"
#include "vnet.h"
#include <netinet/in.h>
#include <sys/socket.h>
#include <arpa/inet.h>
using namespace conc;
using namespace st;
using S_ = F_MEM;
static const int kPort = 25003;
static int64_t base;
CURRENT_STRUCT(Has) {
  CURRENT_FIELD(key, int32_t, 0);
  template <class FIELDS> Response Query(const FIELDS& f, const current::storage::rest::cqs::CQSParameters&) const { return Response(f.Du.Has(key) ? "yes" : "no"); }
};
// Erases `from`, then adds it as `to`.  A rollback if there is nothing to move.
CURRENT_STRUCT(Move) {
  CURRENT_FIELD(from, int32_t, 0);
  CURRENT_FIELD(to, int32_t, 0);
  CURRENT_FIELD(bad, int32_t, 0);
  template <class FIELDS> Response Command(FIELDS f, const current::storage::rest::cqs::CQSParameters&) const {
    const ImmutableOptional<DI> x = f.Du[from];
    if (!Exists(x)) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Response, Response("nothing", HTTPResponseCode.NotFound));
    DI e = Value(x);
    f.Du.Erase(from);
    e.key = to;
    f.Du.Add(e);
    if (bad) CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(Response, Response("rolled back", HTTPResponseCode.BadRequest));
    return Response("moved");
  }
};
static std::string Exchange(const std::string& request) {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(kPort);
  if (connect(fd, (sockaddr*)&a, sizeof(a))) return "";
  size_t p = 0;
  while (p < request.size()) { const ssize_t n = send(fd, request.data() + p, request.size() - p, MSG_NOSIGNAL); if (n <= 0) break; p += n; }
  std::string r; char b[4096];
  while (true) { const ssize_t n = recv(fd, b, sizeof(b), 0); if (n <= 0) break; r.append(b, n); }
  shutdown(fd, SHUT_RDWR); close(fd);
  return r;
}
struct World {
  current::Owned<S_::stream_t> stream = S_::stream_t::CreateStream();
  std::unique_ptr<current::Owned<S_>> s;
  std::unique_ptr<RESTfulStorage<S_>> plain;
  std::unique_ptr<RESTfulStorage<S_, current::storage::rest::Simple>> simple;
  std::unique_ptr<RESTfulStorage<S_, current::storage::rest::Hypermedia>> hyper;
  size_t n = 0; std::set<std::string> use;
  void Open(bool master) {
    s = std::make_unique<current::Owned<S_>>(master ? S_::CreateMasterStorageAtopExistingStream(stream) : S_::CreateFollowingStorageAtopExistingStream(stream));
    plain = std::make_unique<RESTfulStorage<S_>>(**s, kPort, "/plain", "http://x/plain");
    simple = std::make_unique<RESTfulStorage<S_, current::storage::rest::Simple>>(**s, kPort, "/simple", "http://x/simple");
    hyper = std::make_unique<RESTfulStorage<S_, current::storage::rest::Hypermedia>>(**s, kPort, "/hyper", "http://x/hyper");
    plain->AddCQSQuery<Has>("has"); simple->AddCQSQuery<Has>("has"); hyper->AddCQSQuery<Has>("has");
    plain->AddCQSCommand<Move>("move"); simple->AddCQSCommand<Move>("move"); hyper->AddCQSCommand<Move>("move");
    if (!master) std::this_thread::sleep_for(std::chrono::milliseconds(50));  // it catches up in its own thread
  }
  void Close() { hyper = nullptr; simple = nullptr; plain = nullptr; s = nullptr; }
  V Seen() {
    V j = V::arr(); size_t k = 0;
    for (const auto& x : stream->Data()->Iterate()) if (k++ >= n) j.push(TxV(Value<S_::transaction_t>(x.entry), x.idx_ts.us.count(), base));
    n = k;
    return j;
  }
  V Dump() { V d; (*s)->ReadOnlyTransaction([&](ImmutableFields<S_> f) { d = DumpAll(f, use, base); }).Wait(); return d; }
  int64_t Lm(const std::string& c, int r, int q) {
    int64_t res = -1;
    (*s)->ReadOnlyTransaction([&](ImmutableFields<S_> f) {
#define LM1(n, C, T, ro, co) if (c == #n) { const V l = st::Lm(f.n, base, false); for (auto& x : l.a) if (x.a[0].a[0].i == r && x.a[0].a[1].i == q) res = x.a[1].i; }
      STORAGE_CONTAINERS(LM1)
    }).Wait();
    return res;
  }
};
static void Body(const V& p) {
  base = current::time::Now().count() / 1000000 * 1000000;
  {
    World w;
    for (auto& x : p["use"].a) w.use.insert(x.s);
    w.Open(true);
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    int i = 0;
    for (auto& o : p["ops"].a) {
      if (o.has("sleep")) std::this_thread::sleep_for(std::chrono::milliseconds(o["sleep"].i));
      else if (o.has("follow")) { w.Close(); w.Open(false); Rec(E("reopen").set("d", w.Dump())); }
      else if (o.has("master")) { (*w.s)->FlipToMaster(); Rec(E("master").set("d", w.Dump())); }
      else if (o.has("down")) { w.plain->SwitchHTTPEndpointsTo503s(); w.simple->SwitchHTTPEndpointsTo503s(); w.hyper->SwitchHTTPEndpointsTo503s(); Rec(E("down")); }
      else {
        std::string r = o["m"].s + " " + o["u"].s + " HTTP/1.1\r\nHost: localhost\r\n";
        for (auto& h : o["h"].a) r += h.a[0].s + ": " + h.a[1].s + "\r\n";
        long long ius = -1;
        if (o.has("ius")) {
          const V& u = o["ius"];
          const int64_t lm = w.Lm(u["c"].s, (int)u["r"].i, (int)u["q"].i);
          ius = (lm < 0 ? 5 : lm) + u["d"].i;
          if (ius < 1) ius = 1;
          if (u["form"].s == "us") r += "X-Current-If-Unmodified-Since: " + std::to_string(base + ius) + "\r\n";
          else {  // a date is a whole second
            const auto t = std::chrono::microseconds(base + ius);
            r += "If-Unmodified-Since: " + (u["form"].s == "date" ? current::FormatDateTimeAsIMFFix(t) : current::FormatDateTimeAsRFC850(t)) + "\r\n";
            ius = ius / 1000000 * 1000000 + 999999;
          }
        }
        const bool body = !o["b"].s.empty() || (o["m"].s != "GET" && o["m"].s != "DELETE" && o["m"].s != "HEAD");
        if (body) r += "Content-Length: " + std::to_string(o["b"].s.size()) + "\r\n";
        r += "\r\n" + o["b"].s;
        const std::string a = Exchange(r);
        Rec(E("req").set("i", i).set("ius", ius).set("raw", a).set("j", w.Seen()).set("d", w.Dump()).set("base", (long long)(base / 1000000)));
      }
      ++i;
    }
    w.Close();
  }
  current::Singleton<HTTP_IMPL::HandlersSingleton>().servers.clear();
}
int main() { return Main(Body); }
