// A stream served over HTTP (P20), under the scheduler, over vnet.
// prog = {"p":"mem"|"file","cut":n,"main":[op..],"threads":[[op..]..],"end":"term"|"cut"|"stream"}
// ops: ["pub",us,"text"] ["head",us] ["get",c,"METHOD","/path?query"] ["quiet"] ["term",c] ["cut",c,reset] ["rest"]
// "main" runs first, then the threads, then everything ends.  Timestamps are microseconds relative to the beginning of the run.
#include "conc.h"
#include <cstdio>
#include <memory>
#include <thread>
#include "blocks/http/api.h"
#include "stream/stream.h"
#include "vnet.h"
#include <sys/socket.h>
using namespace conc;
using current::url::URLPathArgs;
CURRENT_STRUCT(Rec_) { CURRENT_FIELD(s, std::string, ""); CURRENT_CONSTRUCTOR(Rec_)(std::string s = "") : s(std::move(s)) {} };
static const int kPort = 25002;
static long long base;
static long long Now() { return current::time::Now().count() - base; }
static std::chrono::microseconds Us(long long ts) { return std::chrono::microseconds(base + ts); }
static std::string Query(const std::string& q) {  // "since=@12" is relative
  const size_t p = q.find("=@");
  if (p == std::string::npos) return q;
  size_t e = p + 2; while (e < q.size() && isdigit(q[e])) ++e;
  return q.substr(0, p + 1) + std::to_string(base + atoll(q.c_str() + p + 2)) + q.substr(e);
}
struct Client {
  int fd = -1; bool eof = false, closed = false, reset = false; std::string raw; std::thread reader;
  // What has been received: code, headers, the body decoded, whether it is complete.
  V See(int c) const {
    V v = V::obj().set("c", c).set("code", 0).set("size", -1).set("end", 0).set("lines", V::arr());
    const size_t h = raw.find("\r\n\r\n");
    if (h == std::string::npos || raw.compare(0, 9, "HTTP/1.1 ")) { if (eof) v.set("end", 2); return v; }
    v.set("code", atoi(raw.c_str() + 9));
    const std::string hs = raw.substr(0, h + 2);
    const std::string z = Header(hs, "X-Current-Stream-Size");
    if (!z.empty()) v.set("size", atoi(z.c_str()));
    std::string body; bool end = false;
    if (Header(hs, "Transfer-Encoding") == "chunked") {
      size_t p = h + 4;
      while (p < raw.size()) {
        const size_t e = raw.find("\r\n", p);
        if (e == std::string::npos) break;
        const size_t n = strtoul(raw.c_str() + p, nullptr, 16);
        if (!n) { end = raw.compare(e, std::string::npos, "\r\n\r\n") == 0; break; }
        if (raw.size() < e + 2 + n + 2) break;
        body += raw.substr(e + 2, n);
        p = e + 2 + n + 2;
      }
    } else {
      const std::string l = Header(hs, "Content-Length");
      body = raw.substr(h + 4); end = !l.empty() && body.size() == (size_t)atoi(l.c_str());
    }
    v.set("end", end && eof ? 1 : eof ? 2 : 0);
    V lines = V::arr();
    for (size_t p = 0; p < body.size();) {
      const size_t e = body.find('\n', p);
      if (e == std::string::npos) { lines.push("<incomplete>" + body.substr(p)); break; }
      std::string line = body.substr(p, e - p);
      const size_t u = line.find("\"us\":");
      if (u != std::string::npos) {
        size_t d = u + 5; while (d < line.size() && isdigit(line[d])) ++d;
        if (d - u - 5 == 16) line = line.substr(0, u + 5) + std::to_string(atoll(line.c_str() + u + 5) - base) + line.substr(d);
      }
      lines.push(line);
      p = e + 1;
    }
    return v.set("lines", lines);
  }
  static std::string Header(const std::string& hs, const std::string& name) {
    const size_t p = hs.find("\r\n" + name + ": ");
    return p == std::string::npos ? "" : hs.substr(p + name.size() + 4, hs.find("\r\n", p + 2) - p - name.size() - 4);
  }
  std::string Id() const { const size_t h = raw.find("\r\n\r\n"); return h == std::string::npos ? "" : Header(raw.substr(0, h + 2), "X-Current-Stream-Subscription-Id"); }
};
template <template <typename> class P> struct Run {
  using S = current::stream::Stream<Rec_, P>;
  current::Owned<S> s;
  const V& prog;
  std::vector<std::unique_ptr<Client>> cl;
  template <class... X> Run(const V& prog, X&&... x) : s(S::CreateStream(std::forward<X>(x)...)), prog(prog) { for (int i = 0; i < 8; ++i) cl.push_back(std::make_unique<Client>()); }
  void Close(int c, bool reset) {
    Client& x = *cl[c];
    if (x.fd < 0 || x.closed || x.eof) return;
    sched::NoPreempt np;  // (otherwise the descriptor may be somebody else's by the time of the shutdown)
    x.closed = true;
    x.reset = reset;
    ::shutdown(x.fd, SHUT_RD);  // the reader closes
  }
  void Quiet() {
    std::this_thread::sleep_for(std::chrono::milliseconds(60));  // a subscriber may miss a notification, and then looks again in 25ms
    sched::NoPreempt np;
    V all = V::arr();
    for (int c = 0; c < 8; ++c) if (cl[c]->fd >= 0) all.push(cl[c]->See(c).set("cut", cl[c]->closed ? 1 : 0));
    Rec(E("quiet").set("t", Now()).set("see", all));
  }
  void Op(const V& o) {
    const std::string& op = o.a[0].s; const int c = o.a.size() > 1 ? (int)o.a[1].i : 0;
    if (op == "pub") {
      Rec(E("pub").set("us", o.a[1]).set("j", "{\"s\":\"" + o.a[2].s + "\"}"));
      s->Publisher()->Publish(Rec_(o.a[2].s), Us(o.a[1].i));
      Rec(E("did"));
    } else if (op == "head") { Rec(E("head").set("us", o.a[1])); s->Publisher()->UpdateHead(Us(o.a[1].i)); Rec(E("did"));
    } else if (op == "quiet") Quiet();
    else if (op == "get") {
      Client& x = *cl[c];
      x.fd = vnet::Connect(kPort);
      Rec(E("get").set("c", c).set("t", Now()));
      vnet::Send(x.fd, o.a[2].s + " " + Query(o.a[3].s) + " HTTP/1.1\r\nHost: h\r\n" + (o.a[2].s == "GET" || o.a[2].s == "HEAD" ? "" : "Content-Length: 0\r\n") + "\r\n");
      x.reader = std::thread([&x] {
        while (!x.closed) { const std::string d = vnet::RecvSome(x.fd); if (x.closed) break; sched::NoPreempt np; if (d.empty()) { x.eof = true; break; } x.raw += d; }
        vnet::Close(x.fd, x.reset);
      });
    } else if (op == "term") {
      const std::string id = cl[c]->Id();
      Rec(E("term").set("c", c).set("known", id.empty() ? 0 : 1));
      const int fd = vnet::Connect(kPort);
      vnet::Send(fd, "GET /s?terminate=" + (id.empty() ? std::string("nosuch") : id) + " HTTP/1.1\r\n\r\n");
      const std::string r = vnet::RecvAll(fd);
      vnet::Close(fd);
      Rec(E("termd").set("c", c).set("known", id.empty() ? 0 : 1).set("code", r.compare(0, 9, "HTTP/1.1 ") ? 0 : atoi(r.c_str() + 9)));
    } else if (op == "cut") { Rec(E("cut").set("c", c)); Close(c, o.a[2].i); }
  }
  void Go() {
    {
      current::http::HTTPServerPOSIX server(current::net::ReserveLocalPort(kPort));
      auto route = server.Register("/s", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, *s);
      for (auto& o : prog["main"].a) Op(o);
      std::vector<std::thread> ts;
      for (size_t i = 0; i < prog["threads"].a.size(); ++i) ts.emplace_back([this, i] { for (auto& o : prog["threads"].a[i].a) Op(o); });
      for (auto& t : ts) t.join();
      Quiet();
      const std::string end = prog["end"].s;
      if (end == "term") { for (int c = 0; c < 8; ++c) if (cl[c]->fd >= 0 && !cl[c]->closed && !cl[c]->eof) Op(V::arr().push("term").push(c)); Quiet(); }
      if (end == "cut") { for (int c = 0; c < 8; ++c) if (cl[c]->fd >= 0) { Rec(E("cut").set("c", c)); Close(c, c % 2); } for (int i = 0; i < 4; ++i) { Op(V::arr().push("pub").push(1000000 + 2 * i).push("x")); Op(V::arr().push("head").push(1000001 + 2 * i)); Quiet(); } }
      Rec(E("close"));
    }
    { current::Owned<S> gone(std::move(s)); }
    Rec(E("closed"));
    Quiet();
    for (auto& c : cl) { if (c->fd >= 0 && !c->closed) Close((int)(&c - &cl[0]), false); if (c->reader.joinable()) c->reader.join(); }
  }
};
int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  const std::string file = std::string(argc > 1 ? argv[1] : "/tmp") + "/pubsub." + std::to_string(getpid()) + ".log";
  { auto warm = current::stream::Stream<Rec_>::CreateStream(); }
  int rc = Main([&](const V& prog) {
    { sched::NoPreempt n; base = current::time::Now().count(); sched::SetWall(base * 1000); }
    vnet::Options o; o.cut = prog.has("cut") ? (int)prog["cut"].i : 0; vnet::Start(o);
    if (prog["p"].s == "mem") { Run<current::persistence::Memory> r(prog); r.Go(); }
    else { std::remove(file.c_str()); Run<current::persistence::File> r(prog, file); r.Go(); }
    if (vnet::Open()) Rec(E("leak").set("n", vnet::Open()));
  });
  std::remove(file.c_str());
  return rc;
}
