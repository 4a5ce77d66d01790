// HTTP: requests in every fragmentation (P17), routes (P18), responses (P19).  Runs under the scheduler over vnet.
#include "blocks/http/api.h"
#include "conc.h"
#include "vnet.h"
#include <condition_variable>
#include <mutex>
#include <thread>
using conc::E;
using mj::V;
using namespace current::net;
using current::url::URLPathArgs;
static V Bytes(const std::string& s) { V v = V::arr(); for (unsigned char c : s) v.push((int)c); return v; }
static std::string Str(const V& v) { std::string s; for (auto& x : v.a) s += (char)x.i; return s; }
static const int kPort = 25001;
static vnet::Options Net(const V& p) {
  vnet::Options o;
  o.cut = p.has("cut") ? (int)p["cut"].i : 1;
  if (p.has("window")) o.window = p["window"].i;
  return o;
}
template <class T> static V Headers(const T& h) {
  V v = V::arr();
  for (const auto& x : h) { V q = V::arr(); q.push(Bytes(x.header)); q.push(Bytes(x.value)); v.push(q); }
  return v;
}
template <class T> static V Cookies(const T& h) {
  V v = V::arr();
  for (const auto& x : h.cookies) { V q = V::arr(); q.push(Bytes(x.first)); q.push(Bytes(x.second.value)); v.push(q); }
  return v;
}
static int Code(const std::string& resp) { return resp.compare(0, 9, "HTTP/1.1 ") == 0 ? atoi(resp.c_str() + 9) : 0; }
// A client which speaks bytes: sends the pieces, then ends as told; returns the response's code.
static int RawClient(const V& c) {
  int fd = vnet::Connect(kPort);
  if (fd < 0) return -1;
  for (const V& piece : c["in"].a) { if (!vnet::Send(fd, Str(piece))) break; for (int i = 0; i < 3; ++i) sched::Point(); }
  const std::string end = c["end"].s;
  int code = 0;
  if (end == "half") { vnet::HalfClose(fd); code = Code(vnet::RecvAll(fd)); vnet::Close(fd); }
  else if (end == "keep") { code = Code(vnet::RecvAll(fd)); vnet::Close(fd); }
  else vnet::Close(fd, end == "reset");
  return code;
}
static V got;
static void Got(const HTTPRequestData& d) {
  sched::NoPreempt np;
  got = V::obj().set("m", Bytes(d.Method())).set("p", Bytes(d.RawPath())).set("h", Headers(d.headers())).set("ck", Cookies(d.headers())).set("b", Bytes(d.Body()));
}
static void Conn(const V& c, int code, int buf) {
  std::string all;
  for (const V& x : c["in"].a) all += Str(x);
  V e = E("conn").set("in", Bytes(all)).set("end", c["end"].s).set("buf", buf).set("code", code).set("got", got.t == V::Obj ? 1 : 0);
  if (got.t == V::Obj) e.set("r", got);
  Rec(e);
}
// {"t":"req","buf":n,"k100":growth,"cut":..,"conns":[{"in":[[bytes]..],"end":"half|keep|close|reset"}]}
static void ReqServer(const V& p) {
  current::http::HTTPServerPOSIX server(ReserveLocalPort(kPort));
  auto scope = server.Register("/", URLPathArgs::CountMask::Any, [](Request r) {
    Got(r.http_data);
    r("OK");
  });
  for (const V& c : p["conns"].a) {
    { sched::NoPreempt np; got = V(); }
    int code = RawClient(c);
    // The server serves one connection at a time: when this one is answered, the previous one is over.
    int fd = vnet::Connect(kPort);
    V save;
    { V g = got; (void)g; }
    vnet::Send(fd, "GET /__probe/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q HTTP/1.1\r\n\r\n");
    std::string resp = vnet::RecvAll(fd);
    vnet::Close(fd);
    if (Code(resp) != 404) Rec(E("dead").set("code", Code(resp)));
    Conn(c, code, 0);
  }
}
static void ReqDirect(const V& p) {
  Socket socket(ReserveLocalPort(kPort));
  for (const V& c : p["conns"].a) {
    { sched::NoPreempt np; got = V(); }
    int code = 0;
    std::thread t([&] { code = RawClient(c); });
    try {
      HTTPServerConnection conn(socket.Accept(), HTTPDefaultHelper::ConstructionParams(), (int)p["buf"].i, p["k100"].i / 100.0);
      Got(conn.HTTPRequest());
      conn.SendHTTPResponse("OK");
    } catch (const current::Exception&) {
    }
    t.join();
    Conn(c, code, (int)p["buf"].i);
  }
}
// ---------------------------------------------------------------------------------------------------- responses
// {"t":"resp","items":[{"how":"whole|chunks|response|vector","code":n,"ct":[..],"h":[[k,v]..],"ck":[[k,v]..],"body":[..],"chunks":[{"d":[..],"f":0|1}],
//  "cache":n,"ack":0|1,"client":"get|chunked|file","order":n,"down":n,"reset":0|1}]}; {"how":"echo","m":..,"p":..,"h":..,"ck":..,"body":..,"ct":..}
struct Acks {
  std::mutex m;
  std::condition_variable cv;
  int received = 0;
};
static const V* item;
static Acks* acks;
static int nth_item;
template <uint64_t CACHE> static void SendChunks(Request& r, const V& p, const http::Headers& h) {
  auto s = r.connection.SendChunkedHTTPResponse<CACHE>(HTTPResponseCode(static_cast<int>(p["code"].i)), h, Str(p["ct"]));
  int n = 0;
  for (const V& c : p["chunks"].a) {
    s(Str(c["d"]), c["f"].i ? ChunkFlush::Flush : ChunkFlush::NoFlush);
    if (c["d"].a.size()) ++n;
    if (c["f"].i && p["ack"].i) {  // What is flushed is received without anything else being sent.
      std::unique_lock<std::mutex> lock(acks->m);
      acks->cv.wait(lock, [&] { return acks->received >= n; });
    }
  }
}
static http::Headers HeadersOf(const V& p) {
  http::Headers h;
  for (const V& x : p["h"].a) h.Set(Str(x.a[0]), Str(x.a[1]));
  for (const V& x : p["ck"].a) h.SetCookie(Str(x.a[0]), Str(x.a[1]));
  return h;
}
static void Serve(Request& r) {
  const V& p = *item;
  try {
    const http::Headers h = HeadersOf(p);
    const auto code = HTTPResponseCode(static_cast<int>(p["code"].i));
    const std::string how = p["how"].s, ct = Str(p["ct"]);
    if (how == "whole") {
      r(Str(p["body"]), code, h, ct);
    } else if (how == "vector") {
      const std::string b = Str(p["body"]);
      r(std::vector<uint8_t>(b.begin(), b.end()), code, ct, h);
    } else if (how == "response") {
      Response resp(Str(p["body"]), code, ct, h);
      if (p["order"].i & 1) resp.DisableCORS();
      r(resp);
    } else if (how == "built") {
      r(Response().Body(Str(p["body"])).Code(code).ContentType(ct).Headers(h));
    } else if (how == "echo") {
      Got(r.http_data);
      r("OK");
    } else {
      switch (p["cache"].i) {
        case 16: SendChunks<16>(r, p, h); break;
        case 64: SendChunks<64>(r, p, h); break;
        default: SendChunks<4096>(r, p, h); break;
      }
    }
  } catch (const current::Exception&) {
  }
}
template <class T> static T With(T t, const V& p) {
  for (const V& x : p["h"].a) t.SetHeader(Str(x.a[0]), Str(x.a[1]));
  for (const V& x : p["ck"].a) t.SetCookie(Str(x.a[0]), Str(x.a[1]));
  return t;
}
static void Echo(const V& p) {
  { sched::NoPreempt np; got = V(); }
  const std::string url = "http://localhost:" + std::to_string(kPort) + Str(p["p"]), m = Str(p["m"]), body = Str(p["body"]), ct = Str(p["ct"]);
  V e = E("echo").set("q", p);
  int code = 0, ex = 0;
  try {
    if (m == "GET") code = static_cast<int>(HTTP(With(GET(url), p)).code);
    else if (m == "HEAD") code = static_cast<int>(HTTP(With(HEAD(url), p)).code);
    else if (m == "DELETE") code = static_cast<int>(HTTP(With(DELETE(url), p)).code);
    else if (m == "PUT") code = static_cast<int>(HTTP(With(PUT(url, body, ct), p)).code);
    else if (m == "PATCH") code = static_cast<int>(HTTP(With(PATCH(url, body, ct), p)).code);
    else code = static_cast<int>(HTTP(With(POST(url, body, ct), p)).code);
  } catch (const current::Exception&) {
    ex = 1;
  }
  e.set("ex", ex).set("code", code);
  if (got.t == V::Obj) e.set("r", got);
  Rec(e);
}
static void OneResp(const V& p, const std::string& dir) {
  const std::string url = "http://localhost:" + std::to_string(kPort) + "/r";
  V e = E("resp").set("q", p);
  V chunks = V::arr(), lines = V::arr(), hs = V::arr(), ck = V::arr();
  int code = 0, done = 0, ex = 0;
  V body = V::arr();
  try {
    if (p["client"].s == "get") {
      auto r = HTTP(GET(url));
      code = static_cast<int>(r.code);
      body = Bytes(r.body);
      hs = Headers(r.headers);
      ck = Cookies(r.headers);
    } else if (p["client"].s == "file") {
      const std::string fn = dir + "/" + std::to_string(getpid());
      auto r = HTTP(GET(url), current::http::SaveResponseToFile(fn));
      code = static_cast<int>(r.code);
      body = Bytes(current::FileSystem::ReadFileAsString(r.body_file_name));
      hs = Headers(r.headers);
      ck = Cookies(r.headers);
      current::FileSystem::RmFile(fn);
    } else {
      const int order = (int)p["order"].i;
      const auto fh = [&](const std::string& k, const std::string& v) { sched::NoPreempt np; V q = V::arr(); q.push(Bytes(k)); q.push(Bytes(v)); hs.push(q); };
      const auto fc = [&](const std::string& c) {
        { sched::NoPreempt np; chunks.push(Bytes(c)); }
        std::lock_guard<std::mutex> lock(acks->m);
        ++acks->received;
        acks->cv.notify_all();
      };
      const auto fl = [&](const std::string& l) { sched::NoPreempt np; lines.push(Bytes(l)); };
      const auto fd = [&] { ++done; };
      if (order == 0) {
        ChunkedGET g(url, fh, fc, fd);
        g.OnLine(fl);
        code = static_cast<int>(HTTP(g));
      } else {
        ChunkedGET g(url);
        g.OnHeader(fh);
        if (order == 1) g.OnLine(fl).OnChunk(fc).OnDone(fd); else if (order == 2) g.OnDone(fd).OnChunk(fc).OnLine(fl); else g.OnChunk(fc).OnDone(fd).OnLine(fl);
        code = static_cast<int>(HTTP(g));
      }
    }
  } catch (const current::Exception&) {
    ex = 1;
  }
  Rec(e.set("ex", ex).set("code", code).set("body", body).set("chunks", chunks).set("lines", lines).set("done", done).set("h", hs).set("ck", ck));
}
static void Resp(const V& p) {
  vnet::Options o = Net(p);
  nth_item = 0;
  o.plan = [&](int, int nth, int64_t&, int64_t& down, bool& reset) { if (item && item->has("down") && (*item)["down"].i >= 0) { down = (*item)["down"].i; reset = (*item)["reset"].i; } };
  vnet::Opt() = o;
  item = nullptr;
  current::http::HTTPServerPOSIX server(ReserveLocalPort(kPort));
  auto scope = server.Register("/", URLPathArgs::CountMask::Any, [&](Request r) { Serve(r); });
  for (const V& i : p["items"].a) {
    Acks a;
    acks = &a;
    item = &i;
    if (i["how"].s == "echo") Echo(i); else OneResp(i, p["dir"].s);
  }
  item = nullptr;
}
// ---------------------------------------------------------------------------------------------------- routes
// {"t":"route","threads":[[op..]..]}; op: {"o":"reg","path":[..],"mask":n,"upd":0|1,"id":n,"slot":n,"inner":[op..]} {"o":"drop","slot":n} {"o":"req","path":[..]} {"o":"count"}
// What a handler does itself ("inner") is done by "thread" 4.
struct Slots {
  std::map<int, HTTPRoutesScope> scopes;
};
static void RouteOp(current::http::HTTPServerPOSIX& server, const V& op, int tid, int& reqs, Slots& my, Slots& inner) {
  const std::string o = op["o"].s;
  const std::string path = op.has("path") ? Str(op["path"]) : "";
  if (o == "reg") {
    Rec(E("call").set("t", tid).set("op", op));
    std::string res = "ok";
    const int id = (int)op["id"].i;
    const V in = op.has("inner") ? op["inner"] : V::arr();
    std::function<void(Request)> f = [id, in, &server, &reqs, &inner](Request r) {
      V args = V::arr();
      for (const auto& a : r.url_path_args) args.push(Bytes(a));
      const int n = atoi(r.headers.GetOrDefault("N", "0").c_str());
      Rec(E("in").set("id", id).set("n", n).set("args", args).set("base", Bytes(r.url.path)).set("slash", r.url_path_had_trailing_slash ? 1 : 0));
      sched::Point();
      for (const V& x : in.a) RouteOp(server, x, 4, reqs, inner, inner);
      r(current::ToString(id));
      Rec(E("out").set("id", id).set("n", n));
    };
    try {
      const auto mask = static_cast<URLPathArgs::CountMask>((uint16_t)op["mask"].i);
      if (op["upd"].i) my.scopes[(int)op["slot"].i] += server.Register<ReRegisterRoute::SilentlyUpdateExisting>(path, mask, f);
      else if (op["mask"].i == 1 && id % 2) my.scopes[(int)op["slot"].i] += server.Register(path, f);
      else my.scopes[(int)op["slot"].i] += server.Register(path, mask, f);
    } catch (const current::http::HandlerAlreadyExistsException&) { res = "exists";
    } catch (const current::http::HandlerDoesNotExistException&) { res = "missing";
    } catch (const current::http::PathDoesNotStartWithSlash&) { res = "noslash";
    } catch (const current::http::PathEndsWithSlash&) { res = "endslash";
    } catch (const current::http::PathContainsInvalidCharacters&) { res = "chars"; }
    Rec(E("ret").set("t", tid).set("res", res));
  } else if (o == "drop") {
    Rec(E("call").set("t", tid).set("op", op));
    my.scopes.erase((int)op["slot"].i);
    Rec(E("ret").set("t", tid).set("res", "ok"));
  } else if (o == "dropall") {
    Rec(E("call").set("t", tid).set("op", op));
    my.scopes.clear();
    Rec(E("ret").set("t", tid).set("res", "ok"));
  } else if (o == "count") {
    Rec(E("call").set("t", tid).set("op", op));
    int n = (int)server.PathHandlersCount();
    Rec(E("ret").set("t", tid).set("res", n));
  } else if (o == "req") {
    int n; { sched::NoPreempt np; n = ++reqs; }
    Rec(E("call").set("t", tid).set("op", V(op).set("n", n)));
    int fd = vnet::Connect(kPort);
    vnet::Send(fd, "GET " + path + " HTTP/1.1\r\nN: " + std::to_string(n) + "\r\n\r\n");
    const std::string r = vnet::RecvAll(fd);
    vnet::Close(fd);
    const size_t b = r.find("\r\n\r\n");
    const int code = Code(r);
    Rec(E("ret").set("t", tid).set("res", code == 200 && b != std::string::npos ? atoi(r.c_str() + b + 4) : -code));
  }
}
static void RouteOps(current::http::HTTPServerPOSIX& server, const V& ops, int tid, int& reqs, Slots& inner) {
  Slots my;
  for (const V& op : ops.a) RouteOp(server, op, tid, reqs, my, inner);
  RouteOp(server, V::obj().set("o", "dropall"), tid, reqs, my, inner);
}
static void Routes(const V& p) {
  current::http::HTTPServerPOSIX server(ReserveLocalPort(kPort));
  int reqs = 0;
  Slots inner;
  std::vector<std::thread> ts;
  for (size_t i = 1; i < p["threads"].a.size(); ++i) ts.emplace_back([&, i] { sched::Name("user"); RouteOps(server, p["threads"].a[i], (int)i + 1, reqs, inner); });
  RouteOps(server, p["threads"].a[0], 1, reqs, inner);
  for (auto& t : ts) t.join();
  RouteOp(server, V::obj().set("o", "dropall"), 4, reqs, inner, inner);
}
static void Body(const V& p) {
  vnet::Start(Net(p));
  const std::string t = p["t"].s;
  if (t == "req") { if (p["buf"].i) ReqDirect(p); else ReqServer(p); }
  else if (t == "resp") Resp(p);
  else if (t == "route") Routes(p);
  if (vnet::Open()) Rec(E("leak").set("n", vnet::Open()));
}
int main() { std::cerr.setstate(std::ios::failbit); return conc::Main(Body); }
