// See vnet.h.  Compiled WITHOUT -fsanitize=thread.
#include "vnet.h"
#include "csched.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace {
const int kBase = 1000000, kMax = 4096;
struct Buf {  // one direction of a connection
  char* p = nullptr; size_t n = 0, cap = 0, off = 0; bool eof = false, reset = false; int64_t budget = -1;
  void Put(const char* d, size_t k) {
    if (off && off == n) off = n = 0;
    if (n + k > cap) { cap = (n + k) * 2; p = (char*)realloc(p, cap); }
    memcpy(p + n, d, k); n += k;
  }
  size_t Avail() const { return n - off; }
};
struct Link { Buf up, down; int refs = 2; int port = 0; bool reset_on_break = false; };  // up: connecting side -> accepting side
enum Kind { kFree, kNew, kListen, kConn };
struct Sock { Kind kind = kFree; int port = 0; int pending[256]; int np = 0; Link* link = nullptr; bool client = false; bool sent_to_closed = false; bool rd_shut = false, wr_shut = false; };
Sock socks[kMax]; int counts[65536]; vnet::Options* options; int local_port = 40000;
bool Virt(int fd) { return fd >= kBase && fd < kBase + kMax && sched::Active(); }
Sock& S(int fd) { return socks[fd - kBase]; }
Buf& In(Sock& s) { return s.client ? s.link->down : s.link->up; }
Buf& Out(Sock& s) { return s.client ? s.link->up : s.link->down; }
int NewFd() { for (int i = 0; i < kMax; ++i) if (socks[i].kind == kFree) { socks[i] = Sock(); socks[i].kind = kNew; return kBase + i; } errno = EMFILE; return -1; }
Sock* Listener(int port) { for (auto& s : socks) if (s.kind == kListen && s.port == port) return &s; return nullptr; }
void Break(Link* l, bool reset) {
  for (Buf* b : {&l->up, &l->down}) { if (reset) { b->reset = true; } b->eof = true; }
  sched::Wake(&l->up); sched::Wake(&l->down);
}
int DoConnect(int fd, int port) {
  Sock& s = S(fd);
  Sock* l = Listener(port);
  if (!l || (vnet::Opt().refuse && vnet::Opt().refuse(port)) || l->np >= 250) { errno = ECONNREFUSED; return -1; }
  Link* k = new (malloc(sizeof(Link))) Link; k->port = port;
  int64_t up = -1, down = -1; bool reset = false;
  if (vnet::Opt().plan) vnet::Opt().plan(port, counts[port], up, down, reset);
  ++counts[port];
  k->up.budget = up; k->down.budget = down; k->reset_on_break = reset;
  s.kind = kConn; s.link = k; s.client = true; s.port = port;
  int a = NewFd();
  Sock& t = S(a); t.kind = kConn; t.link = k; t.client = false; t.port = port;
  l->pending[l->np++] = a;
  sched::Wake(l);
  return 0;
}
ssize_t DoSend(int fd, const char* p, size_t n) {
  Sock& s = S(fd);
  if (s.kind != kConn) { errno = ENOTCONN; return -1; }
  if (s.wr_shut) { errno = EPIPE; return -1; }
  size_t done = 0;
  while (done < n) {
    Buf& o = Out(s);
    if (o.reset) { errno = ECONNRESET; return -1; }
    if (o.eof) {  // the other side is gone: the first data sent there is lost, after that sending fails
      if (s.sent_to_closed) { errno = EPIPE; return -1; }
      s.sent_to_closed = true; In(s).reset = true;
      return (ssize_t)n;
    }
    size_t room = vnet::Opt().window > o.Avail() ? vnet::Opt().window - o.Avail() : 0;
    if (!room) { sched::Block(&o); continue; }
    size_t k = n - done < room ? n - done : room;
    bool brk = false;
    if (o.budget >= 0) { if ((int64_t)k >= o.budget) { k = (size_t)o.budget; brk = true; } o.budget -= (int64_t)k; }
    o.Put(p + done, k); done += k;
    if (brk) { Break(s.link, s.link->reset_on_break); s.sent_to_closed = true; return (ssize_t)n; }
    sched::Wake(&o);
  }
  return (ssize_t)n;
}
ssize_t DoRecv(int fd, char* p, size_t n, bool all) {
  Sock& s = S(fd);
  if (s.kind != kConn) { errno = ENOTCONN; return -1; }
  size_t got = 0;
  for (;;) {
    Buf& b = In(s);
    if (b.Avail()) {
      size_t k = b.Avail() < n - got ? b.Avail() : n - got;
      if (!all) {
        switch (vnet::Opt().cut) {
          case 1: k = 1 + sched::Rand(sched::Rand(3) ? k : (k < 8 ? k : 8)); break;
          case 2: k = 1; break;
          case 3: if (sched::Rand(8) == 0) k = 1 + sched::Rand(k); break;
        }
      }
      memcpy(p + got, b.p + b.off, k); b.off += k; got += k;
      sched::Wake(&b);
      if (!all || got == n) return (ssize_t)got;
      continue;
    }
    if (b.reset) { if (got) return (ssize_t)got; b.reset = false; b.eof = true; errno = ECONNRESET; return -1; }
    if (b.eof || s.rd_shut) return (ssize_t)got;
    sched::Block(&b);
  }
}
void Unref(Link* l) { if (!--l->refs) { free(l->up.p); free(l->down.p); free(l); } }
void DoClose(int fd, bool reset) {
  Sock& s = S(fd);
  if (s.kind == kConn) {
    Buf& o = Out(s); Buf& in = In(s);
    if (reset || in.Avail()) o.reset = true;   // closing with unread data resets the connection
    o.eof = true; in.eof = true;
    sched::Wake(&o); sched::Wake(&in);
    Unref(s.link);
  } else if (s.kind == kListen) {
    s.kind = kFree;
    for (int i = 0; i < s.np; ++i) DoClose(s.pending[i], true);
    sched::Wake(&s);
  }
  s.kind = kFree; s.link = nullptr;
}
struct Quiet { sched::NoPreempt* n; char b[sizeof(sched::NoPreempt)]; Quiet() { n = new (b) sched::NoPreempt; } ~Quiet() { n->~NoPreempt(); } };
}  // namespace

namespace vnet {
Options& Opt() { if (!options) options = new Options; return *options; }
void Start(const Options& o) { Opt() = o; for (auto& s : socks) s.kind = kFree; memset(counts, 0, sizeof counts); local_port = 40000; }
int Connections(int port) { return counts[port]; }
int Open() { int n = 0; for (auto& s : socks) n += s.kind != kFree; return n; }
void BreakAll(int port, bool reset) {
  for (auto& s : socks) if (s.kind == kConn && s.port == port && s.client) Break(s.link, reset);
}
int Connect(int port) {
  sched::Point();
  int fd = NewFd();
  if (DoConnect(fd, port)) { S(fd).kind = kFree; return -1; }
  return fd;
}
bool Send(int fd, const std::string& d) { sched::Point(); return DoSend(fd, d.data(), d.size()) == (ssize_t)d.size(); }
std::string RecvSome(int fd) { sched::Point(); char b[4096]; ssize_t k = DoRecv(fd, b, sizeof b, false); return k > 0 ? std::string(b, k) : std::string(); }
std::string RecvAll(int fd) { std::string r; for (;;) { auto s = RecvSome(fd); if (s.empty()) return r; r += s; } }
void HalfClose(int fd) { sched::Point(); Sock& s = S(fd); s.wr_shut = true; Buf& o = Out(s); o.eof = true; sched::Wake(&o); }
void Close(int fd, bool reset) { sched::Point(); DoClose(fd, reset); }
}  // namespace vnet

static long Raw(long n, long a, long b, long c) { return ::syscall(n, a, b, c); }
extern "C" {
int socket(int d, int t, int p) { if (!sched::Active() || d != AF_INET) return (int)Raw(SYS_socket, d, t, p); sched::Point(); return NewFd(); }
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (!Virt(fd)) return (int)::syscall(SYS_setsockopt, fd, l, o, v, n); return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t n) {
  if (!Virt(fd)) return (int)::syscall(SYS_bind, fd, a, n);
  sched::Point();
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  for (auto& s : socks) if ((s.kind == kListen || s.kind == kNew) && s.port == port && port) { errno = EADDRINUSE; return -1; }
  S(fd).port = port; return 0;
}
int listen(int fd, int n) { if (!Virt(fd)) return (int)::syscall(SYS_listen, fd, n); sched::Point(); S(fd).kind = kListen; S(fd).np = 0; return 0; }
int accept(int fd, struct sockaddr* a, socklen_t* n) {
  if (!Virt(fd)) return (int)::syscall(SYS_accept, fd, a, n);
  sched::Point();
  Sock& s = S(fd);
  while (s.kind == kListen && !s.np) sched::Block(&s);
  if (s.kind != kListen) { errno = EBADF; return -1; }
  int c = s.pending[0];
  for (int i = 1; i < s.np; ++i) s.pending[i - 1] = s.pending[i];
  --s.np;
  sockaddr_in* i = (sockaddr_in*)a; memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_port = htons(local_port++); i->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  return c;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* n) {
  if (!Virt(fd)) return (int)::syscall(SYS_getsockname, fd, a, n);
  sockaddr_in* i = (sockaddr_in*)a; memset(i, 0, sizeof *i); i->sin_family = AF_INET; i->sin_port = htons(S(fd).port); i->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (!Virt(fd)) return (int)::syscall(SYS_connect, fd, a, n);
  sched::Point();
  return DoConnect(fd, ntohs(((const sockaddr_in*)a)->sin_port));
}
ssize_t send(int fd, const void* p, size_t n, int flags) {
  if (!Virt(fd)) return ::syscall(SYS_sendto, fd, p, n, flags, nullptr, 0);
  sched::Point();
  return DoSend(fd, (const char*)p, n);
}
ssize_t recv(int fd, void* p, size_t n, int flags) {
  if (!Virt(fd)) return ::syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr);
  sched::Point();
  return DoRecv(fd, (char*)p, n, flags & MSG_WAITALL);
}
int shutdown(int fd, int how) {
  if (!Virt(fd)) return (int)Raw(SYS_shutdown, fd, how, 0);
  sched::Point();
  Sock& s = S(fd);
  if (s.kind != kConn) { errno = ENOTCONN; return -1; }
  if (how == SHUT_WR || how == SHUT_RDWR) { s.wr_shut = true; Out(s).eof = true; sched::Wake(&Out(s)); }
  if (how == SHUT_RD || how == SHUT_RDWR) { s.rd_shut = true; sched::Wake(&In(s)); }
  return 0;
}
int close(int fd) { if (!Virt(fd)) return (int)Raw(SYS_close, fd, 0, 0); sched::Point(); DoClose(fd, false); return 0; }
int getaddrinfo(const char* host, const char* serv, const struct addrinfo*, struct addrinfo** res) {
  const bool num = host && (!strcmp(host, "localhost") || !strcmp(host, "127.0.0.1"));
  *res = nullptr;
  if (!num) return EAI_NONAME;
  addrinfo* r = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
  sockaddr_in* i = (sockaddr_in*)(r + 1); i->sin_family = AF_INET; i->sin_port = htons(serv ? atoi(serv) : 0); i->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  r->ai_family = AF_INET; r->ai_socktype = SOCK_STREAM; r->ai_addr = (sockaddr*)i; r->ai_addrlen = sizeof *i;
  *res = r; return 0;
}
void freeaddrinfo(struct addrinfo* r) { free(r); }
}
