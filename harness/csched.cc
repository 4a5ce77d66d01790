// See csched.h.  Compiled WITHOUT -fsanitize=thread.
#include "csched.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <new>

// ------------------------------------------------------------------------------------------------ raw primitives
static long RawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
struct Sem {
  int v = 0;
  void Post() { __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST); RawSyscall(SYS_futex, (long)&v, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
  void Wait() {
    for (int i = 0; i < 200; ++i) { if (__atomic_load_n(&v, __ATOMIC_SEQ_CST)) { v = 0; return; } __builtin_ia32_pause(); }
    while (!__atomic_load_n(&v, __ATOMIC_SEQ_CST)) RawSyscall(SYS_futex, (long)&v, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    v = 0;
  }
};
template <class F> static F Real(F, const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(fn) (*[] { static auto p = Real(&fn, #fn); return p; }())

// ------------------------------------------------------------------------------------------------ allocator
// While active, operator new comes from an arena whose freed blocks are never reused and are poisoned.
namespace {
const size_t kArena = 6ull << 30;
char* arena = nullptr; size_t arena_top = 0; unsigned char* shadow = nullptr;
inline bool InArena(const void* p) { return arena && (const char*)p >= arena && (const char*)p < arena + kArena; }
inline bool Poisoned(const void* p) { return InArena(p) && shadow[((const char*)p - arena) >> 4]; }

struct Thr {
  int id = 0; Sem sem; pthread_t pt; bool finished = false, detached = false;
  const void* key = nullptr; int64_t deadline = -1; bool blocked = false, timed_out = false;
  int64_t prio = 0; const char* name = ""; void* ret = nullptr; int nopreempt = 0;
};
struct Mtx { Thr* owner = nullptr; int count = 0; int waiters = 0; };
bool active = false; int np_global = 0;
std::vector<Thr*>* thrs; Thr* cur = nullptr; __thread Thr* self = nullptr;
std::unordered_map<const void*, Mtx>* mtxs;
std::unordered_map<const void*, int>* onces;
sched::Options opt; uint64_t rng; int64_t vclock = 1600000000ll * 1000000000ll, wall_off = 0;
uint64_t steps, switches, run_len_est = 5000; int64_t countdown = 1ll << 60, interval = 0;
// Memory which several threads access and some write, found as the run goes: the places worth switching at.
struct Gran { uintptr_t g; uint32_t run; uint16_t tid; uint8_t wrote, shared; };
const size_t kGran = 1 << 16; Gran gran[kGran]; uint32_t run_no = 0; uint64_t shared_n = 0, shared_est = 500; bool pct_shared = false; double p_shared = 0;
int mode; double p_sync; int64_t mem_mean; std::vector<uint64_t>* change_points; int64_t low_prio = 0; uint64_t last_switch_step = 0;
const std::function<void(const char*, const std::string&)>* stuck_fn = nullptr; bool failing = false;

uint64_t R() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ull >> 11; }
double R01() { return (R() & ((1ull << 50) - 1)) / double(1ull << 50); }
void Recount() {
  if (!opt.mem || mem_mean == 0) countdown = 50000;
  else if (mode == 1) countdown = 1 + (int64_t)(R() % 16);
  else countdown = 1 + (int64_t)(R() % (2 * mem_mean));
  interval = countdown;
}
[[noreturn]] void FailNow(const char* kind, const std::string& detail) {
  if (!failing) {
    failing = true; active = false;
    if (stuck_fn) (*stuck_fn)(kind, detail);
  }
  fflush(stdout); _exit(77);
}
std::string Describe() {
  std::string s;
  for (Thr* t : *thrs) if (!t->finished) {
    char b[160]; snprintf(b, sizeof b, "[%d %s %s%s] ", t->id, t->name, t->blocked ? "blocked" : "runnable", t->deadline >= 0 ? " timed" : "");
    s += b;
  }
  return s;
}
// Chooses the next thread to run; `me` may be blocked or finished.
Thr* Pick(Thr* me) {
  for (;;) {
    Thr* cand[256]; int n = 0; Thr* first = nullptr;
    for (Thr* t : *thrs) {
      if (t->finished) continue;
      if (!t->blocked) { if (n < 256) cand[n++] = t; }
      else if (t->deadline >= 0 && (!first || t->deadline < first->deadline)) first = t;
    }
    if (first && (first->deadline <= vclock || n == 0 || (opt.early_timeouts && R01() < 0.003))) {
      if (first->deadline > vclock) vclock = first->deadline;
      first->blocked = false; first->timed_out = true; first->deadline = -1; first->key = nullptr;
      continue;
    }
    if (!n) return nullptr;
    if (mode == 1) {  // PCT
      Thr* best = cand[0];
      for (int i = 1; i < n; ++i) if (cand[i]->prio > best->prio) best = cand[i];
      return best;
    }
    return cand[R() % n];
  }
}
void SwitchTo(Thr* next) {
  Thr* me = self;
  if (next == me) return;
  last_switch_step = steps;
  ++switches; cur = next; next->sem.Post();
  if (!me->finished) me->sem.Wait();
  // (a failing run never gives the baton back)
}
void Reschedule() {  // the calling thread blocks or may be preempted
  Thr* next = Pick(self);
  if (!next) {
    bool any = false; for (Thr* t : *thrs) any |= !t->finished;
    if (any) FailNow("deadlock", Describe());
    return;
  }
  SwitchTo(next);
}
void Step(bool sync) {
  Thr* me = self;
  if (!active || !me || failing || me->finished) return;
  ++steps;
  if (steps > opt.max_steps) FailNow("livelock", Describe());
  if (me->nopreempt) return;
  if (mode == 1) {
    bool changed = false;
    while (!change_points->empty() && (pct_shared ? shared_n : steps) >= change_points->back()) { change_points->pop_back(); me->prio = --low_prio; changed = true; }
    if (steps - last_switch_step > 3000) {  // a thread which spins must not keep the others from running
       me->prio = --low_prio; last_switch_step = steps; changed = true; }
    if (!sync && !changed) return;
    Reschedule();
  } else {
    if (sync && R01() >= p_sync && steps - last_switch_step < 3000) return;
    Reschedule();
  }
}
void MemPoint() {
  if (!active || !self || self->finished) return;
  steps += interval; Recount(); Step(false);
}
inline void SyncPoint() { ++shared_n; Step(true); }
inline void Shared(const void* p, bool write) {
  const uintptr_t a = (uintptr_t)p >> 3; Gran& e = gran[(a ^ (a >> 16)) & (kGran - 1)]; Thr* me = self;
  if (e.g != a || e.run != run_no) { e.g = a; e.run = run_no; e.tid = (uint16_t)me->id; e.wrote = write; e.shared = 0; return; }
  if (e.tid != me->id) e.shared = 1;
  e.wrote |= write;
  if (!(e.shared && e.wrote)) return;
  ++shared_n;
  if (mode == 1) { if (pct_shared && !change_points->empty() && shared_n >= change_points->back()) Step(false); }
  else if (p_shared > 0 && R01() < p_shared) Step(false);
}

void* StartRoutine(void* p) {
  auto* a = static_cast<std::pair<Thr*, std::pair<void* (*)(void*), void*>>*>(p);
  Thr* t = a->first; auto f = a->second.first; auto arg = a->second.second;
  self = t; t->sem.Wait();
  free(a);
  void* r = f(arg);
  t->ret = r; t->finished = true;
  sched::Wake(t);
  Thr* next = Pick(t);
  self = nullptr;
  if (next) { ++switches; last_switch_step = steps; cur = next; next->sem.Post(); }
  else {
    bool any = false; for (Thr* x : *thrs) any |= !x->finished;
    if (any) FailNow("deadlock", Describe());
  }
  return r;
}
void CrashHandler(int sig) {
  static int once = 0;
  if (once++) _exit(78);
  signal(sig, SIG_DFL);
  char b[64]; snprintf(b, sizeof b, "signal %d", sig);
  FailNow("crash", b);
}
// A run which burns this much processor time without reaching a point where the scheduler counts steps spins for ever.
void SpinHandler(int) { if (active) FailNow("spin", Describe()); }
void Watch(int seconds) { struct itimerval v = {{0, 0}, {seconds, 0}}; setitimer(ITIMER_PROF, &v, nullptr); }
inline bool On() { return active && self && !self->finished && !failing; }
void CheckLive(const void* p, const char* what) {
  if (Poisoned(p)) FailNow("use-after-free", what);
}
}  // namespace

namespace sched {
bool Active() { return active; }
int Tid() { return self ? self->id : -1; }
void Point() { if (On()) SyncPoint(); }
uint64_t Rand(uint64_t n) { return n ? R() % n : 0; }
int64_t NowNs() { return vclock; }
int64_t WallNs() { return vclock + wall_off; }
void SetWall(int64_t ns) { wall_off = ns - vclock; }
uint64_t Steps() { return steps; }
uint64_t Switches() { return switches; }
size_t ArenaUsed() { return arena_top; }
void Name(const char* n) { if (self) self->name = n; }
NoPreempt::NoPreempt() { ++np_global; if (self) ++self->nopreempt; }
NoPreempt::~NoPreempt() { --np_global; if (self) --self->nopreempt; }
void Fail(const char* kind, const std::string& d) { FailNow(kind, d); }
bool Block(const void* key, int64_t deadline) {
  Thr* me = self;
  me->blocked = true; me->key = key; me->deadline = deadline; me->timed_out = false;
  Reschedule();
  return !me->timed_out;
}
void Wake(const void* key, bool all) {
  std::vector<Thr*> w;
  for (Thr* t : *thrs) if (t->blocked && t->key == key) w.push_back(t);
  if (w.empty()) return;
  if (!all) { Thr* t = w[R() % w.size()]; w.assign(1, t); }
  for (Thr* t : w) { t->blocked = false; t->key = nullptr; t->deadline = -1; t->timed_out = false; }
}
void Run(const Options& o, const std::function<void()>& f, const std::function<void(const char*, const std::string&)>& stuck) {
  if (!thrs) {
    thrs = new std::vector<Thr*>; mtxs = new std::unordered_map<const void*, Mtx>; onces = new std::unordered_map<const void*, int>;
    change_points = new std::vector<uint64_t>;
    arena = (char*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (unsigned char*)mmap(nullptr, kArena >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED) { perror("mmap"); _exit(3); }
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, CrashHandler);
    signal(SIGPROF, SpinHandler);
  }
  Watch(15);
  opt = o; rng = o.seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 5; ++i) R();
  thrs->clear(); np_global = 0; mtxs->clear(); onces->clear(); steps = switches = 0; last_switch_step = 0; failing = false; low_prio = 0;
  static const double ps[] = {1.0, 0.5, 0.25, 0.1}; static const int64_t mm[] = {5, 20, 60, 200, 1000, 0};
  mode = R() % 3 == 0 ? 1 : 0; p_sync = ps[R() % 4]; mem_mean = mm[R() % 6];
  static const double pm[] = {0, 0.02, 0.1, 0.3}; p_shared = pm[R() % 4]; pct_shared = R() % 2; shared_n = 0; ++run_no;
  change_points->clear();
  if (mode == 1) {
    if (mem_mean == 0) mem_mean = 100;
    int d = 1 + R() % 4;
    for (int i = 0; i < d; ++i) change_points->push_back(R() % ((pct_shared ? shared_est : run_len_est) + 1));
    for (size_t i = 0; i < change_points->size(); ++i) for (size_t j = i + 1; j < change_points->size(); ++j)
      if ((*change_points)[j] > (*change_points)[i]) std::swap((*change_points)[i], (*change_points)[j]);
  }
  Recount();
  stuck_fn = &stuck;
  Thr main; main.name = "main"; main.prio = 1000 + R() % 1000; self = cur = &main; thrs->push_back(&main);
  active = true;
  f();
  // Wait for the others.
  for (size_t i = 1; i < thrs->size(); ++i) { Thr* t = (*thrs)[i]; while (!t->finished) sched::Block(t); }
  active = false; self = nullptr; stuck_fn = nullptr;
  Watch(0);
  run_len_est = (run_len_est * 7 + steps) / 8; shared_est = (shared_est * 7 + shared_n) / 8;
  for (Thr* t : *thrs) if (t != &main) { if (!t->detached) {} delete t; }
  thrs->clear();
}
}  // namespace sched

// ------------------------------------------------------------------------------------------------ interposition
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!On()) { return REAL(pthread_mutex_lock)(m); }
  CheckLive(m, "mutex locked after being freed");
  SyncPoint();
  Mtx* x = &(*mtxs)[m];
  if (x->owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++x->count; return 0; }
  while (x->owner) { ++x->waiters; sched::Block(m); x = &(*mtxs)[m]; --x->waiters; CheckLive(m, "mutex locked after being freed"); }
  x->owner = self; x->count = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!On()) return REAL(pthread_mutex_trylock)(m);
  CheckLive(m, "mutex locked after being freed");
  SyncPoint();
  Mtx* x = &(*mtxs)[m];
  if (x->owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++x->count; return 0; }
  if (x->owner) return EBUSY;
  x->owner = self; x->count = 1;
  return 0;
}
static void UnlockInternal(const void* m) {
  auto it = mtxs->find(m);
  if (it == mtxs->end() || it->second.owner != self) FailNow("bad-unlock", "a mutex is unlocked by a thread not holding it");
  if (--it->second.count) return;
  it->second.owner = nullptr;
  if (it->second.waiters) sched::Wake(m); else mtxs->erase(it);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!On()) return REAL(pthread_mutex_unlock)(m);
  CheckLive(m, "mutex unlocked after being freed");
  UnlockInternal(m);
  SyncPoint();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (active && self) mtxs->erase(m); return 0; }

static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  CheckLive(c, "condition variable waited for after being freed");
  UnlockInternal(m);
  bool woken;
  if (opt.spurious && R01() < 0.01) { SyncPoint(); woken = true; }
  else woken = sched::Block(c, deadline);
  CheckLive(m, "mutex locked after being freed");
  Mtx* x = &(*mtxs)[m];
  while (x->owner) { ++x->waiters; sched::Block(m); x = &(*mtxs)[m]; --x->waiters; CheckLive(m, "mutex locked after being freed"); }
  x->owner = self; x->count = 1;
  return woken ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!On()) return REAL(pthread_cond_wait)(c, m);
  return CondWait(c, m, -1);
}
static int64_t Ns(const struct timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!On()) return REAL(pthread_cond_timedwait)(c, m, t);
  return CondWait(c, m, Ns(t) - wall_off);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!On()) return REAL(pthread_cond_clockwait)(c, m, k, t);
  return CondWait(c, m, Ns(t) - (k == CLOCK_REALTIME ? wall_off : 0));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!On()) return REAL(pthread_cond_signal)(c);
  CheckLive(c, "condition variable notified after being freed");
  sched::Wake(c, false); SyncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!On()) return REAL(pthread_cond_broadcast)(c);
  CheckLive(c, "condition variable notified after being freed");
  sched::Wake(c, true); SyncPoint();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) { return On() ? 0 : REAL(pthread_cond_destroy)(c); }

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
  if (!On()) return REAL(pthread_create)(out, at, f, arg);
  SyncPoint();
  Thr* t = new Thr; t->id = (int)thrs->size(); t->prio = 1000 + R() % 1000; t->name = "";
  auto* a = (std::pair<Thr*, std::pair<void* (*)(void*), void*>>*)malloc(sizeof(std::pair<Thr*, std::pair<void* (*)(void*), void*>>));
  a->first = t; a->second.first = f; a->second.second = arg;
  pthread_attr_t attr; pthread_attr_init(&attr); pthread_attr_setstacksize(&attr, 1 << 20);
  active = false;  // the real pthread_create may allocate and lock
  int r = REAL(pthread_create)(&t->pt, &attr, &StartRoutine, a);
  active = true;
  pthread_attr_destroy(&attr);
  if (r) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  *out = t->pt;
  thrs->push_back(t);
  SyncPoint();
  return 0;
}
static Thr* Find(pthread_t p) { for (Thr* t : *thrs) if (t->id && t->pt == p && !t->detached) return t; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
  if (!On()) return REAL(pthread_join)(p, ret);
  SyncPoint();
  Thr* t = Find(p);
  if (t == self) return EDEADLK;
  if (t) { while (!t->finished) sched::Block(t); t->detached = true; }
  return REAL(pthread_join)(p, ret);
}
int pthread_detach(pthread_t p) {
  if (On()) { Thr* t = Find(p); if (t) t->detached = true; }
  return REAL(pthread_detach)(p);
}
int sched_yield() {
  if (!On()) return REAL(sched_yield)();
  ++steps; if (steps > opt.max_steps) FailNow("livelock", Describe());
  if (mode == 1) self->prio = --low_prio;
  if (!self->nopreempt) Reschedule();
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (!On()) return REAL(nanosleep)(t, rem);
  ++steps; if (steps > opt.max_steps) FailNow("livelock", Describe());
  sched::Block(t, vclock + Ns(t));
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* t, struct timespec* rem) {
  if (!On()) return REAL(clock_nanosleep)(k, flags, t, rem);
  sched::Block(t, (flags & TIMER_ABSTIME) ? Ns(t) : vclock + Ns(t));
  return 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int clock_gettime(clockid_t k, struct timespec* t) {
  if (!On()) {
    return (int)RawSyscall(SYS_clock_gettime, k, (long)t, 0, 0, 0, 0);
  }
  if (opt.tick_ns) vclock += R() % (2 * opt.tick_ns);
  const int64_t now = vclock + (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? wall_off : 0);
  t->tv_sec = now / 1000000000ll; t->tv_nsec = now % 1000000000ll;
  SyncPoint();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!On()) return REAL(pthread_once)(o, f);
  SyncPoint();
  CheckLive(o, "once_flag used after being freed");
  // *o: 0 = not run, 2 = done (as in glibc); in progress is kept in the side table.
  while ((*onces)[o] == 1) sched::Block(o);
  if (*o == 2) return 0;
  (*onces)[o] = 1;
  struct G { pthread_once_t* o; bool ok = false; ~G() { if (ok) *o = 2; onces->erase(o); sched::Wake(o); } } g{o};
  f();
  g.ok = true;
  return 0;
}
long syscall(long n, ...) {
  va_list v; va_start(v, n);
  long a[6]; for (auto& x : a) x = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && On()) {
    int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      SyncPoint();
      if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      int64_t dl = -1;
      if (a[3]) dl = op == FUTEX_WAIT ? vclock + Ns((struct timespec*)a[3]) : Ns((struct timespec*)a[3]);
      if (!sched::Block((void*)a[0], dl)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { sched::Wake((void*)a[0], true); SyncPoint(); return 1; }
  }
  long r = RawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
// Function-local statics: byte 0 of the guard = initialized; in progress in the side table.
int __cxa_guard_acquire(long long int* g) {
  if (*(volatile char*)g) return 0;
  if (On()) {
    SyncPoint();
    while ((*onces)[g] == 1) sched::Block(g);
    if (*(volatile char*)g) return 0;
    (*onces)[g] = 1;
    return 1;
  }
  // single-threaded outside of runs, or the dynamic loader's and other threads' own statics
  static int spin = 0;
  (void)spin;
  return *(volatile char*)g ? 0 : 1;
}
void __cxa_guard_release(long long int* g) {
  *(volatile char*)g = 1;
  if (onces && onces->erase(g) && active) sched::Wake(g);
}
void __cxa_guard_abort(long long int* g) {
  if (onces && onces->erase(g) && active) sched::Wake(g);
}
}  // extern "C"

// ------------------------------------------------------------------------------------------------ allocation
static void* Alloc(size_t n) {
  if (On()) {
    size_t sz = (n + 16 + 15) & ~size_t(15);
    if (arena_top + sz > kArena) { fprintf(stderr, "arena exhausted\n"); _exit(76); }
    char* p = arena + arena_top; arena_top += sz;
    *(size_t*)p = sz;
    return p + 16;
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void Free(void* p) {
  if (!p) return;
  if (InArena(p)) {
    char* b = (char*)p - 16; size_t sz = *(size_t*)b; size_t i = (b - arena) >> 4;
    if (shadow[i + 1] && On()) FailNow("use-after-free", "double delete");
    memset(shadow + i + 1, 1, (sz >> 4) - 1);
    memset(p, 0xdd, sz - 16);
    return;
  }
  free(p);
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Free(p); }

// ------------------------------------------------------------------------------------------------ __tsan_* stubs
static bool SpuriousCas() { return On() && opt.spurious && R01() < 0.05; }
static inline void Mem(const void* p, bool w) {
  if (__builtin_expect(!active || np_global || !self || failing, 0)) return;
  Shared(p, w);
  if (__builtin_expect(Poisoned(p), 0) && On()) FailNow("use-after-free", "freed memory accessed");
  if (--countdown <= 0) MemPoint();
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { Mem(p, 0); } void __tsan_write##n(void* p) { Mem(p, 1); } \
  void __tsan_unaligned_read##n(void* p) { Mem(p, 0); } void __tsan_unaligned_write##n(void* p) { Mem(p, 1); } \
  void __tsan_volatile_read##n(void* p) { Mem(p, 0); } void __tsan_volatile_write##n(void* p) { Mem(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { Mem(p, 0); }
void __tsan_write_range(void* p, unsigned long) { Mem(p, 1); }
void __tsan_vptr_update(void** p, void*) { Mem(p, 1); }
void __tsan_vptr_read(void** p) { Mem(p, 0); }
static inline void Atomic(const volatile void* p) {
  if (!active || !On()) return;
  if (Poisoned((const void*)p)) FailNow("use-after-free", "freed atomic accessed");
  SyncPoint();
}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { Atomic(a); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { Atomic(a); *a = v; Atomic(a); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { Atomic(a); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { Atomic(a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { Atomic(a); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { Atomic(a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { Atomic(a); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { Atomic(a); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { Atomic(a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { Atomic(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { Atomic(a); if (SpuriousCas()) { *c = *a; return 0; } return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { Atomic(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
