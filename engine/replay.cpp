// Native replay: runs a harness compiled from the same optimised bitcode (instrumented with LLVM's TSan pass, linked
// against the real libstdc++) under the inputs and the schedule found by the engine.
#include <thread>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include "sym.h"

typedef uint64_t u64;
static bool active = false;
static thread_local int inrt = 0;
struct G { G() { inrt++; } ~G() { inrt--; } };
static int outfd = 1;
static std::vector<u64> dm;
static size_t dmi = 0;
static std::vector<u64> logv;
static std::vector<int> sched;
static size_t si = 0;
static u64 ops = 0;
static bool diverged = false;
static int64_t g_clock = 1000000000;
static u64 g_jit = 0;
static int g_jitn = 0;
static bool raceOn = true, mt = false;

static void finish(const char* kind, const char* msg) {
  active = false;
  inrt++;
  std::string s = std::string("RESULT\t") + kind + "\t" + msg + "\t" + (diverged ? "1" : "0") + "\t";
  for (u64 v : logv) s += std::to_string((unsigned long long)v) + ",";
  s += "\n";
  size_t o = 0;
  while (o < s.size()) { ssize_t w = write(outfd, s.data() + o, s.size() - o); if (w <= 0) break; o += (size_t)w; }
  _exit(0);
}

// ---------------------------------------------------------------- heap
struct Blk { size_t n; bool freed; };
static std::map<uintptr_t, Blk>* heap;
static int64_t live = 0;
void* operator new(size_t n) {
  if (!active || inrt) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
  G g;
  char* p = (char*)malloc(n + 96) + 48;
  memset(p - 48, 0xAA, n + 96);
  (*heap)[(uintptr_t)p] = {n, false};
  live++;
  return p;
}
static void chkrace_free(void* p, size_t n);
void operator delete(void* p) noexcept {
  if (!p) return;
  if (heap && (active) && !inrt) {
    G g;
    auto it = heap->find((uintptr_t)p);
    if (it != heap->end()) {
      if (it->second.freed) finish("memory", "double free");
      chkrace_free(p, it->second.n);
      it->second.freed = true;
      live--;
      return;
    }
  }
  if (heap) { G g; if (heap->count((uintptr_t)p)) return; }
  free(p);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static void access(uintptr_t a, size_t n, bool wr) {
  if (heap->empty()) return;
  auto it = heap->upper_bound(a);
  if (it != heap->begin()) {
    auto p = std::prev(it);
    uintptr_t b = p->first;
    if (a < b + p->second.n + 48) {
      if (a + n > b + p->second.n) finish("memory", wr ? "out of bounds write" : "out of bounds read");
      if (p->second.freed) finish("memory", wr ? "use after free (write)" : "use after free (read)");
      return;
    }
  }
  if (it != heap->end() && a + n > it->first - 48 && a < it->first) finish("memory", "out of bounds");
}

// ---------------------------------------------------------------- happens-before
static const int MT = 8;
struct VC { unsigned v[MT] = {0}; void join(const VC& o) { for (int i = 0; i < MT; i++) if (o.v[i] > v[i]) v[i] = o.v[i]; } void clear() { memset(v, 0, sizeof v); } };
enum St { RUN, MUTEX, JOIN, COND, SLEEP, JOINALL, DONE };
struct Th {
  int id;
  sem_t sem;
  St st = RUN;
  void* wm = nullptr;
  void* wc = nullptr;
  int wj = 0;
  bool signaled = false, timed = false, timedout = false, noPoint = false;
  int64_t deadline = 0;
  VC vc, acq, rel;
  bool hasRel = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
static std::vector<Th*> ths;
static thread_local Th* self = nullptr;
struct Mx { int owner = -1, cnt = 0; VC vc; };
static std::map<void*, Mx>* mxs;
struct At { VC rel; bool has = false; };
static std::map<void*, At>* ats;
struct Rec { int tid; uintptr_t a; unsigned n; int fl; unsigned clk; };
static std::map<uintptr_t, std::vector<Rec>>* recs;
static int alive = 1;

static void race(uintptr_t a, size_t n, bool wr, bool atomic) {
  if (!mt || !raceOn || !self) return;
  int fl = (wr ? 1 : 0) | (atomic ? 2 : 0);
  for (uintptr_t w = a / 8; w <= (a + n - 1) / 8; w++) {
    auto& v = (*recs)[w];
    for (auto& r : v) {
      if (r.tid == self->id || !((r.fl | fl) & 1) || (r.fl & fl & 2)) continue;
      if (r.a < a + n && a < r.a + r.n && r.clk > self->vc.v[r.tid]) finish("race", "data race");
    }
    bool found = false;
    for (auto& r : v) if (r.tid == self->id && r.a == a && r.n == n && r.fl == fl) { r.clk = self->vc.v[self->id]; found = true; }
    if (!found) v.push_back({self->id, a, (unsigned)n, fl, self->vc.v[self->id]});
  }
}
static void chkrace_free(void* p, size_t n) { if (n) race((uintptr_t)p, n, true, false); }
static bool isAcq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool isRel(int o) { return o == 3 || o == 4 || o == 5; }
static void hbLoad(void* p, int o) {
  if (!mt || !self) return;
  auto it = ats->find(p);
  if (it == ats->end() || !it->second.has) return;
  if (isAcq(o)) self->vc.join(it->second.rel); else self->acq.join(it->second.rel);
}
static void hbStore(void* p, int o, bool rmw) {
  if (!mt || !self) return;
  At& a = (*ats)[p];
  if (!rmw || !a.has) { a.rel.clear(); a.has = false; }
  if (isRel(o)) { a.rel.join(self->vc); a.has = true; self->vc.v[self->id]++; }
  else if (self->hasRel) { a.rel.join(self->rel); a.has = true; }
}

// ---------------------------------------------------------------- scheduling
static bool mfree(void* m, int me) { auto& x = (*mxs)[m]; return x.owner < 0 || x.owner == me; }
static bool enabled(Th* t) {
  switch (t->st) {
    case RUN: return true;
    case MUTEX: return mfree(t->wm, t->id);
    case JOIN: return ths[t->wj]->st == DONE;
    case JOINALL: for (auto* o : ths) if (o != t && o->st != DONE) return false; return true;
    case COND: return t->signaled && mfree(t->wm, t->id);
    default: return false;
  }
}
static bool timedReady(Th* t) { return t->st == SLEEP || (t->st == COND && t->timed && !t->signaled && mfree(t->wm, t->id)); }
static void go(Th* t) {
  if (t->st == COND && !t->signaled) { t->timedout = true; if (g_clock < t->deadline) g_clock = t->deadline; }
  if (t->st == SLEEP && g_clock < t->deadline) g_clock = t->deadline;
  t->st = RUN;
  t->noPoint = true;
  if (t != self) sem_post(&t->sem);
}
static void switchTo(Th* t) {  // the caller keeps its own state set
  Th* me = self;
  go(t);
  if (t != me) while (sem_wait(&me->sem)) {}
}
static Th* pickAny() {
  for (auto* t : ths) if (t != self && enabled(t)) return t;
  if (enabled(self)) return self;
  Th* b = nullptr;
  for (auto* t : ths) if (timedReady(t) && (!b || t->deadline < b->deadline)) b = t;
  if (!b) finish("deadlock", "threads blocked forever");
  return b;
}
static u64 steps = 0;
static void pre() {
  if (!active || !self || inrt) return;
  if (++steps > 20000000) finish("livelock", "a thread spins forever and nothing else can run");
  if (self->noPoint) { self->noPoint = false; return; }
  if (alive <= 1) return;
  while (si + 1 < sched.size() && (u64)sched[si] == ops && sched[si + 1] < 100) {
    int to = sched[si + 1];
    si += 2;
    if (to == self->id) continue;
    if (to >= (int)ths.size() || !(enabled(ths[to]) || timedReady(ths[to]))) { diverged = true; continue; }
    switchTo(ths[to]);
    self->noPoint = false;
  }
}
static void post() { if (active && self && !inrt) { ops++; self->noPoint = false; } }
static void block() {
  Th* t = nullptr;
  while (si + 1 < sched.size() && (u64)sched[si] <= ops) {
    int to = sched[si + 1];
    bool exact = (u64)sched[si] == ops;
    si += 2;
    if (!exact || to >= 100) { diverged = true; continue; }
    if (to < (int)ths.size() && (enabled(ths[to]) || timedReady(ths[to]))) { t = ths[to]; break; }
    diverged = true;
  }
  if (!t) { t = pickAny(); if (si < sched.size()) diverged = true; }
  switchTo(t);
}
static bool on() { return active && self && !inrt; }
static pthread_key_t key;
static void thread_end(void* p) {
  Th* t = (Th*)p;
  self = t;
  t->st = DONE;
  alive--;
  // pick the next thread, then let this one exit for real
  Th* n = nullptr;
  while (si + 1 < sched.size() && (u64)sched[si] <= ops) {
    int to = sched[si + 1];
    bool exact = (u64)sched[si] == ops;
    si += 2;
    if (exact && to < (int)ths.size() && (enabled(ths[to]) || timedReady(ths[to]))) { n = ths[to]; break; }
    diverged = true;
  }
  if (!n) n = pickAny();
  self = nullptr;
  go(n);
}
static void* tmain(void* p) {
  Th* t = (Th*)p;
  self = t;
  while (sem_wait(&t->sem)) {}
  pthread_setspecific(key, t);
  return t->fn(t->arg);
}
unsigned std::thread::hardware_concurrency() noexcept { return 2; }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!on()) return r(h, at, fn, arg);
  G g;
  Th* t = new Th;
  t->id = (int)ths.size();
  if (t->id >= MT) finish("error", "too many threads");
  sem_init(&t->sem, 0, 0);
  t->fn = fn; t->arg = arg;
  self->vc.v[self->id]++;
  t->vc.join(self->vc);
  t->vc.v[t->id] = 1;
  self->vc.v[self->id]++;
  t->noPoint = true;
  mt = true;
  alive++;
  ths.push_back(t);
  pthread_t x;
  int e = r(&x, nullptr, tmain, t);
  pthread_detach(x);
  *h = (pthread_t)(t->id + 1);
  return e;
}
int pthread_join(pthread_t h, void**) {
  G g;
  int j = (int)h - 1;
  while (ths[j]->st != DONE) { self->st = JOIN; self->wj = j; block(); }
  self->vc.join(ths[j]->vc);
  return 0;
}
int pthread_detach(pthread_t h) {
  if (on()) return 0;
  return real<int (*)(pthread_t)>("pthread_detach")(h);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!on()) return active && self ? 0 : r(m);
  pre();
  G g;
  for (;;) {
    auto& x = (*mxs)[m];
    if (x.owner == self->id) {
      if (m->__data.__kind == 1) { x.cnt++; break; }
      finish("deadlock", "thread locks a mutex it already holds");
    }
    if (x.owner < 0) { x.owner = self->id; x.cnt = 1; self->vc.join(x.vc); break; }
    self->st = MUTEX; self->wm = m;
    block();
  }
  inrt--; post(); inrt++;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!on()) return active && self ? 0 : r(m);
  pre();
  int res = 0;
  {
    G g;
    auto& x = (*mxs)[m];
    if (x.owner == self->id && m->__data.__kind == 1) x.cnt++;
    else if (x.owner >= 0) res = 16;
    else { x.owner = self->id; x.cnt = 1; self->vc.join(x.vc); }
  }
  post();
  return res;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!on()) return active && self ? 0 : r(m);
  G g;
  auto& x = (*mxs)[m];
  if (x.owner != self->id) finish("memory", "unlock of a mutex not held by this thread");
  if (--x.cnt == 0) {
    x.owner = -1; x.vc = self->vc; self->vc.v[self->id]++;
    if (alive > 1) { inrt--; post(); pre(); post(); inrt++; }
  }
  return 0;
}
static int cwait(void* c, void* m, bool timed, int64_t dl) {
  pre();
  G g;
  auto& x = (*mxs)[m];
  if (x.owner != self->id) finish("memory", "condition wait without the mutex");
  x.owner = -1; x.vc = self->vc; self->vc.v[self->id]++;
  inrt--; post(); inrt++;
  self->st = COND; self->wc = c; self->wm = m; self->signaled = false; self->timed = timed; self->timedout = false; self->deadline = dl;
  block();
  while (!mfree(m, -1)) { self->st = MUTEX; self->wm = m; block(); }
  self->noPoint = false;
  auto& y = (*mxs)[m];
  y.owner = self->id; y.cnt = 1;
  self->vc.join(y.vc);
  return self->timedout ? 110 : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, false, 0); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* d) {
  int64_t t = d->tv_sec * 1000000000ll + d->tv_nsec;
  if (alive <= 1) { if (g_clock < t) g_clock = t; return 110; }
  return cwait(c, m, true, t);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* d) { return pthread_cond_clockwait(c, m, 1, d); }
static int csig(void* c, bool all) {
  if (!on()) return 0;
  pre();
  post();
  G g;
  std::vector<Th*> ws;
  for (auto* t : ths) if (t->st == COND && t->wc == c && !t->signaled) ws.push_back(t);
  if (ws.empty()) return 0;
  if (all) for (auto* t : ws) t->signaled = true;
  else if (ws.size() == 1) ws[0]->signaled = true;
  else {
    Th* t = ws[0];
    if (si + 1 < sched.size() && (u64)sched[si] == ops && sched[si + 1] >= 100) { t = ths[sched[si + 1] - 100]; si += 2; }
    else diverged = true;
    t->signaled = true;
  }
  return 0;
}
void sym_spurious() {
  if (!on() || alive <= 1) return;
  pre();
  post();
  G g;
  for (auto* t : ths) if (t->st == COND && !t->signaled) t->signaled = true;
}
int pthread_cond_signal(pthread_cond_t* c) { return csig(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return csig(c, true); }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int sched_yield() { if (on() && alive > 1) pre(); return 0; }
pthread_t pthread_self() { 
  static auto r = real<pthread_t (*)()>("pthread_self");
  return self ? (pthread_t)(self->id + 1) : r(); }
int nanosleep(const timespec* d, timespec*) {
  int64_t t = g_clock + d->tv_sec * 1000000000ll + d->tv_nsec;
  if (on() && alive > 1) {
    G g;
    self->st = SLEEP; self->deadline = t;
    block();
    self->noPoint = false;
  }
  if (g_clock < t) g_clock = t;
  return 0;
}
int clock_nanosleep(clockid_t, int, const timespec* d, timespec*) { return nanosleep(d, nullptr); }
}
#include "posix.h"
extern "C" {
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n);
  long a[6]; for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == 202 && active && self) { const int o = (int)a[1] & 127; return px_futex((void*)a[0], (int)a[1], (int)a[2], o == 1 || o == 10 ? nullptr : (const timespec*)a[3]); }
  return real<long (*)(long, ...)>("syscall")(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
void __tsan_mutex_post_lock(void* m, unsigned, int) { if (on()) { G g; self->vc.join((*mxs)[m].vc); } }
int __tsan_mutex_pre_unlock(void* m, unsigned) { if (on()) { G g; auto& x = (*mxs)[m]; x.vc.join(self->vc); self->vc.v[self->id]++; } return 0; }
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}

// ---- harness API
static u64 nextv() { return dmi < dm.size() ? dm[dmi++] : (dmi++, 0); }
u64 sym_u64(const char*, u64, u64) { return nextv(); }
int64_t sym_i64(const char*, int64_t, int64_t) { return (int64_t)nextv(); }
bool sym_bool(const char*) { return nextv() & 1; }
void sym_assume(bool b) { if (!b) finish("assume", "assumption violated"); }
void sym_check(bool b, const char* m) { if (!b) finish("assert", m); }
void sym_fail(const char* m) { finish("assert", m); _exit(0); }
void sym_cover(const char*) {}
void sym_want(const char*) {}
void sym_log(u64 v) { G g; logv.push_back(v); }
u64 sym_heap_live() { return (u64)live; }
u64 sym_depth() { return ~(u64)__builtin_frame_address(0) >> 4; }
u64 sym_concrete(u64 v) { return v; }
int sym_is_engine() { return 0; }
void sym_preempt(int) {}
void sym_timed_early(bool) {}
void sym_join_all() {
  if (!on()) return;
  G g;
  for (;;) {
    bool all = true;
    for (auto* o : ths) if (o != self && o->st != DONE) all = false;
    if (all) break;
    self->st = JOINALL;
    block();
  }
  for (auto* o : ths) if (o != self) self->vc.join(o->vc);
}
int sym_tid() { return self ? self->id : 0; }
void sym_norace(bool b) { raceOn = !b; }
void sym_print(const char* s, int64_t v) { G g; if (getenv("REPLAY_TRACE")) fprintf(stderr, "  [print] %s %lld\n", s, (long long)v); }
int64_t rt_clock_ns() { return g_clock; }
void rt_clock_advance(int64_t n) { g_clock += n; }
void rt_clock_jitter(u64 m, int n) { g_jit = m; g_jitn = n; }
void __rt_tls_run() {}

// ---- TSan interface emitted by the compiler
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
static void acc(void* p, size_t n, bool w) {
  if (!on()) return;
  G g;
  access((uintptr_t)p, n, w);
  race((uintptr_t)p, n, w, false);
}
#define RW(n) \
  void __tsan_read##n(void* p) { acc(p, n, false); } void __tsan_write##n(void* p) { acc(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
  void __tsan_read_write##n(void* p) { acc(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, false); acc(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) acc(d, n, true); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int o) {
  if (!on() || !mt) return;
  if (isAcq(o)) self->vc.join(self->acq);
  if (isRel(o)) { self->rel = self->vc; self->hasRel = true; self->vc.v[self->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
}
static void aacc(void* p, size_t n, bool w) { if (on()) { G g; access((uintptr_t)p, n, w); race((uintptr_t)p, n, w, true); } }
template <class T> static T aload(T* p, int o) { pre(); aacc(p, sizeof(T), false); if (on()) { G g; hbLoad(p, o); } T v = *p; post(); return v; }
template <class T> static void astore(T* p, T v, int o) { pre(); aacc(p, sizeof(T), true); if (on()) { G g; hbStore(p, o, false); } *p = v; post(); }
template <class T, class F> static T armw(T* p, int o, bool ref, F f) {
  // reference counts of libstdc++: see I_RMW in main.cpp
  ref = ref && o == 4;
  if (!ref) pre();
  aacc(p, sizeof(T), true);
  T old = *p;
  bool inc = ref && f(old) == (T)(old + 1);
  if (on()) { G g; if (!ref || (!inc && old == 1)) hbLoad(p, o); if (!inc) hbStore(p, o, true); }
  *p = f(old);
  if (!ref) post();
  return old;
}
template <class T> static T acas(T* p, T e, T d, int o, int fo) {
  pre();
  T old = *p;
  bool ok = old == e;
  aacc(p, sizeof(T), ok);
  if (on()) { G g; hbLoad(p, ok ? o : fo); if (ok) hbStore(p, o, true); }
  if (ok) *p = d;
  post();
  return old;
}
#define AT(B, T) \
  extern "C" T __tsan_atomic##B##_load(const volatile T* p, int o) { return aload((T*)p, o); } \
  extern "C" void __tsan_atomic##B##_store(volatile T* p, T v, int o) { astore((T*)p, v, o); } \
  extern "C" T __tsan_atomic##B##_exchange(volatile T* p, T v, int o) { return armw((T*)p, o, false, [=](T) { return v; }); } \
  extern "C" T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int o) { return armw((T*)p, o, B == 32, [=](T x) { return (T)(x + v); }); } \
  extern "C" T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int o) { return armw((T*)p, o, B == 32, [=](T x) { return (T)(x - v); }); } \
  extern "C" T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int o) { return armw((T*)p, o, false, [=](T x) { return (T)(x & v); }); } \
  extern "C" T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int o) { return armw((T*)p, o, false, [=](T x) { return (T)(x | v); }); } \
  extern "C" T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int o) { return armw((T*)p, o, false, [=](T x) { return (T)(x ^ v); }); } \
  extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T d, int o, int fo) { return acas((T*)p, e, d, o, fo); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, u64)

namespace std { namespace chrono { inline namespace _V2 {
static int64_t rd() { if (g_jitn > 0) { g_jitn--; g_clock += (int64_t)nextv(); } return g_clock; }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(rd())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(rd())); }
} } }

static void onsig(int s) {
  if (s == SIGALRM) finish("bound", "step bound exceeded (possible non-termination)");
  if (s == SIGABRT) finish("terminate", "std::terminate");
  finish("memory", s == SIGILL || s == SIGTRAP ? "executed unreachable code (undefined behaviour)" : "null pointer or wild access");
}

int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  std::string line;
  int n = 0;
  while (std::getline(f, line)) {
    // entry \t dm \t sched
    std::vector<std::string> p;
    std::stringstream ss(line);
    std::string x;
    while (std::getline(ss, x, '\t')) p.push_back(x);
    p.resize(3);
    int pfd[2];
    if (pipe(pfd)) return 3;
    pid_t pid = fork();
    if (!pid) {
      close(pfd[0]);
      outfd = pfd[1];
      dup2(open("/dev/null", O_WRONLY), 1);
      stack_t st;
      st.ss_sp = malloc(1 << 16); st.ss_size = 1 << 16; st.ss_flags = 0;
      sigaltstack(&st, nullptr);
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
      for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
      alarm(20);
      auto nums = [](const std::string& s, auto push) { std::stringstream q(s); std::string t; while (std::getline(q, t, ',')) if (!t.empty()) push(strtoull(t.c_str(), nullptr, 10)); };
      nums(p[1], [](u64 v) { dm.push_back(v); });
      nums(p[2], [](u64 v) { sched.push_back((int)v); });
      auto fn = (void (*)())dlsym(RTLD_DEFAULT, p[0].c_str());
      if (!fn) finish("error", "no such entry");
      logv.reserve(4096);
      heap = new std::map<uintptr_t, Blk>; mxs = new std::map<void*, Mx>; ats = new std::map<void*, At>; recs = new std::map<uintptr_t, std::vector<Rec>>;
      pthread_key_create(&key, thread_end);
      Th* t = new Th;
      t->id = 0;
      sem_init(&t->sem, 0, 0);
      t->vc.v[0] = 1;
      ths.push_back(t);
      self = t;
      active = true;
      fn();
      finish("ok", "");
    }
    close(pfd[1]);
    std::string out;
    char buf[4096];
    ssize_t r;
    while ((r = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, (size_t)r);
    close(pfd[0]);
    int stt;
    waitpid(pid, &stt, 0);
    if (out.rfind("RESULT", 0) != 0) out = "RESULT\tmemory\tcrashed (status " + std::to_string(stt) + ")\t1\t\n";
    printf("%d\t%s", n++, out.c_str());
  }
}
