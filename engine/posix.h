// Synchronisation primitives modelled on top of the interposed pthread mutex and condition variable; shared by the
// symbolic environment (rt.cpp) and the native replay (replay.cpp), so that both take the same scheduling steps.
#include <cstdarg>
#include <climits>
#include <pthread.h>
#include <sched.h>
extern "C" {
static pthread_mutex_t px_global = PTHREAD_MUTEX_INITIALIZER;
struct PxRw { pthread_mutex_t m; int readers, writer; char cond[8]; };
static_assert(sizeof(PxRw) == sizeof(pthread_rwlock_t));
static int px_rw(pthread_rwlock_t* l, bool write, bool block, const timespec* d) {
  auto* r = (PxRw*)l;
  pthread_mutex_lock(&r->m);
  int e = 0;
  while (r->writer || (write && r->readers)) {
    if (!block) { e = 16; break; }
    e = d ? pthread_cond_clockwait((pthread_cond_t*)r->cond, &r->m, 1, d) : pthread_cond_wait((pthread_cond_t*)r->cond, &r->m);
    if (e) break;
  }
  if (!e) { if (write) r->writer = 1; else r->readers++; }
  pthread_mutex_unlock(&r->m);
  return e;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { for (unsigned i = 0; i < sizeof *l; i++) ((char*)l)[i] = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return px_rw(l, false, true, nullptr); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return px_rw(l, true, true, nullptr); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return px_rw(l, false, false, nullptr); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return px_rw(l, true, false, nullptr); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* d) noexcept { return px_rw(l, false, true, d); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* d) noexcept { return px_rw(l, true, true, d); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const timespec* d) noexcept { return px_rw(l, false, true, d); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const timespec* d) noexcept { return px_rw(l, true, true, d); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  auto* r = (PxRw*)l;
  pthread_mutex_lock(&r->m);
  if (r->writer) r->writer = 0; else r->readers--;
  pthread_cond_broadcast((pthread_cond_t*)r->cond);
  pthread_mutex_unlock(&r->m);
  return 0;
}
// a timed lock which is not free at once waits until its deadline
static int px_timedlock(pthread_mutex_t* m, const timespec* d) {
  if (!pthread_mutex_trylock(m)) return 0;
  int64_t w = d->tv_sec * 1000000000ll + d->tv_nsec - rt_clock_ns();
  if (w > 0) { timespec s{(time_t)(w / 1000000000ll), (long)(w % 1000000000ll)}; nanosleep(&s, nullptr); }
  return pthread_mutex_trylock(m) ? 110 : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* d) noexcept { return px_timedlock(m, d); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* d) noexcept { return px_timedlock(m, d); }
int pthread_once(pthread_once_t* o, void (*f)()) {
  int* s = (int*)o;
  pthread_mutex_lock(&px_global);
  while (*s == 1) pthread_cond_wait((pthread_cond_t*)o, &px_global);
  const bool run = *s != 2;
  if (run) *s = 1;
  pthread_mutex_unlock(&px_global);
  if (!run) return 0;
  struct Done {
    int *s; int v;
    ~Done() { pthread_mutex_lock(&px_global); *s = v; pthread_cond_broadcast((pthread_cond_t*)s); pthread_mutex_unlock(&px_global); }
  } d{s, 0};
  f();
  d.v = 2;
  return 0;
}
static long px_futex(void* a, int op, int val, const timespec* ts) {
  op &= 127;
  long r = 0;
  pthread_mutex_lock(&px_global);
  if (op == 1 || op == 10) { if (val == 1) pthread_cond_signal((pthread_cond_t*)a); else pthread_cond_broadcast((pthread_cond_t*)a); }
  else if (__atomic_load_n((int*)a, __ATOMIC_RELAXED) != val) { r = -1; errno = 11; }
  else if (!ts) pthread_cond_wait((pthread_cond_t*)a, &px_global);
  else {
    int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec + (op == 0 ? rt_clock_ns() : 0);
    timespec d{(time_t)(t / 1000000000ll), (long)(t % 1000000000ll)};
    if (pthread_cond_clockwait((pthread_cond_t*)a, &px_global, 1, &d)) { r = -1; errno = 110; }
  }
  pthread_mutex_unlock(&px_global);
  return r;
}
}
