// Environment model linked into every harness before symbolic execution: C++ runtime (exceptions), libstdc++
// out-of-line helpers, virtual time, threads. Executed as IR by the engine (not instrumented for races).
#include <condition_variable>
#include <cerrno>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <cxxabi.h>
#include "sym.h"

extern "C" {
[[noreturn]] void __eng_throw(void* obj, const std::type_info* ti);
[[noreturn]] void __eng_terminate(const char*);
uint64_t __eng_thread_create(void (*)(void*), void*);
void __eng_join(uint64_t);
void __eng_sleep_until(int64_t);
int __eng_cond_timedwait(void*, void*, int64_t);
int __eng_is_mt();
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;

// ---- strings
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) {
  auto *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
void* __rt_memchr(const void* s, int c, size_t n) __asm__("memchr");
void* __rt_memchr(const void* s, int c, size_t n) { auto* p = (unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return p + i; return nullptr; }

// ---- virtual time
static int64_t g_clock = 1000000000;
static uint64_t g_jit = 0;
static int g_jitn = 0;
int64_t rt_clock_ns() { return g_clock; }
void rt_clock_advance(int64_t ns) { g_clock += ns; }
void rt_clock_jitter(uint64_t m, int n) { g_jit = m; g_jitn = n; }
static int64_t clock_read() {
  if (g_jitn > 0) { g_jitn--; g_clock += (int64_t)sym_u64("clock_step", 0, g_jit); }
  return g_clock;
}
static void clock_to(int64_t t) { if (g_clock < t) g_clock = t; }
int nanosleep(const timespec* d, timespec*) {
  int64_t t = g_clock + d->tv_sec * 1000000000ll + d->tv_nsec;
  if (__eng_is_mt()) __eng_sleep_until(t);
  clock_to(t);
  return 0;
}
int clock_nanosleep(clockid_t, int, const timespec* d, timespec*) { return nanosleep(d, nullptr); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* d) {
  int64_t t = d->tv_sec * 1000000000ll + d->tv_nsec;
  if (!__eng_is_mt()) {
    pthread_mutex_unlock(m); pthread_mutex_lock(m);
    clock_to(t);
    return 110;
  }
  int r = __eng_cond_timedwait(c, m, t);
  if (r) clock_to(t);
  return r;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* d) { return pthread_cond_clockwait(c, m, 1, d); }

}
#include "posix.h"
extern "C" {
long __rt_syscall(long n, void* a, long op, long val, const timespec* ts) __asm__("syscall");
long __rt_syscall(long n, void* a, long op, long val, const timespec* ts) {
  if (n != 202) __eng_terminate("system call");
  const int o = (int)op & 127;
  return px_futex(a, (int)op, (int)val, o == 1 || o == 10 ? nullptr : ts);
}
// ---- thread-local destructors, statics
struct TlsD { void (*f)(void*); void* o; TlsD* next; };
static thread_local TlsD* tls_head = nullptr;
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) { tls_head = new TlsD{f, o, tls_head}; return 0; }
static void tls_run() { while (tls_head) { TlsD* d = tls_head; tls_head = d->next; d->f(d->o); delete d; } }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int atexit(void (*)(void)) { return 0; }
}
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(__guard* gg) noexcept(false) {
  char* g = (char*)gg;
  if (*g) return 0;
  while (g[1]) sched_yield();
  if (*g) return 0;
  g[1] = 1;
  return 1;
}
extern "C" void __cxa_guard_release(__guard* gg) noexcept { char* g = (char*)gg; *g = 1; g[1] = 0; }
extern "C" void __cxa_guard_abort(__guard* gg) noexcept { ((char*)gg)[1] = 0; }
}
extern "C" {

// ---- exceptions
struct Hdr { const std::type_info* ti; void (*dtor)(void*); uint32_t rc, rc_pad; uint64_t pad[4]; void* adjusted; };
static Hdr* hd(void* o) { return (Hdr*)o - 1; }
struct Caught { void* obj; Caught* next; };
static thread_local Caught* caught = nullptr;
static thread_local int uncaught = 0;
static void exc_release(void* o) {
  Hdr* h = hd(o);
  if (__atomic_sub_fetch(&h->rc, 1, __ATOMIC_ACQ_REL) == 0) {
    if (h->dtor) h->dtor(o);
    free(h);
  }
}
void* __cxa_allocate_exception(size_t n) noexcept {
  Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n);
  h->ti = nullptr; h->dtor = nullptr; h->rc = 0; h->adjusted = h + 1;
  return h + 1;
}
void __cxa_free_exception(void* o) noexcept { free(hd(o)); }
}
namespace __cxxabiv1 {
extern "C" __cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept {
  hd(o)->ti = ti; hd(o)->dtor = d; hd(o)->rc = 0;
  return (__cxa_refcounted_exception*)nullptr;
}
extern "C" void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) {
  hd(o)->ti = ti; hd(o)->dtor = d; hd(o)->rc = 1;
  uncaught++;
  __eng_throw(o, ti);
}
extern "C" void* __cxa_begin_catch(void* o) noexcept {
  uncaught--;
  caught = new Caught{o, caught};
  return hd(o)->adjusted;
}
extern "C" void* __cxa_get_exception_ptr(void* o) noexcept { return hd(o)->adjusted; }
extern "C" void __cxa_end_catch() {
  Caught* c = caught;
  caught = c->next;
  void* o = c->obj;
  delete c;
  exc_release(o);
}
extern "C" void __cxa_rethrow() {
  if (!caught) __eng_terminate("rethrow without an active exception");
  void* o = caught->obj;
  __atomic_fetch_add(&hd(o)->rc, 1, __ATOMIC_ACQ_REL);
  uncaught++;
  __eng_throw(o, hd(o)->ti);
}
extern "C" void __cxa_call_unexpected(void*) { __eng_terminate("unexpected exception"); }
extern "C" {
extern char rt_vt_si[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE");
extern char rt_vt_vmi[] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
struct RtTi { void* vptr; const char* name; };
struct RtSi : RtTi { const RtTi* base; };
struct RtVmi : RtTi { unsigned flags, count; struct { const RtTi* t; long off; } b[1]; };
static void rt_find(const RtTi* t, char* p, const RtTi* dst, bool pub, char** hit, int* n) {
  if (t == dst) { if (pub && *hit != p) { *hit = p; ++*n; } return; }
  if (t->vptr == rt_vt_si + 16) rt_find(((const RtSi*)t)->base, p, dst, pub, hit, n);
  else if (t->vptr == rt_vt_vmi + 16) {
    auto* v = (const RtVmi*)t;
    for (unsigned i = 0; i < v->count; i++) {
      long off = v->b[i].off >> 8, fl = v->b[i].off & 255;
      if (fl & 1) off = *(long*)(*(char**)p + off);
      rt_find(v->b[i].t, p + off, dst, pub && (fl & 2), hit, n);
    }
  }
}
void* __dynamic_cast(const void* sub, const __class_type_info*, const __class_type_info* dst, ptrdiff_t) {
  void** vt = *(void***)sub;
  char* hit = nullptr; int n = 0;
  rt_find((const RtTi*)vt[-1], (char*)sub + (long)vt[-2], (const RtTi*)dst, true, &hit, &n);
  return n == 1 ? hit : nullptr;
}
}
__fundamental_type_info::~__fundamental_type_info() {}
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_alloc(); }
}  // namespace __cxxabiv1
extern "C" int __gxx_personality_v0(...) { return 0; }

namespace std {
void terminate() noexcept { __eng_terminate("std::terminate called (exception escaped a noexcept boundary)"); }
bool uncaught_exception() noexcept { return uncaught > 0; }
int uncaught_exceptions() noexcept { return uncaught; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
nested_exception::~nested_exception() noexcept {}
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

static char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupn("", 0)) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupn(s, n)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupn(s.data(), s.size())) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupn(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupn(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }

logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : logic_error((const logic_error&)o) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { return *this = (const logic_error&)o; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : runtime_error((const runtime_error&)o) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { return *this = (const runtime_error&)o; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(T, B) T::T(const char* s) : B(s) {} T::T(const std::string& s) : B(s) {} T::~T() noexcept {}
LE(domain_error, logic_error) LE(invalid_argument, logic_error) LE(length_error, logic_error) LE(out_of_range, logic_error)
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
system_error::~system_error() noexcept {}
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
namespace {
struct rt_category final : error_category { const char* nm; const char* name() const noexcept override { return nm; } std::string message(int) const override { return "error"; } };
}
template<int> static const error_category& rt_cat(const char* n) { static rt_category* c = nullptr; alignas(rt_category) static char b[sizeof(rt_category)]; if (!c) { c = new (b) rt_category; c->nm = n; } return *c; }
const error_category& generic_category() noexcept { return rt_cat<0>("generic"); }
const error_category& system_category() noexcept { return rt_cat<1>("system"); }
}
const error_category& future_category() noexcept { return _V2::rt_cat<2>("future"); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "std::future_error"; }
void __throw_future_error(int e) { throw future_error((future_errc)e); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
  timespec t{(time_t)s.count(), (long)n.count()};
  return !(px_futex(a, 9, (int)v, timed ? &t : nullptr) == -1 && errno == 110);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { px_futex(a, 1, INT_MAX, nullptr); }
static pthread_mutex_t sp_mutex = PTHREAD_MUTEX_INITIALIZER;
_Sp_locker::_Sp_locker(const void*) noexcept { pthread_mutex_lock(&sp_mutex); }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept { pthread_mutex_lock(&sp_mutex); }
_Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&sp_mutex); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { auto c = __once_call; __once_call = nullptr; c(); }

namespace __exception_ptr {
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __atomic_fetch_add(&hd(_M_exception_object)->rc, 1, __ATOMIC_ACQ_REL); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { exc_release(_M_exception_object); _M_exception_object = nullptr; } }
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return hd(_M_exception_object)->ti; }
}  // namespace __exception_ptr
exception_ptr current_exception() noexcept {
  if (!caught) return exception_ptr();
  struct Mk { static exception_ptr mk(void* o) { exception_ptr p; *(void**)&p = o; __atomic_fetch_add(&hd(o)->rc, 1, __ATOMIC_ACQ_REL); return p; } };
  return Mk::mk(caught->obj);
}
void rethrow_exception(exception_ptr p) {
  void* o = *(void**)&p;
  if (!o) __eng_terminate("rethrow_exception(nullptr)");
  __atomic_fetch_add(&hd(o)->rc, 1, __ATOMIC_ACQ_REL);
  uncaught++;
  __eng_throw(o, hd(o)->ti);
}

// ---- containers
namespace __detail {
static const size_t primes[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n | 1;
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t mn = ne + ni;
    if (!_M_next_resize && mn < 11) mn = 11;
    if (mn >= nb) return {true, _M_next_bkt(mn + 1 > nb * 2 ? mn + 1 : nb * 2)};
    _M_next_resize = nb;
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool ex = x._M_next == &x, ey = y._M_next == &y;
  if (!ex && !ey) {
    std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
    x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
  } else if (!ex) { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  else if (!ey) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull;
  return h;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    auto* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// the tree is kept ordered but not rebalanced: balance is not observable
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  _Rb_tree_node_base* nl = h._M_left == z ? _Rb_tree_increment(z) : h._M_left;
  _Rb_tree_node_base* nr = h._M_right == z ? (z->_M_left || h._M_parent != z ? _Rb_tree_decrement(z) : &h) : h._M_right;
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    auto* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = h._M_right = &h; }
  else { h._M_left = nl; h._M_right = nr; }
  return z;
}

// ---- time, threads
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clock_read())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(clock_read())); }
} }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  _State* p = s.release();
  __libc_single_threaded = 0;
  auto tramp = +[](void* v) { auto* q = (_State*)v; q->_M_run(); delete q; tls_run(); };
  uint64_t id = __eng_thread_create(tramp, p);
  _M_id = thread::id((pthread_t)(id + 1));
}
void thread::join() {
  if (_M_id == id()) __throw_system_error(22);
  __eng_join((uint64_t)_M_id._M_thread - 1);
  _M_id = id();
}
void thread::detach() {
  if (_M_id == id()) __throw_system_error(22);
  _M_id = id();
}
unsigned thread::hardware_concurrency() noexcept { return 2; }
}  // namespace std
extern "C" pthread_t pthread_self() noexcept { return (pthread_t)(sym_tid() + 1); }
extern "C" int* __errno_location() noexcept { static thread_local int e; return &e; }
extern "C" void __rt_tls_run() { tls_run(); }
extern "C" {
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  char* p = (char*)b;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j && cmp(p + j * w, p + (j - 1) * w) < 0; j--)
      for (size_t k = 0; k < w; k++) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; }
}
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; }
void* calloc(size_t a, size_t b) noexcept { char* p = (char*)malloc(a * b); for (size_t i = 0; i < a * b; i++) p[i] = 0; return p; }
}

extern "C" long __isoc23_strtol(const char* s, char** end, int base) noexcept {
  while (*s == ' ') s++;
  const bool neg = *s == '-';
  if (*s == '-' || *s == '+') s++;
  long v = 0;
  for (; *s >= '0' && *s < '0' + (base && base < 10 ? base : 10); s++) v = v * (base ? base : 10) + (*s - '0');
  if (end) *end = (char*)s;
  return neg ? -v : v;
}
