//@ bound: a subject (or from_iterable) emitting up to 2 values plus any termination on one thread, delay, observe_on, debounce, timeout, subscribe_on and two-operator chains of them on a new_thread worker, consumed by plain callbacks or a returned handle (statically sized subscriptions, disposed at the end or not); every schedule with at most 2 (thorough: 3) preemptions
//@ assume: preemption only at synchronisation operations; data races are reported separately
//@ preempt: 2
//@ preempt_thorough: 3
#define H_VALUE V
#include "sched.hpp"
using namespace h;
namespace op = rpp::operators;
using W = rpp::composite_disposable_wrapper;
static constexpr int N = 2;
static const auto T = sch::new_thread{};
struct Run
{
    Rec r; int n = 0, kind[4]{}; bool handle = false, disposed = false;
    template<class B> void go(B build)
    {
        n = (int)sym_concrete(sym_u64("n", 0, N));
        const int t = (int)sym_concrete(sym_u64("term", 0, 2));
        if (t) kind[n++] = t;
        handle = sym_bool("handle");
        {
            rpp::subjects::publish_subject<val_t> s{};
            auto pipe = build(s.get_observable());
            W d = W::empty();
            auto next = [this](int v) { r.on_next(v); }; auto err = [this](const std::exception_ptr& e) { r.on_error(e); }; auto done = [this] { r.on_completed(); };
            if (handle) d = pipe.subscribe_with_disposable(next, err, done); else pipe.subscribe(next, err, done);
            auto o = s.get_observer();
            for (int i = 0; i < n; ++i) emit(o, kind[i], i + 1);
            if (handle && !t) { d.dispose(); sym_check(d.is_disposed(), "disposed"); disposed = true; }
        }
        sym_join_all();
    }
    int  term() const { return n && kind[n - 1] ? kind[n - 1] : 0; }
    int  vals() const { return n - (term() != 0); }
    void ordered() const { int last = 0; for (int i = 0; i < r.n; ++i) if (r.kind[i] == NEXT) { sym_check(r.val[i] > last && r.val[i] <= vals(), "values repeated, invented or re-ordered"); last = (int)r.val[i]; } }
    int  last() const { int l = 0; for (int i = 0; i < r.n; ++i) if (r.kind[i] == NEXT) l = (int)r.val[i]; return l; }
};
// what: 0 everything arrives; 1 an error may overtake values; 2 only the last value is certain (debounce)
template<class B> static void run(int what, B build)
{
    sym_want("all");
    const uint64_t live = sym_heap_live();
    {
        Run x; x.go(build);
        x.ordered();
        if (!x.disposed)
        {
            if (what < 2 && (what == 0 || x.term() != ERR)) sym_check(x.r.n == x.n, "an event was lost");
            if (what == 2 && x.vals() && x.term() != ERR) sym_check(x.last() == x.vals(), "the last value was lost");
            if (x.term()) sym_check(x.r.term && x.r.kind[x.r.n - 1] == x.term(), "the terminal event was lost");
            sym_cover("all");
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_delay() { run(0, [](auto o) { return o | op::delay(ns{0}, T); }); }
extern "C" void H_observe_on() { run(1, [](auto o) { return o | op::observe_on(T); }); }
extern "C" void H_debounce() { run(2, [](auto o) { return o | op::debounce(ns{0}, T); }); }
extern "C" void H_observe_map_finally() { run(1, [](auto o) { return o | op::map([](int v) { return v; }) | op::observe_on(T) | op::finally([]() noexcept {}); }); }
extern "C" void H_subscribe_on()
{
    sym_want("all");
    const uint64_t live = sym_heap_live();
    {
        Rec r; const int n = (int)sym_concrete(sym_u64("n", 1, N)); const bool both = sym_bool("both"), handle = sym_bool("handle");
        auto next = [&r](int v) { r.on_next(v); }; auto err = [&r](const std::exception_ptr& e) { r.on_error(e); }; auto done = [&r] { r.on_completed(); };
        auto src = rpp::source::from_iterable(std::vector<val_t>{1, 2}, rpp::schedulers::immediate{}) | op::take(n) | op::subscribe_on(T);
        W d = W::empty();
        if (handle) { if (both) d = (src | op::observe_on(T)).subscribe_with_disposable(next, err, done); else d = src.subscribe_with_disposable(next, err, done); }
        else if (both) (src | op::observe_on(T)).subscribe(next, err, done);
        else src.subscribe(next, err, done);
        const bool stop = handle && sym_bool("stop");
        if (stop) d.dispose();
        sym_join_all();
        for (int i = 0; i < r.n; ++i) if (r.kind[i] == NEXT) sym_check(r.val[i] == i + 1, "values lost, repeated or re-ordered");
        if (!stop) { sym_check(r.n == n + 1 && r.completed(), "an event was lost"); sym_cover("all"); }
    }
    sym_check(sym_heap_live() == live, "leak");
}
// the timer's thread ends the stream while the source's thread emits
extern "C" void H_timeout()
{
    sym_want("timed out"); sym_want("in time");
    const uint64_t live = sym_heap_live();
    {
        Run x;
        const bool fallback = sym_bool("fallback");
        if (fallback) x.go([](auto o) { return o | op::timeout(ns{0}, rpp::source::just(rpp::schedulers::immediate{}, val_t{77}), T); });
        else x.go([](auto o) { return o | op::timeout(ns{0}, T); });
        const Rec& r = x.r;
        int k = 0;
        while (k < r.n && k < x.n && r.kind[k] == x.kind[k] && (x.kind[k] == DONE || r.val[k] == k + 1)) ++k;
        if (k == x.n && (x.term() || x.disposed) && k == r.n) sym_cover("in time");
        else if (!x.disposed)
        {
            if (!fallback) sym_check(r.n == k + 1 && r.kind[k] == ERR && r.val[k] == 9001, "either the source ends the stream or the timeout, in which case nothing follows");
            else sym_check(r.n == k + 2 && r.kind[k] == NEXT && r.val[k] == 77 && r.kind[k + 1] == DONE, "either the source ends the stream or the fallback, in which case nothing of the source follows");
            sym_cover("timed out");
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
// the source emits on its own thread into a chain which is disposed by the consumer, by take() and from outside
extern "C" void H_observe_take()
{
    sym_want("all");
    const uint64_t live = sym_heap_live();
    {
        Run x; x.go([](auto o) { return o | op::observe_on(T) | op::take(1); });
        x.ordered();
        if (!x.disposed && x.vals() && x.term() != ERR) { sym_check(x.r.n == 2 && x.r.completed() && x.r.val[0] == 1, "take(1) after observe_on"); sym_cover("all"); }
    }
    sym_check(sym_heap_live() == live, "leak");
}
