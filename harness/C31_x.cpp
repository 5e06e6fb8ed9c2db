//@ preempt: 0
#include "C31_life.hpp"
using namespace h;
using TS = rpp::schedulers::test_scheduler;
using ns = std::chrono::nanoseconds;
using RL = rpp::schedulers::run_loop;
static constexpr auto far = std::chrono::seconds{1000};
// streams with work waiting in the queue of a scheduler
template<class F> static void queued(F pipeline)
{
    sym_preempt(0);
    sym_want("queue destroyed"); sym_want("queue drained");
    const uint64_t live = sym_heap_live();
    {
        Hot h; Consumer c; std::atomic<int> cb_alive{0};
        const int how = (int)sym_concrete(sym_u64("end", 0, 4)), n = (int)sym_concrete(sym_u64("n", 0, 2)), drain = (int)sym_concrete(sym_u64("drain", 0, 2));
        if (how == INSIDE) c.dispose_at = 0;
        {
            TS ts{};
            pipeline(h.obs() | op::map([k = Cap{&cb_alive}](int v) { return v; }), ts).subscribe(c.observer());
            for (int i = 0; i < n; ++i) { h.ev(NEXT, any_int("v")); if (drain == 1) ts.time_advance(ns{7}); }
            if (how == COMPLETE) h.ev(DONE, 0);
            if (how == FAIL) h.ev(ERR, 1);
            if (how == DISPOSE) c.d.dispose();
            if (how == DROPPED) h.o.reset();
            if (drain == 2) ts.time_advance(far);
            if (c.r.term || c.seen > c.dispose_at && how == INSIDE || how == DISPOSE)
            {
                c.d.dispose(); c.d = rpp::composite_disposable_wrapper::empty();
                h.o.reset();
                ts.time_advance(far); ts.time_advance(far);
                sym_check(c.alive == 0 && cb_alive == 0, "an ended subscription is kept alive by the scheduler");
                sym_cover("queue drained");
            }
            c.d = rpp::composite_disposable_wrapper::empty();
            h.o.reset();
            if (sym_bool("never")) sym_cover("queue destroyed");
        }
        sym_check(c.alive == 0 && cb_alive == 0, "a callback outlives the subscription, its source and its scheduler");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define Q(name, expr) extern "C" void H_queued_##name() { queued([](const auto& o, const TS& ts) { (void)ts; return expr; }); }
Q(delay, o | op::delay(ns{10}, ts))
Q(observe_on, o | op::observe_on(ts))
Q(subscribe_on, o | op::subscribe_on(ts))
Q(debounce, o | op::debounce(ns{10}, ts))
Q(timeout, o | op::timeout(ns{10}, ts))
Q(timeout_fallback, o | op::timeout(ns{10}, o, ts))
Q(throttle, o | op::throttle<TS>(ns{10}))
Q(merge_interval, o | op::merge_with(src::interval(ns{10}, ts) | op::take(3) | op::map([](size_t v) { return (int)v; })))
Q(take_until_timer, o | op::take_until(src::timer(ns{10}, ts)))
Q(merge_just, o | op::merge_with(src::just(ts, 1, 2)))
Q(repeat_just, src::just(ts, 1, 2) | op::take(1) | op::repeat(2) | op::merge_with(o))
Q(delay_flat, o | op::flat_map([ts](int v) { return src::just(ts, v) | op::delay(ns{5}, ts); }))
Q(retry_delay, o | op::retry_when([p = &ts](const std::exception_ptr&) { return src::timer(ns{10}, *p); }))
Q(window_delay, o | op::window(2) | op::flat_map([ts](const auto& w) { return w | op::delay(ns{5}, ts); }))
Q(chain, o | op::observe_on(ts) | op::delay(ns{5}, ts) | op::debounce(ns{5}, ts))
// the same for a run loop which is destroyed with tasks waiting
template<class F> static void looped(F pipeline)
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Hot h; Consumer c; std::atomic<int> cb_alive{0};
        const int how = (int)sym_concrete(sym_u64("end", 0, 4)), n = (int)sym_concrete(sym_u64("n", 0, 2)), drain = (int)sym_concrete(sym_u64("drain", 0, 2));
        {
            RL rl{};
            pipeline(h.obs() | op::map([k = Cap{&cb_alive}](int v) { return v; }), rl).subscribe(c.observer());
            for (int i = 0; i < n; ++i) h.ev(NEXT, any_int("v"));
            if (how == COMPLETE) h.ev(DONE, 0);
            if (how == FAIL) h.ev(ERR, 1);
            if (how == DISPOSE) c.d.dispose();
            if (drain == 1) rl.dispatch_if_ready();
            if (drain == 2) { rt_clock_advance(1000); while (!rl.is_empty()) { rl.dispatch_if_ready(); rt_clock_advance(1000); } }
            c.d = rpp::composite_disposable_wrapper::empty();
            h.o.reset();
        }
        sym_check(c.alive == 0 && cb_alive == 0, "a callback outlives the subscription, its source and its run loop");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define R(name, expr) extern "C" void H_loop_##name() { looped([](const auto& o, const RL& ts) { (void)ts; return expr; }); }
R(delay, o | op::delay(ns{10}, ts))
R(observe_on, o | op::observe_on(ts))
R(subscribe_on, o | op::subscribe_on(ts))
R(debounce, o | op::debounce(ns{10}, ts))
R(merge_just, o | op::merge_with(src::just(ts, 1, 2)))
