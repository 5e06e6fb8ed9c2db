//@ bound: sources of up to 3 (thorough: 4) values plus any termination, every event after an arbitrary gap in [0,100] ns; arbitrary periods/delays in [0,100] ns; observers of arbitrary slowness; run_loop (and immediate, current_thread, test_scheduler where useful) in virtual time; subscribe_on/observe_on/delay before, between and after disposal
//@ assume: time is virtual: it passes only while a thread sleeps or a callback is declared slow; an event exactly at the end of a period may count as inside or outside of it
//@ preempt: 0
#define H_VALUE V
#include "sched.hpp"
using namespace h;
namespace op = rpp::operators;
static constexpr int N = THOROUGH ? 4 : 3;
// a source whose events are tasks of `w`, each an arbitrary gap after the previous one
struct Timed
{
    int     n = 0, kind[6]{}, val[6]{}, subs = 0;
    int64_t at[6]{};        // planned offset
    int64_t arr[6]{};       // real offset
    int     emitted = 0;
    int64_t start = 0;
    bool    released = false;
    void any(int maxn)
    {
        const int m = (int)sym_concrete(sym_u64("n", 0, maxn));
        int64_t t = 0;
        for (int i = 0; i <= m; ++i)
        {
            kind[i] = i < m ? (int)NEXT : (int)sym_concrete(sym_u64("term", 0, 2));
            if (i == m && kind[i] == NEXT) break;
            val[i] = kind[i] == DONE ? 0 : (any_int("v") & (kind[i] == ERR ? 1016 : -8)) | i;     // distinct values
            at[i] = t += any_ns("gap", 100);
            n = i + 1;
        }
        start = rt_clock_ns();
    }
    template<class W>
    auto obs(W w)
    {
        return rpp::source::create<val_t>([this, w](auto&& o) {
            ++subs;
            auto d = rpp::make_callback_disposable([this]() noexcept { sym_check(!released, "source released twice"); released = true; });
            o.set_upstream(d);
            auto p = std::make_shared<std::decay_t<decltype(o)>>(std::move(o));
            for (int i = 0; i < n; ++i)
                w.schedule(sch::time_point{ns{start + at[i]}}, [this, p, i](const Handler2&) -> sch::optional_delay_from_now {
                    if (released) return std::nullopt;
                    arr[i] = rt_clock_ns() - start;
                    ++emitted;
                    emit(*p, kind[i], val[i]);
                    return std::nullopt;
                }, Handler2{});
        });
    }
    struct Handler2 { bool is_disposed() const { return false; } void on_error(const std::exception_ptr&) const { sym_fail("unexpected error"); } };
    int vals() const { int c = 0; for (int i = 0; i < n; ++i) c += kind[i] == NEXT; return c; }
    int term() const { return n && kind[n - 1] != NEXT ? kind[n - 1] : 0; }
};
// what arrives and when; `slow`: how long the observer takes per value
struct Seen
{
    Rec r; int64_t at[Rec::MAX]{}, end[Rec::MAX]{}, start = 0, slow = 0;
    auto obs(const rpp::composite_disposable_wrapper& d)
    {
        auto stamp = [this](auto&& f) { at[r.n] = rt_clock_ns() - start; f(); };
        return rpp::make_lambda_observer<val_t>(d, [this, stamp](int v) { stamp([&] { r.on_next(v); }); rt_clock_advance(slow); end[r.n - 1] = rt_clock_ns() - start; },
                                              [this, stamp](const std::exception_ptr& e) { stamp([&] { r.on_error(e); }); },
                                              [this, stamp] { stamp([&] { r.on_completed(); }); });
    }
};
static void drain(const sch::run_loop& l) { for (int i = 0; !l.is_empty(); ++i) { sym_check(i < 64, "the scheduler never becomes idle"); l.dispatch(); } }
// delay and observe_on: the values in order, each `delay` after its arrival (later only while the observer is busy)
static void shift(bool observe)
{
    sym_want("all"); sym_want("slow");
    const uint64_t live = sym_heap_live();
    {
        Timed t; Seen s; sch::run_loop loop{};
        t.any(N);
        s.start = t.start;
        const int64_t delay = any_ns("delay", 100);
        if (sym_bool("slow")) s.slow = sym_i64("slowness", 1, 100);
        auto d = rpp::composite_disposable_wrapper::make();
        auto src = t.obs(loop.create_worker());
        if (observe) { if (sym_bool("default")) { if (delay) return; (src | op::observe_on(loop)).subscribe(s.obs(d)); } else (src | op::observe_on(loop, ns{delay})).subscribe(s.obs(d)); }
        else (src | op::delay(ns{delay}, loop)).subscribe(s.obs(d));
        sym_check(s.r.n == 0, "nothing may be delivered before the scheduler runs");
        drain(loop);
        sym_check(t.emitted == t.n, "harness: source not finished");
        const bool drops = observe && t.term() == ERR;
        int64_t busy = 0; int j = 0;
        for (int i = 0; i < s.r.n; ++i)
        {
            if (s.r.kind[i] == ERR && observe) break;
            sym_check(j < t.n && s.r.kind[i] == t.kind[j] && s.r.val[i] == t.val[j], "an event was changed, re-ordered, repeated or skipped");
            const int64_t due = t.arr[j] + delay;
            sym_check(s.at[i] >= due, "an event was delivered early");
            sym_check(s.at[i] == due || s.at[i] == busy, "an event was delivered late although the observer was idle");
            busy = s.r.kind[i] == NEXT ? s.end[i] : s.at[i];
            ++j;
        }
        if (!drops) { sym_check(s.r.n == t.n, "an event was lost"); if (t.n) sym_cover("all"); }
        else
        {
            sym_check(s.r.errored() && s.r.val[s.r.n - 1] == t.val[t.n - 1], "the error was lost");
            sym_check(s.at[s.r.n - 1] == t.arr[t.n - 1], "observe_on forwards an error at once");
            for (int i = 0; i < t.n - 1; ++i) if (t.arr[i] + delay < t.arr[t.n - 1] && !s.slow) sym_check(i < s.r.n - 1, "a value which was due before the error was lost");
        }
        if (t.term()) sym_check(t.released && d.is_disposed(), "not released after the end of the stream");
        if (s.slow && s.r.n > 1) sym_cover("slow");
        d.dispose();
        sym_check(t.released, "source not released by dispose()");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_delay() { shift(false); }
extern "C" void H_observe_on() { shift(true); }
extern "C" void H_debounce()
{
    sym_want("dropped"); sym_want("silence"); sym_want("flushed"); sym_want("error drops");
    const uint64_t live = sym_heap_live();
    {
        Timed t; Seen s; sch::run_loop loop{};
        t.any(N);
        s.start = t.start;
        const int64_t period = any_ns("period", 100);
        auto d = rpp::composite_disposable_wrapper::make();
        (t.obs(loop.create_worker()) | op::debounce(ns{period}, loop)).subscribe(s.obs(d));
        drain(loop);
        int k = 0;
        for (int i = 0; i < t.n; ++i)
        {
            auto got = [&](int64_t at) {
                sym_check(k < s.r.n && s.r.kind[k] == t.kind[i] && s.r.val[k] == t.val[i], "a value followed by enough silence (or the end) must be emitted, unchanged and in order");
                sym_check(s.at[k] == at, "wrong time of emission");
                ++k;
            };
            if (t.kind[i] != NEXT) { got(t.arr[i]); continue; }
            if (i + 1 == t.n) { got(t.arr[i] + period); sym_cover("silence"); continue; }
            const int64_t gap = t.arr[i + 1] - t.arr[i];
            if (gap > period) { got(t.arr[i] + period); sym_cover("silence"); }
            else if (gap < period)
            {
                if (t.kind[i + 1] == DONE) { got(t.arr[i + 1]); sym_cover("flushed"); }
                else if (t.kind[i + 1] == ERR) sym_cover("error drops");
                else sym_cover("dropped");
            }
            else if (k < s.r.n && s.r.kind[k] == NEXT && s.at[k] == t.arr[i + 1] && s.r.val[k] == t.val[i]) ++k;   // exactly at the end of the period: either is fine
            else sym_check(t.kind[i + 1] != DONE, "the pending value must be emitted on completion");
        }
        sym_check(k == s.r.n, "debounce emitted a value which was not followed by enough silence");
        if (t.term()) sym_check(t.released && d.is_disposed(), "not released after the end of the stream");
        d.dispose();
        sym_check(t.released, "source not released by dispose()");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_throttle()
{
    sym_want("dropped"); sym_want("passed");
    const uint64_t live = sym_heap_live();
    {
        Timed t; Seen s; sch::run_loop loop{};
        t.any(N);
        s.start = t.start;
        const int64_t period = any_ns("period", 100);
        auto d = rpp::composite_disposable_wrapper::make();
        (t.obs(loop.create_worker()) | op::throttle<sch::run_loop>(ns{period})).subscribe(s.obs(d));
        drain(loop);
        int k = 0; int64_t last = -1;
        for (int i = 0; i < t.n; ++i)
        {
            if (t.kind[i] == NEXT && last >= 0 && t.arr[i] - last < period) { sym_cover("dropped"); continue; }
            if (t.kind[i] == NEXT && last >= 0) sym_cover("passed");
            sym_check(k < s.r.n && s.r.kind[k] == t.kind[i] && s.r.val[k] == t.val[i] && s.at[k] == t.arr[i], "the first value of an interval must pass unchanged and at once");
            ++k;
            if (t.kind[i] == NEXT) last = t.arr[i];
        }
        sym_check(k == s.r.n, "throttle passed more than one value within its period");
        d.dispose();
        sym_check(t.released, "source not released by dispose()");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// two subscriptions of one throttled observable must not influence each other
extern "C" void H_throttle_twice()
{
    const int64_t period = any_ns("period", 100), gap = any_ns("gap", 100);
    auto o = rpp::source::just(val_t{1}) | op::throttle<sch::run_loop>(ns{period});
    int n = 0;
    o.subscribe([&](int) { ++n; });
    rt_clock_advance(gap);
    o.subscribe([&](int) { ++n; });
    sym_check(n == 2, "each subscription has its own interval");
}
extern "C" void H_timeout()
{
    sym_want("timed out"); sym_want("in time"); sym_want("fallback");
    const uint64_t live = sym_heap_live();
    {
        Timed t; Seen s; sch::run_loop loop{};
        t.any(N);
        s.start = t.start;
        const int64_t period = any_ns("period", 100);
        if (sym_bool("slow")) s.slow = sym_i64("slowness", 1, 100);
        const int form = (int)sym_concrete(sym_u64("form", 0, 1));
        auto d = rpp::composite_disposable_wrapper::make();
        const int fb = any_int("fallback");
        auto src = t.obs(loop.create_worker());
        if (form == 0) (src | op::timeout(ns{period}, loop)).subscribe(s.obs(d));
        else (src | op::timeout(ns{period}, rpp::source::just(val_t{fb}), loop)).subscribe(s.obs(d));
        drain(loop);
        int k = 0; bool out = false;
        int64_t from = 0;
        for (int i = 0; i <= t.n && !out; ++i)
        {
            // would the timer have fired before event i?
            const bool more = i < t.n;
            const bool fired = k < s.r.n && (form == 0 ? s.r.kind[k] == ERR && s.r.val[k] == 9001 && s.at[k] == from + period
                                                       : s.r.kind[k] == NEXT && s.r.val[k] == fb && s.at[k] == from + period && k + 1 < s.r.n && s.r.kind[k + 1] == DONE);
            if (!more && t.term()) break;
            const int64_t arrives = !more ? 0 : t.at[i] > from ? t.at[i] : from;
            const bool late = !more || arrives > from + period, in_time = more && arrives < from + period;
            if (late || (!in_time && fired && i >= t.emitted))
            {
                sym_check(fired, "timeout must fail (or switch to the fallback) exactly when no value came in time");
                sym_check(t.released, "the source must be released when the timeout fires");
                out = true;
                k += form == 0 ? 1 : 2;
                sym_cover(form == 0 ? "timed out" : "fallback");
                break;
            }
            sym_check(k < s.r.n && s.r.kind[k] == t.kind[i] && s.r.val[k] == t.val[i] && s.at[k] == t.arr[i], "an event which came in time must pass unchanged and at once");
            if (t.kind[i] == NEXT) from = s.end[k];
            ++k;
            sym_cover("in time");
        }
        sym_check(k == s.r.n, "unexpected notification");
        sym_check(d.is_disposed(), "not released after the end of the stream");
        sym_check(t.released, "source not released");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// subscribe_on: the subscription (and whatever the source emits while subscribing) happens in a task of the scheduler
extern "C" void H_subscribe_on()
{
    sym_want("before"); sym_want("all");
    Script sc = Script::wellformed(N);
    Rec r; UpLog up;
    const uint64_t live = sym_heap_live();
    {
        sch::run_loop loop{};
        auto d = rpp::composite_disposable_wrapper::make();
        auto src = rpp::source::create<val_t>([&](auto&& o) {
            ++up.subs;
            o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up.disposed; }));
            for (int i = 0; i < sc.n; ++i) emit(o, sc.kind[i], sc.val[i]);
        });
        const int when = (int)sym_concrete(sym_u64("dispose", 0, 2)), times = (int)sym_concrete(sym_u64("nested", 0, 1));
        if (times) (src | op::subscribe_on(loop) | op::subscribe_on(loop)).subscribe(sink(d, r));
        else (src | op::subscribe_on(loop)).subscribe(sink(d, r));
        sym_check(up.subs == 0 && r.n == 0, "subscribed before the scheduler ran");
        if (when == 1) d.dispose();
        drain(loop);
        if (when == 1) { sym_check(up.subs == 0 && r.n == 0, "subscribed although the subscription was disposed before"); sym_cover("before"); }
        else
        {
            sym_check(up.subs == 1, "must subscribe exactly once");
            Exp e; for (int i = 0; i < sc.n; ++i) { if (sc.kind[i] == NEXT) e.next(sc.val[i]); else if (sc.kind[i] == ERR) e.error(sc.val[i] & 1023); else e.done(); }
            e.check(r, "subscribe_on must pass every event");
            sym_cover("all");
            if (when == 2) d.dispose();
            if (when == 2 || sc.term()) sym_check(up.disposed == 1, "source not released");
        }
        d.dispose();
    }
    sym_check(sym_heap_live() == live, "leak");
}
// nothing is delivered after dispose(), whatever is still queued; queued values do not survive
extern "C" void H_dispose_queued()
{
    sym_want("queued");
    const uint64_t live = sym_heap_live();
    {
        const int what = (int)sym_concrete(sym_u64("op", 0, 3));
        Timed t; Seen s; sch::run_loop loop{};
        t.any(N - 1);
        s.start = t.start;
        const int64_t period = any_ns("period", 100), when = any_ns("when", 100);
        auto d = rpp::composite_disposable_wrapper::make();
        auto src = t.obs(loop.create_worker());
        int seen = -1;
        loop.create_worker().schedule(sch::time_point{ns{t.start + when}}, [&, d](const Timed::Handler2&) -> sch::optional_delay_from_now { d.dispose(); seen = s.r.n; if (seen < t.emitted) sym_cover("queued"); return std::nullopt; }, Timed::Handler2{});
        if (what == 0) (src | op::delay(ns{period}, loop)).subscribe(s.obs(d));
        else if (what == 1) (src | op::observe_on(loop, ns{period})).subscribe(s.obs(d));
        else if (what == 2) (src | op::debounce(ns{period}, loop)).subscribe(s.obs(d));
        else (src | op::timeout(ns{period}, loop)).subscribe(s.obs(d));
        drain(loop);
        sym_check(seen == s.r.n, "notification after dispose()");
        sym_check(t.released, "source not released by dispose()");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// schedulers which run the task in place
extern "C" void H_in_place()
{
    const uint64_t live = sym_heap_live();
    {
        Script sc = Script::wellformed(2);
        Rec r;
        const int what = (int)sym_concrete(sym_u64("op", 0, 4)), k = (int)sym_concrete(sym_u64("scheduler", 0, 1));
        const int64_t period = any_ns("period", 100), start = rt_clock_ns();
        auto src = rpp::source::create<val_t>([&](auto&& o) { for (int i = 0; i < sc.n; ++i) emit(o, sc.kind[i], sc.val[i]); });
        auto go = [&](const auto& s) {
            if (what == 0) (src | op::delay(ns{period}, s)).subscribe(sink(r));
            else if (what == 1) (src | op::observe_on(s, ns{period})).subscribe(sink(r));
            else if (what == 2) (src | op::debounce(ns{period}, s)).subscribe(sink(r));
            else if (what == 3) (src | op::subscribe_on(s)).subscribe(sink(r));
            else (src | op::throttle<std::decay_t<decltype(s)>>(ns{0})).subscribe(sink(r));
        };
        if (k) go(sch::immediate{}); else go(sch::current_thread{});
        Exp e; for (int i = 0; i < sc.n; ++i) { if (sc.kind[i] == NEXT) e.next(sc.val[i]); else if (sc.kind[i] == ERR) e.error(sc.val[i] & 1023); else e.done(); }
        if (k == 1) { e.check(r, "every event must pass"); if (what < 3) sym_check(rt_clock_ns() - start == period * (what == 1 && sc.last_kind() == ERR ? sc.n - 1 : what == 2 ? sc.nvals() : sc.n), "not delayed"); }
        else if (what == 0 || what >= 3) e.check(r, "every event must pass");
    }
    sym_check(sym_heap_live() == live, "leak");
}

// the consumer makes the source emit: events queue up behind the one being delivered
extern "C" void H_reentrant()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        Rec r;
        const int what = (int)sym_concrete(sym_u64("op", 0, 1)), k = (int)sym_concrete(sym_u64("scheduler", 0, 2)), n = (int)sym_concrete(sym_u64("n", 1, 3)), term = (int)sym_concrete(sym_u64("term", 1, 2));
        const int twice = sym_bool("twice");
        const int64_t period = any_ns("period", 100);
        rpp::subjects::publish_subject<val_t> subject{};
        sch::run_loop loop{};
        auto snk = rpp::make_lambda_observer<val_t>([&](int v) {
            Rec::In in{r, "overlapping notifications"};
            r.push(NEXT, v);
            const auto o = subject.get_observer();
            if (v == 1) for (int i = 2; i <= n; ++i) { if (!twice || i < n) o.on_next(i); }
            if (v == (twice && n > 1 ? n - 1 : 1)) { if (twice && n > 1) o.on_next(n); if (term == DONE) o.on_completed(); else o.on_error(std::make_exception_ptr(Err{5})); }
        }, [&](const std::exception_ptr& e) { r.on_error(e); }, [&] { r.on_completed(); });
        auto go = [&](const auto& s) {
            if (what == 0) (subject.get_observable() | op::delay(ns{period}, s)).subscribe(std::move(snk));
            else (subject.get_observable() | op::observe_on(s, ns{period})).subscribe(std::move(snk));
        };
        if (k == 0) go(sch::immediate{}); else if (k == 1) go(sch::current_thread{}); else go(loop);
        subject.get_observer().on_next(1);
        for (int i = 0; i < 8 && !loop.is_empty(); ++i) loop.dispatch();
        Exp e;
        if (what == 1 && term == ERR) { e.next(1); e.error(5); for (int i = 2; i <= n; ++i) (void)i; }
        else { for (int i = 1; i <= n; ++i) e.next(i); if (term == ERR) e.error(5); else e.done(); }
        if (what == 1 && term == ERR) { sym_check(r.errored() && r.n >= 2, "the error was lost"); for (int i = 0; i + 1 < r.n; ++i) sym_check(r.val[i] == i + 1, "values re-ordered"); r.log(); }
        else e.check(r, "events caused by the consumer must follow the one it is handling, in order");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
