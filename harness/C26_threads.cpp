//@ bound: one source thread (up to 2 values plus any termination, thorough 3) and a new_thread worker, optionally a third party disposing; every schedule with at most 2 (thorough: 3) preemptions; periods that have ended, have not ended, or end meanwhile
//@ assume: preemption only at synchronisation operations; data races are reported separately
//@ preempt: 2
//@ preempt_thorough: 3
#define H_VALUE V
#include "sched.hpp"
using namespace h;
namespace op = rpp::operators;
static constexpr int N = THOROUGH ? 3 : 2;
struct Src
{
    int n = 0, kind[5]{}, disposed = 0;
    std::optional<rpp::dynamic_observer<val_t>> o;
    auto obs()
    {
        return rpp::source::create<val_t>([this](auto&& ob) {
            ob.set_upstream(rpp::make_callback_disposable([this]() noexcept { ++disposed; }));
            o.emplace(std::move(ob).as_dynamic());
        });
    }
    void any(int maxn)
    {
        n = (int)sym_concrete(sym_u64("n", 0, maxn));
        for (int i = 0; i < n; ++i) kind[i] = NEXT;
        const int t = (int)sym_concrete(sym_u64("term", 0, 2));
        if (t) kind[n++] = t;
    }
    int term() const { return n && kind[n - 1] != NEXT ? kind[n - 1] : 0; }
    int vals() const { return n - (term() != 0); }
    void play() { for (int i = 0; i < n; ++i) emit(*o, kind[i], i + 1); }
};
// delay and observe_on: nothing lost, repeated or re-ordered, on the scheduler's thread, terminal event last and once
static void shift(bool observe)
{
    sym_want("all");
    const uint64_t live = sym_heap_live();
    {
        Src s; Rec r;
        s.any(N);
        const int64_t delay = sym_bool("delayed") ? 5 : 0;
        bool wrong_thread = false;
        const int me = sym_tid();
        auto snk = rpp::make_lambda_observer<val_t>([&](int v) { wrong_thread |= sym_tid() == me; r.on_next(v); }, [&](const std::exception_ptr& e) { r.on_error(e); }, [&] { wrong_thread |= sym_tid() == me; r.on_completed(); });
        if (observe) (s.obs() | op::observe_on(sch::new_thread{}, ns{delay})).subscribe(std::move(snk));
        else (s.obs() | op::delay(ns{delay}, sch::new_thread{})).subscribe(std::move(snk));
        s.play();
        s.o.reset();
        sym_join_all();
        const bool drops = observe && s.term() == ERR;
        sym_check(!wrong_thread, "values must be delivered on the scheduler's thread");
        for (int i = 0; i < r.n; ++i) if (r.kind[i] == NEXT) sym_check(r.val[i] == i + 1, "values lost, repeated or re-ordered");
        if (!drops) { sym_check(r.n == s.n, "an event was lost"); sym_cover("all"); }
        if (s.term()) { sym_check(r.term && r.kind[r.n - 1] == s.term(), "the terminal event was lost"); sym_check(s.disposed == 1, "source not released"); }
        if (s.term() == ERR) sym_check(r.val[r.n - 1] == s.n, "wrong error");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_delay() { shift(false); }
extern "C" void H_observe_on() { shift(true); }
// debounce: the period may end while the source completes; the last value is never lost by completion
extern "C" void H_debounce()
{
    sym_want("pending"); sym_want("emitted");
    const uint64_t live = sym_heap_live();
    {
        Src s; Rec r;
        s.any(N);
        const int64_t period = sym_bool("period") ? 5 : 0;
        (s.obs() | op::debounce(ns{period}, sch::new_thread{})).subscribe(sink(r));
        s.play();
        s.o.reset();
        sym_join_all();
        int last = 0;
        for (int i = 0; i < r.n; ++i) if (r.kind[i] == NEXT) { sym_check(r.val[i] > last && r.val[i] <= s.vals(), "values repeated or re-ordered"); last = (int)r.val[i]; }
        if (s.term()) { sym_check(r.term && r.kind[r.n - 1] == s.term(), "the terminal event was lost"); sym_check(s.disposed == 1, "source not released"); }
        if (s.vals() && s.term() != ERR) { sym_check(last == s.vals(), "the last value was lost"); sym_cover(s.term() ? "pending" : "emitted"); }
    }
    sym_check(sym_heap_live() == live, "leak");
}
// timeout: the timer fires while the source emits, fails or completes; observers which own something show use after the switch
extern "C" void H_timeout()
{
    sym_want("timed out"); sym_want("in time");
    const uint64_t live = sym_heap_live();
    {
        Src s; Rec r;
        s.any(N);
        const int form = (int)sym_concrete(sym_u64("form", 0, 1)), late = (int)sym_concrete(sym_u64("late", 0, 1));
        if (form == 0) (s.obs() | op::timeout(ns{late ? 0 : 5}, sch::new_thread{})).subscribe(sink(r).as_dynamic());
        else (s.obs() | op::timeout(ns{late ? 0 : 5}, rpp::source::just(val_t{77}), sch::new_thread{})).subscribe(sink(r).as_dynamic());
        s.play();
        s.o.reset();
        sym_join_all();
        int k = 0;
        while (k < r.n && k < s.n && r.kind[k] == s.kind[k] && (s.kind[k] == DONE || r.val[k] == k + 1)) ++k;
        if (k == s.n && s.term()) { sym_check(k == r.n, "events after the end"); sym_cover("in time"); }
        else
        {
            if (form == 0) sym_check(r.n == k + 1 && r.kind[k] == ERR && r.val[k] == 9001, "either the source ends the stream or the timeout, in which case nothing follows");
            else sym_check(r.n == k + 2 && r.kind[k] == NEXT && r.val[k] == 77 && r.kind[k + 1] == DONE, "either the source ends the stream or the fallback, in which case nothing of the source follows");
            if (!late) sym_check(k == s.n, "an event which came in time was lost");
            sym_cover("timed out");
        }
        sym_check(s.disposed == 1, "source not released");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// dispose() from the thread which subscribed or from another one, while events are on their way
extern "C" void H_dispose()
{
    sym_want("before all"); sym_want("after all");
    const uint64_t live = sym_heap_live();
    {
        Src s; Rec r;
        s.any(1);
        const int what = (int)sym_concrete(sym_u64("op", 0, 4));
        auto d = rpp::composite_disposable_wrapper::make();
        const auto t = sch::new_thread{};
        if (what == 0) (s.obs() | op::delay(ns{0}, t)).subscribe(sink(d, r));
        else if (what == 1) (s.obs() | op::observe_on(t)).subscribe(sink(d, r));
        else if (what == 2) (s.obs() | op::debounce(ns{0}, t)).subscribe(sink(d, r));
        else if (what == 3) (s.obs() | op::timeout(ns{5}, t)).subscribe(sink(d, r));
        else (rpp::source::from_iterable(std::array{val_t{1}, val_t{2}}) | op::subscribe_on(t)).subscribe(sink(d, r));
        if (what < 4) s.play();
        d.dispose();
        sym_check(d.is_disposed(), "disposed");
        s.o.reset();
        sym_join_all();
        if (what < 4) sym_check(s.disposed == 1, "source not released by dispose()");
        if (r.n == 0) sym_cover("before all");
        if (r.term) sym_cover("after all");
        for (int i = 0; i < r.n; ++i) if (r.kind[i] == NEXT) sym_check(r.val[i] == i + 1, "values lost, repeated or re-ordered");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// subscribe_on: subscription on the scheduler's thread, and every event arrives
extern "C" void H_subscribe_on()
{
    sym_want("all");
    const uint64_t live = sym_heap_live();
    {
        Rec r; int tid = -1;
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        (rpp::source::create<val_t>([&](auto&& o) { tid = sym_tid(); for (int i = 0; i < n; ++i) o.on_next(i + 1); o.on_completed(); }) | op::subscribe_on(sch::new_thread{})).subscribe(sink(r));
        sym_join_all();
        sym_check(tid >= 0 && tid != sym_tid(), "must subscribe on the scheduler's thread");
        sym_check(r.n == n + 1 && r.completed(), "an event was lost");
        sym_cover("all");
    }
    sym_check(sym_heap_live() == live, "leak");
}
