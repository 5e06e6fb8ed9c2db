//@ bound: interval/timer with arbitrary initial delay and period in [0,1000] ns, up to 3 (thorough: 5) ticks, arbitrarily slow observers; immediate, current_thread, run_loop, new_thread
//@ assume: time is virtual: it passes only while a thread sleeps or a callback is declared slow
//@ preempt: 1
// clang 18 miscompiles parenthesised aggregate initialisation when the first member is empty and [[no_unique_address]]
// (interval_strategy), so this file is compiled without the attribute.
#include <rpp/defs.hpp>
#undef RPP_NO_UNIQUE_ADDRESS
#define RPP_NO_UNIQUE_ADDRESS
#include "sched.hpp"
using namespace h;
namespace source = rpp::source;
// interval/timer in virtual time
extern "C" void H_interval()
{
    sym_want("left"); sym_want("slow"); sym_want("timer");
    const uint64_t live = sym_heap_live();
    {
        const int k = (int)sym_concrete(sym_u64("scheduler", 0, 3));
        if (k == 3) sym_preempt(0);         // concurrency of new_thread is C25's subject
        const int64_t initial = any_ns("initial"), period = any_ns("period"), slow = (THOROUGH || k < 3) && sym_bool("slow") ? any_ns("slowness") : 0;
        const int ticks = (int)sym_concrete(sym_u64("ticks", 1, THOROUGH ? (k < 3 ? 5 : 3) : (k < 3 ? 3 : 2))), form = (int)sym_concrete(sym_u64("form", 0, 4));
        int n = 0; int64_t val[8]{}, at[8]{}; int term = 0;
        const int64_t start = rt_clock_ns();
        auto d = rpp::composite_disposable_wrapper::make();
        const int want = form >= 3 ? 1 : ticks;
        auto on_next = [&](size_t v) { sym_check(n < want, "tick after the end"); val[n] = (int64_t)v; at[n++] = rt_clock_ns() - start; rt_clock_advance(slow); if (n == want && form < 3) { d.dispose(); sym_cover("left"); } };
        auto on_err = [&](const std::exception_ptr&) { sym_fail("interval has no error"); };
        auto on_done = [&] { ++term; };
        auto go = [&](const auto& s) {
            const auto t0 = sch::time_point{ns{start + initial}};
            if (form == 0) source::interval(ns{initial}, ns{period}, s).subscribe(d, on_next, on_err, on_done);
            else if (form == 1) source::interval(t0, ns{period}, s).subscribe(d, on_next, on_err, on_done);
            else if (form == 2) source::interval(ns{period}, s).subscribe(d, on_next, on_err, on_done);
            else if (form == 3) source::timer(ns{initial}, s).subscribe(d, on_next, on_err, on_done);
            else source::timer(t0, s).subscribe(d, on_next, on_err, on_done);
        };
        if (k == 0) go(sch::immediate{});
        else if (k == 1) go(sch::current_thread{});
        else if (k == 2) { sch::run_loop loop{}; go(loop); sym_check(n == 0, "nothing may be emitted before the run_loop is dispatched"); while (!loop.is_empty()) loop.dispatch(); }
        else { go(sch::new_thread{}); sym_join_all(); }
        sym_check(n == want, "interval must tick until the subscriber leaves, timer once");
        sym_check(term == (form >= 3), "interval never completes, timer completes after its tick");
        if (form >= 3) { sym_check(d.is_disposed(), "timer disposed after completion"); sym_cover("timer"); }
        int64_t tp = form == 2 ? period : initial, now = 0;
        for (int i = 0; i < n; ++i)
        {
            sym_check(val[i] == i, "ticks must count from zero");
            sym_check(at[i] >= tp, "tick too early");
            if (tp > now) now = tp;
            sym_check(at[i] == now, "tick not at its time point (nothing else was running)");
            now += slow;
            tp += period;
        }
        if (slow) sym_cover("slow");
    }
    sym_check(sym_heap_live() == live, "leak");
}
