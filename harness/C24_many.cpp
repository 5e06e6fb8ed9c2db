//@ bound: also 255..300 tasks at once
//@ preempt: 0
//@ maxinstr: 100000000
#include "sched.hpp"
#include "many.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
using namespace h;
struct Nobody { static bool is_disposed() noexcept { return false; } static void on_error(const std::exception_ptr&) {} };
extern "C" void H_tasks_many()
{
    const uint64_t live = sym_heap_live();
    {
        const int n = crowd(), kind = (int)sym_concrete(sym_u64("scheduler", 0, 2)), same = (int)sym_concrete(sym_u64("same", 0, 1));
        int done = 0, last = -1; bool ordered = true;
        const auto fill = [&](const auto& w) { for (int i = 0; i < n; ++i) w.schedule(ns{same ? 5 : i}, [&, i](const Nobody&) -> sch::optional_delay_from_now { ordered &= i == last + 1; last = i; ++done; return std::nullopt; }, Nobody{}); };
        if (kind == 0) sch::current_thread::create_worker().schedule([&](const Nobody&) -> sch::optional_delay_from_now { fill(sch::current_thread::create_worker()); return std::nullopt; }, Nobody{});
        else if (kind == 1) { sch::run_loop rl{}; fill(rl.create_worker()); rt_clock_advance(1000); while (!rl.is_empty()) rl.dispatch_if_ready(); }
        else { sch::test_scheduler ts{}; fill(ts.create_worker()); ts.time_advance(ns{1000}); }
        sym_check(done == n && ordered, "every task runs once, in order");
    }
    sym_check(sym_heap_live() == live, "leak");
}
