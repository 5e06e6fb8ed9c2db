//@ bound: chains of 6..7 tasks, each scheduled by its predecessor or by itself again, with a symbolic delay of 0..1 ns: every one runs at the same depth of the stack; 6..7 pending tasks are dropped one by one, not inside each other
//@ preempt: 0
#include "sched.hpp"
#include "deep.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
using namespace h;
struct Nobody { static bool is_disposed() noexcept { return false; } static void on_error(const std::exception_ptr&) {} };
template<class W> static void chain(const W& w, Deep& d, int n, ns again)
{
    w.schedule(again, [&d, n, again, w](const Nobody&) -> sch::optional_delay_from_now { d.round(); if (d.rounds < n) chain(w, d, n, again); return std::nullopt; }, Nobody{});
}
extern "C" void H_deep_chain()
{
    sym_want("rounds");
    const int n = many(), kind = (int)sym_concrete(sym_u64("scheduler", 0, 3)); const ns again{(int64_t)sym_concrete(sym_u64("delay", 0, 1))}; Deep d;
    if (kind == 0) sch::current_thread::create_worker().schedule([&](const Nobody&) -> sch::optional_delay_from_now { chain(sch::current_thread::create_worker(), d, n, again); return std::nullopt; }, Nobody{});
    else if (kind == 1) chain(sch::current_thread::create_worker(), d, n, again);
    else if (kind == 2) { sch::run_loop rl{}; chain(rl.create_worker(), d, n, again); while (!rl.is_empty()) { rt_clock_advance(1); rl.dispatch_if_ready(); } }
    else { sch::test_scheduler ts{}; if (!again.count()) return; chain(ts.create_worker(), d, n, again); for (int i = 0; i < n; ++i) ts.time_advance(ns{1}); }
    sym_check(d.rounds == n, "every task runs once");
}
extern "C" void H_deep_again()
{
    sym_want("rounds");
    const int n = many(), kind = (int)sym_concrete(sym_u64("scheduler", 0, 4)); const ns again{(int64_t)sym_concrete(sym_u64("delay", 0, 1))}; Deep d;
    const auto task = [&](const Nobody&) -> sch::optional_delay_from_now { d.round(); return d.rounds < n ? sch::optional_delay_from_now{again} : std::nullopt; };
    if (kind == 0) sch::immediate::create_worker().schedule(task, Nobody{});
    else if (kind == 1) sch::current_thread::create_worker().schedule(task, Nobody{});
    else if (kind == 2) { sch::run_loop rl{}; rl.create_worker().schedule(task, Nobody{}); while (!rl.is_empty()) { rt_clock_advance(1); rl.dispatch_if_ready(); } }
    else if (kind == 3) { sch::test_scheduler ts{}; ts.create_worker().schedule(task, Nobody{}); for (int i = 0; i < n; ++i) ts.time_advance(ns{1}); }
    else { sch::new_thread::create_worker().schedule(task, Nobody{}); sym_join_all(); }
    sym_check(d.rounds == n, "every run happens");
}
struct Held { Deep* d; explicit Held(Deep& x) : d{&x} {} Held(Held&& o) noexcept : d{std::exchange(o.d, nullptr)} {} Held(const Held&) = delete; ~Held() { if (d) d->round(); } };
extern "C" void H_deep_pending()
{
    sym_want("rounds");
    const uint64_t live = sym_heap_live();
    const int n = many(), kind = (int)sym_concrete(sym_u64("scheduler", 0, 2)), order = (int)sym_concrete(sym_u64("order", 0, 1));
    Deep d;
    const auto fill = [&](const auto& w) { for (int i = 0; i < n; ++i) w.schedule(ns{1000 + (order ? i : n - i)}, [](const Nobody&, const Held&) -> sch::optional_delay_from_now { return std::nullopt; }, Nobody{}, Held{d}); };
    if (kind == 0) { sch::run_loop rl{}; fill(rl.create_worker()); }
    else if (kind == 1) { sch::test_scheduler ts{}; fill(ts.create_worker()); }
    else { sch::run_loop rl{}; fill(rl.create_worker()); rt_clock_advance(1001); rl.dispatch_if_ready(); }
    sym_check(d.rounds == n, "every pending task is released once");
    sym_check(sym_heap_live() == live, "leak");
}
