//@ bound: also up to 3 tasks scheduled for arbitrary time points, past ones included, one of them re-scheduling itself, also into the past
#include "sched.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
using namespace h;
static void expect_all(Model& m) { for (int i = 0; i < m.b.n; ++i) m.push(i, m.b.t[i].delay); while (!m.empty()) m.step(); }
template<class Run>
static void absolute(Run run, bool one)
{
    sym_want("past"); sym_want("future");
    const uint64_t live = sym_heap_live();
    {
        Board b;
        const int n = one ? 1 : (int)sym_concrete(sym_u64("n", 1, THOROUGH ? 3 : 2));
        any_absolute_board(b, n);
        run(b);
        Model m{b};
        expect_all(m);
        m.check("tasks must run by time point, whatever it is relative to");
        if (b.t[0].delay < 0) sym_cover("past");
        if (b.t[0].delay > 0) sym_cover("future");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_immediate_absolute() { absolute([](Board& b) { submit(sch::immediate::create_worker(), b, 0); }, true); }
extern "C" void H_current_thread_absolute_outer() { absolute([](Board& b) { submit(sch::current_thread::create_worker(), b, 0); }, true); }
extern "C" void H_current_thread_absolute()
{
    absolute([](Board& b) {
        const auto w = sch::current_thread::create_worker();
        Board root; root.n = 1;
        w.schedule([&](const Handler&) -> sch::optional_delay_from_now { for (int i = 0; i < b.n; ++i) submit(w, b, i); return std::nullopt; }, Handler{&root, 0});
    }, false);
}
extern "C" void H_run_loop_absolute()
{
    absolute([](Board& b) {
        sch::run_loop loop{};
        const auto w = loop.create_worker();
        for (int i = 0; i < b.n; ++i) submit(w, b, i);
        while (!loop.is_empty()) loop.dispatch();
    }, false);
}
// time of the test scheduler is its own
extern "C" void H_test_scheduler_absolute()
{
    sym_want("past"); sym_want("future");
    sch::test_scheduler ts{};
    const auto w = ts.create_worker();
    const auto t0 = sch::test_scheduler::now();
    int64_t off[2]; int seq[2]{-1, -1}, n = 0; sch::time_point ran[2]{};
    struct None { bool is_disposed() const { return false; } void on_error(const std::exception_ptr&) const { sym_fail("unexpected error"); } };
    for (int i = 0; i < 2; ++i)
    {
        off[i] = sym_i64("offset", -1000, 1000);
        w.schedule(t0 + ns{off[i]}, [&, i](const None&) -> sch::optional_delay_from_now { sym_check(n < 2, "ran too often"); ran[i] = sch::test_scheduler::now(); seq[n++] = i; return std::nullopt; }, None{});
    }
    int due = 0;
    for (int i = 0; i < 2; ++i) if (off[i] <= 0) ++due;
    sym_check(n == due, "exactly the tasks that are due must run");
    const int64_t step = sym_i64("step", 0, 1000);
    ts.time_advance(ns{step});
    for (int i = 0; i < 2; ++i) sym_check((seq[0] == i || seq[1] == i) == (off[i] <= step), "exactly the tasks that are due must run");
    if (n == 2 && off[0] > 0 && off[1] > 0) sym_check(seq[0] == (off[1] < off[0] ? 1 : 0), "earlier time points first");
    sym_cover(off[0] < 0 ? "past" : "future");
}
