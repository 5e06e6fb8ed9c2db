//@ bound: up to 3 tasks (thorough: 4) with arbitrary delays in [0,1000] ns; with up to 2 (thorough: 3) tasks one of them re-schedules itself up to 2 (thorough: 3) times (from now / from its time point / to an absolute time) and takes arbitrary time, throws or disposes another; up to 5 (thorough: 6) tasks with delays in [0,3] ns; immediate, current_thread, run_loop and test_scheduler
//@ assume: time is virtual: it passes only while a thread sleeps or a task is declared slow
#include "sched.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
using namespace h;
static const int N = THOROUGH ? 4 : 3;
static void expect_all(Model& m) { for (int i = 0; i < m.b.n; ++i) m.push(i, m.b.t[i].delay); while (!m.empty()) m.step(); }
// tasks scheduled from inside a running current_thread task
extern "C" void H_current_thread_nested()
{
    sym_want("repeated"); sym_want("disposed");
    const uint64_t live = sym_heap_live();
    {
        Board b;
        const int n = (int)sym_concrete(sym_u64("n", 1, N));
        any_board(b, n, THOROUGH || n < 3, n < 3);
        const auto w = sch::current_thread::create_worker();
        Board root; root.n = 1;
        w.schedule([&](const Handler&) -> sch::optional_delay_from_now { for (int i = 0; i < n; ++i) submit(w, b, i); sym_check(b.m == 0, "a nested task must not run before the current one has finished"); return std::nullopt; }, Handler{&root, 0});
        Model m{b};
        expect_all(m);
        m.check("current_thread must run nested tasks by time point, equal ones in order");
        if (b.done[0] == (THOROUGH ? 4 : 3)) sym_cover("repeated");
        if (n == 2 && b.dead[1] && b.done[1] == 0) sym_cover("disposed");
        sym_check(sch::current_thread::create_worker().now() >= sch::time_point{ns{b.start}}, "clock");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// tasks scheduled from outside: every schedule() call runs everything before it returns
extern "C" void H_current_thread_outer()
{
    Board b;
    any_board(b, 1, true, true);
    b.n = 2; b.t[1].delay = any_ns("delay");
    if (b.t[0].runs == 2) b.t[0].spawns = 1;
    const auto w = sch::current_thread::create_worker();
    submit(w, b, 0);
    Model m{b};
    m.push(0, b.t[0].delay);
    while (!m.empty()) m.step();
    m.check("current_thread must run everything before the outermost schedule() returns");
    const int64_t resume = b.off();
    sym_check(m.now <= resume, "clock");
    Board c; c.n = 1; c.start = rt_clock_ns();
    submit(w, c, 0);
    sym_check(c.done[0] == 1, "a later task must run again immediately");
}
// many tasks with few different time points: equal ones keep their order wherever they are in the queue
template<class Run>
static void many(Run run)
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        Board b;
        b.n = THOROUGH ? 6 : 5;
        b.start = rt_clock_ns();
        for (int i = 0; i < b.n; ++i) b.t[i].delay = sym_i64("delay", 0, 3);
        run(b);
        Model m{b};
        expect_all(m);
        m.check("tasks must run by time point, equal ones in the order of their submission");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_run_loop_many()
{
    many([](Board& b) {
        sch::run_loop loop{};
        const auto w = loop.create_worker();
        for (int i = 0; i < b.n; ++i) submit(w, b, i);
        for (int i = 0; i < b.n; ++i) loop.dispatch();
        sym_check(loop.is_empty(), "run_loop must be empty after the last task");
    });
}
extern "C" void H_current_thread_many()
{
    many([](Board& b) {
        const auto w = sch::current_thread::create_worker();
        Board root; root.n = 1;
        w.schedule([&](const Handler&) -> sch::optional_delay_from_now { for (int i = 0; i < b.n; ++i) submit(w, b, i); return std::nullopt; }, Handler{&root, 0});
    });
}
extern "C" void H_run_loop()
{
    sym_want("early"); sym_want("repeated");
    const uint64_t live = sym_heap_live();
    {
        Board b;
        const int n = (int)sym_concrete(sym_u64("n", 1, N));
        any_board(b, n, THOROUGH || n < 3, n < 3);
        sch::run_loop loop{};
        sym_check(loop.is_empty() && !loop.is_any_ready_schedulable(), "a new run_loop is empty");
        const auto w = loop.create_worker();
        for (int i = 0; i < n; ++i) submit(w, b, i);
        sym_check(b.m == 0, "run_loop must run nothing before dispatch");
        Model m{b};
        for (int i = 0; i < n; ++i) m.push(i, b.t[i].delay);
        // nothing is due yet: dispatch_if_ready must not run (or wait for) anything
        bool due = false; for (int i = 0; i < n; ++i) due = due || b.t[i].delay == 0;
        if (!due) { loop.dispatch_if_ready(); sym_check(b.m == 0 && b.off() == 0 && !loop.is_any_ready_schedulable(), "dispatch_if_ready must not run a task early"); sym_cover("early"); }
        while (!m.empty())
        {
            if (!m.step()) continue;
            while (b.m < m.m)
            {
                const int before = b.m;
                sym_check(!loop.is_empty(), "a scheduled task vanished");
                loop.dispatch();
                sym_check(b.m - before <= 1, "one dispatch runs one task");
            }
        }
        for (int i = 0; i < n && !loop.is_empty(); ++i) loop.dispatch();
        sym_check(loop.is_empty(), "run_loop must be empty after the last task");
        m.check("run_loop must run tasks by time point, equal ones in order");
        if (b.done[0] == (THOROUGH ? 4 : 3)) sym_cover("repeated");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_immediate()
{
    Board b;
    any_board(b, 1, true, true);
    b.n = 2; b.t[1].delay = any_ns("delay");
    const auto w = sch::immediate::create_worker();
    submit(w, b, 0);
    Model m{b};
    m.push(0, b.t[0].delay);
    while (!m.empty()) m.step();
    m.check("immediate must run a task in place, at its time points");
    // nested task: in place as well
    Board c; c.start = rt_clock_ns(); c.n = 2; c.t[0].spawns = 1; c.t[1].delay = any_ns("nested"); c.t[0].delay = any_ns("outer");
    submit(w, c, 0);
    sym_check(c.m == 2 && c.id[0] == 0 && c.id[1] == 1, "a nested task on immediate runs in place");
    sym_check(c.at[0] == c.t[0].delay && c.at[1] == c.t[0].delay + c.t[1].delay, "a nested task on immediate runs after its delay");
}
extern "C" void H_test_scheduler()
{
    sym_want("late");
    Board b;
    const int n = (int)sym_concrete(sym_u64("n", 1, N));
    b.n = n;
    sch::test_scheduler ts{};
    const auto t0 = sch::test_scheduler::now();
    const auto w = ts.create_worker();
    b.start = rt_clock_ns();
    for (int i = 0; i < n; ++i) b.t[i].delay = any_ns("delay");
    b.t[0].mode = (int)sym_concrete(sym_u64("mode", 1, 2));
    b.t[0].runs = (int)sym_concrete(sym_u64("runs", 1, 3));
    b.t[0].again = any_ns("again");
    for (int i = 0; i < n; ++i) { submit(w, b, i); sym_check(!(b.done[i] > 0) || b.t[i].delay == 0, "a task ran early"); }
    for (int i = 0; i < n; ++i) sym_check((b.done[i] > 0) == (b.t[i].delay == 0), "a task that is due must run at once");
    const int before = b.m;
    const int64_t step = any_ns("step", 3000);
    ts.time_advance(ns{step});
    sym_check(sch::test_scheduler::now() == t0 + ns{step}, "time_advance");
    for (int i = 0; i < n; ++i) sym_check((b.done[i] > 0) == (b.t[i].delay <= step), "exactly the tasks that are due must run");
    // order among the tasks that became due
    for (int k = before; k + 1 < b.m; ++k) if (b.id[k] != 0 && b.id[k + 1] != 0) sym_check(b.t[b.id[k]].delay < b.t[b.id[k + 1]].delay || (b.t[b.id[k]].delay == b.t[b.id[k + 1]].delay && b.id[k] < b.id[k + 1]), "tasks must run by time point");
    if (b.t[0].runs == 3 && b.t[0].mode == 2 && b.t[0].delay > 0) sym_check(b.done[0] == (step < b.t[0].delay ? 0 : std::max(step, b.t[0].delay + b.t[0].again) > step ? 1 : b.done[0]), "repeated task ran early");
    sym_check(ts.get_executions().size() == (size_t)b.m, "executions are recorded");
    if (b.m < n) sym_cover("late");
    for (int k = 0; k < b.m; ++k) sym_log(b.id[k]);
}

// the queue is owned while a subscription is made: nothing runs before the outermost owner has let go of it, whoever owns it
extern "C" void H_owned_queue()
{
    sym_want("inside task"); sym_want("top level");
    const uint64_t live = sym_heap_live();
    {
        Board      b; b.n = 4; b.start = rt_clock_ns();
        const bool in_task = sym_bool("in task");
        const int  depth = (int)sym_concrete(sym_u64("depth", 1, 2)), again = (int)sym_concrete(sym_u64("again", 0, 1));
        const bool owner_first = sym_bool("owner first");
        int        seq[8]{}, n = 0, inside = 0;
        const auto w = sch::current_thread::create_worker();
        auto task = [&](int id) { return [&, id](const Handler&) -> sch::optional_delay_from_now { sym_check(inside++ == 0, "tasks of a trampolining scheduler must not nest"); seq[n++] = id; --inside; return std::nullopt; }; };
        auto owned = [&] {
            if (!owner_first) w.schedule(task(1), Handler{&b, 1});
            {
                auto g = sch::current_thread::own_queue_and_drain_finally_if_not_owned();
                if (owner_first) w.schedule(task(1), Handler{&b, 1});
                if (depth == 2) { auto g2 = sch::current_thread::own_queue_and_drain_finally_if_not_owned(); w.schedule(task(2), Handler{&b, 2}); }
                else w.schedule(task(2), Handler{&b, 2});
                if (in_task || owner_first) sym_check(n == (in_task ? 1 : 0), "nothing may run while the queue is owned");
            }
            w.schedule(task(3), Handler{&b, 3});
        };
        if (in_task)
        {
            int r = 0;
            w.schedule([&](const Handler&) -> sch::optional_delay_from_now {
                sym_check(inside++ == 0, "tasks of a trampolining scheduler must not nest");
                seq[n++] = 0;
                if (!r) owned();
                sym_check(n == (r ? 5 : 1), "nothing may run while a task runs");
                --inside;
                if (r++ < again) return sch::delay_from_now{};
                return std::nullopt;
            }, Handler{&b, 0});
            const int want[] = {0, 1, 2, 3, 0};
            sym_check(n == 4 + again, "a task was lost or ran too often");
            for (int i = 0; i < n; ++i) sym_check(seq[i] == want[i], "tasks must run in the order of scheduling");
            sym_cover("inside task");
        }
        else
        {
            owned();
            sym_check(n == 3 && seq[0] == 1 && seq[1] == 2 && seq[2] == 3, "tasks must run in the order of scheduling, each once");
            sym_cover("top level");
        }
        // and the thread is left without a queue: a task runs at once again
        w.schedule(task(7), Handler{&b, 3});
        sym_check(seq[n - 1] == 7, "a task on an idle scheduler must run before schedule() returns");
        for (int i = 0; i < 4; ++i) sym_check(!b.errors[i], "unexpected error");
    }
    sym_check(sym_heap_live() == live, "leak");
}
