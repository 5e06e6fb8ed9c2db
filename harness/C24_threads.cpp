//@ bound: also a run_loop dispatched by one thread while up to two other threads schedule tasks with arbitrary delays, dispose them and look at it, every schedule with at most 2 (thorough: 3) preemptions
//@ assume: time is virtual: it passes only while every thread sleeps or a callback is declared slow
//@ preempt: 2
//@ preempt_thorough: 3
#include "sched.hpp"
using namespace h;
struct Any { bool is_disposed() const { return false; } void on_error(const std::exception_ptr&) const { sym_fail("unexpected error"); } };
// tasks scheduled while the dispatching thread waits for work or sleeps for a later task
extern "C" void H_run_loop_waiting()
{
    sym_want("overtakes");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Board b; b.n = 2; b.start = rt_clock_ns();
        b.t[0].delay = any_ns("delay"); b.t[1].delay = any_ns("delay2");
        const int64_t pause = any_ns("pause"), pause0 = any_ns("pause0");
        sch::run_loop loop{};
        std::thread t{[&] { for (int i = 0; i < 2; ++i) { const int before = b.m; loop.dispatch(); sym_check(b.m == before + 1, "dispatch() waits for a task and runs it"); } }};
        {
            const auto w = loop.create_worker();
            std::this_thread::sleep_for(ns{pause0});
            sym_spurious();
            submit(w, b, 0);
            std::this_thread::sleep_for(ns{pause});
            sym_spurious();
            submit(w, b, 1);
        }
        t.join();
        sym_check(b.m == 2 && loop.is_empty(), "a task was lost or ran too often");
        const int64_t tp0 = pause0 + b.t[0].delay, tp1 = pause0 + pause + b.t[1].delay;
        for (int k = 0; k < 2; ++k) sym_check(b.at[k] >= (b.id[k] ? tp1 : tp0), "a task ran early");
        for (int k = 0; k < 2; ++k) sym_check(b.at[k] == (b.id[k] ? tp1 : tp0), "a task must run at its time point, also when the dispatching thread was waiting for a later one");
        if (tp1 < tp0) { sym_check(b.id[0] == 1, "earlier time points first"); sym_cover("overtakes"); }
        if (tp0 < tp1) sym_check(b.id[0] == 0, "earlier time points first");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_run_loop_submitters()
{
    sym_want("both"); sym_want("disposed");
    const uint64_t live = sym_heap_live();
    {
        Board b; b.n = 3; b.start = rt_clock_ns();
        const int  later = (int)sym_concrete(sym_u64("later", 0, 2)), disp = (int)sym_concrete(sym_u64("dispose", 0, 1));
        std::atomic<int> inside{0}; int runs[2]{}, tid = -1;
        int64_t at[2]{};
        sch::run_loop loop{};
        auto task = [&](int i) { return [&, i](const Handler&) -> sch::optional_delay_from_now {
            sym_check(inside++ == 0, "two tasks of one run_loop overlap");
            if (tid < 0) tid = sym_tid();
            sym_check(tid == sym_tid(), "tasks run on the thread which dispatches");
            ++runs[i]; at[i] = b.off();
            --inside;
            return std::nullopt;
        }; };
        std::thread a{[&] { loop.create_worker().schedule(ns{later == 1 ? 10 : 0}, task(0), Handler{&b, 0}); }};
        std::thread c{[&] {
            loop.create_worker().schedule(ns{later == 2 ? 10 : 0}, task(1), Handler{&b, 1});
            if (disp) b.dead[1].store(true);
            (void)loop.is_empty(); (void)loop.is_any_ready_schedulable();
        }};
        for (int i = 0; i < 2; ++i) loop.dispatch();
        a.join(); c.join();
        sym_check(loop.is_empty(), "every task is taken");
        sym_check(runs[0] == 1, "a task was lost or ran too often");
        sym_check(at[0] >= (later == 1 ? 10 : 0) && (!runs[1] || at[1] >= (later == 2 ? 10 : 0)), "a task ran early");
        if (!disp) { sym_check(runs[1] == 1, "a task was lost or ran too often"); sym_cover("both"); }
        else { sym_check(runs[1] <= 1, "a task ran too often"); if (!runs[1]) sym_cover("disposed"); }
        sym_check(tid == sym_tid(), "tasks run on the thread which dispatches");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// every thread has its own current_thread queue: the tasks of one thread neither mix with nor wait for those of another
extern "C" void H_current_thread_each_its_own()
{
    sym_want("both");
    const uint64_t live = sym_heap_live();
    {
        const int how = (int)sym_concrete(sym_u64("how", 0, 1));
        const bool late = sym_bool("late");
        std::atomic<int> in_both{0};
        auto body = [&](int) {
            const int me = sym_tid();
            int order[4]{}, n = 0;
            auto leaf = [&](int i) { return [&, i](const Any&) -> sch::optional_delay_from_now { sym_check(sym_tid() == me, "current_thread runs tasks on the thread which scheduled them"); sym_check(n < 4, "ran too often"); order[n++] = i; return std::nullopt; }; };
            auto root = [&](const Any&) -> sch::optional_delay_from_now {
                if (++in_both == 2) sym_cover("both");
                const auto w = sch::current_thread::create_worker();
                w.schedule(ns{late ? 5 : 0}, leaf(1), Any{});
                w.schedule(leaf(2), Any{});
                sym_check(n == 0, "a task scheduled from inside waits for the running one");
                --in_both;
                return std::nullopt;
            };
            if (how == 0) sch::current_thread::create_worker().schedule(root, Any{});
            else
            {
                {
                    const auto guard = sch::current_thread::own_queue_and_drain_finally_if_not_owned();
                    sch::current_thread::create_worker().schedule(root, Any{});
                    sym_check(n == 0, "an owned queue is drained when its owner leaves");
                }
            }
            sym_check(n == 2 && order[0] == (late ? 2 : 1) && order[1] == (late ? 1 : 2), "everything this thread has scheduled has run, in time order, when the outermost call returns");
        };
        std::thread a{[&] { body(0); }};
        body(1);
        a.join();
    }
    sym_check(sym_heap_live() == live, "leak");
}
// a task which is disposed (by another thread) while its thread sleeps for it does not run any more
extern "C" void H_disposed_while_waiting()
{
    sym_want("skipped"); sym_want("ran"); sym_want("not again");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Board b; b.n = 1; b.start = rt_clock_ns();
        const int kind = (int)sym_concrete(sym_u64("kind", 0, 4)), mode = (int)sym_concrete(sym_u64("mode", 1, 3));
        b.t[0].delay = any_ns("delay"); b.t[0].mode = mode; b.t[0].runs = 2; b.t[0].again = any_ns("again");
        const int64_t when = any_ns("when");
        const int64_t tp0 = b.t[0].delay, tp1 = mode == 3 ? b.t[0].again : tp0 + b.t[0].again;
        std::thread t{[&] { std::this_thread::sleep_for(ns{when}); b.dead[0].store(true); }};
        switch (kind)
        {
            case 0: submit(sch::immediate::create_worker(), b, 0); break;
            case 1: submit(sch::current_thread::create_worker(), b, 0); break;
            case 2: sch::current_thread::create_worker().schedule([&](const Any&) -> sch::optional_delay_from_now { submit(sch::current_thread::create_worker(), b, 0); return std::nullopt; }, Any{}); break;
            case 3: { sch::run_loop loop{}; submit(loop.create_worker(), b, 0); while (!loop.is_empty()) loop.dispatch(); break; }
            case 4: { submit(sch::new_thread::create_worker(), b, 0); break; }
        }
        t.join();
        sym_join_all();
        const int64_t second = tp1 > tp0 ? tp1 : tp0;
        if (when < tp0) { sym_check(b.m == 0, "a disposed task ran"); sym_cover("skipped"); }
        if (when > tp0) { sym_check(b.m >= 1, "a task was lost"); sym_cover("ran"); }
        if (when < second) sym_check(b.m <= 1, "a disposed task ran again");
        if (when > tp0 && when < second) sym_cover("not again");
        if (when > second) sym_check(b.m == 2, "a task was lost");
    }
    sym_check(sym_heap_live() == live, "leak");
}
