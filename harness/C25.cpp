//@ bound: up to 3 tasks with arbitrary delays in [0,1000] ns, one of them re-scheduling itself up to 2 (thorough: 3) times in every mode, slow, throwing, disposing or spawning; submission before and while the worker sleeps; two threads scheduling/disposing/creating workers concurrently, a disposed task whose release needs a lock held while scheduling, every schedule with at most 2 (thorough: 3) preemptions; new_thread, thread_pool of 1-2 threads and the computational pool (2 threads)
//@ assume: time is virtual: it passes only while every thread sleeps or a task is declared slow
//@ preempt: 2
//@ preempt_thorough: 3
#include "sched.hpp"
#include <rpp/schedulers/thread_pool.hpp>
#include <rpp/schedulers/computational.hpp>
using namespace h;
// holds the worker thread in a first task until everything else has been scheduled, so that the order is determined
struct Gate
{
    std::mutex m; std::condition_variable cv; bool open = false;
    void wait() { std::unique_lock l{m}; cv.wait(l, [&] { return open; }); }
    void release() { { std::lock_guard l{m}; open = true; } cv.notify_all(); }
};
struct Any { bool is_disposed() const { return false; } void on_error(const std::exception_ptr&) const { sym_fail("unexpected error"); } };
template<class W> static void hold(const W& w, Gate& g) { w.schedule([&g](const Any&) -> sch::optional_delay_from_now { g.wait(); return std::nullopt; }, Any{}); }
static void expect_all(Model& m) { for (int i = 0; i < m.b.n; ++i) m.push(i, m.b.t[i].delay); while (!m.empty()) m.step(); }
template<class Mk>
static void ordered(Mk mk, bool extras)
{
    sym_want("all");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Board b; Gate g;
        const int n = (int)sym_concrete(sym_u64("n", 1, extras ? 2 : 3));
        any_board(b, n, extras, extras);
        {
            auto w = mk();
            hold(w, g);
            for (int i = 0; i < n; ++i) submit(w, b, i);
            g.release();
        }
        sym_join_all();
        Model m{b};
        expect_all(m);
        m.check("tasks must run by time point, equal ones in the order of scheduling");
        sym_cover("all");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_new_thread_absolute()
{
    sym_want("all");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Board b; Gate g;
        const int n = (int)sym_concrete(sym_u64("n", 1, 2));
        any_absolute_board(b, n);
        {
            const auto w = sch::new_thread::create_worker();
            hold(w, g);
            std::this_thread::sleep_for(ns{1});
            for (int i = 0; i < n; ++i) submit(w, b, i);
            g.release();
        }
        sym_join_all();
        Model m{b}; m.now = 1;
        expect_all(m);
        m.check("tasks must run by time point, whatever it is relative to");
        sym_cover("all");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_new_thread_order() { ordered([] { return sch::new_thread::create_worker(); }, false); }
extern "C" void H_new_thread_repeat() { ordered([] { return sch::new_thread::create_worker(); }, true); }
extern "C" void H_thread_pool_order() { ordered([] { sch::thread_pool p{(size_t)sym_concrete(sym_u64("threads", 0, 2))}; return p.create_worker(); }, false); }
// tasks scheduled while the worker sleeps for a later one
extern "C" void H_earlier_task()
{
    sym_want("overtakes");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Board b; b.n = 2; b.start = rt_clock_ns();
        b.t[0].delay = any_ns("delay"); b.t[1].delay = any_ns("delay2");
        const int64_t pause = any_ns("pause");
        {
            const auto w = sch::new_thread::create_worker();
            submit(w, b, 0);
            std::this_thread::sleep_for(ns{pause});
            submit(w, b, 1);
        }
        sym_join_all();
        sym_check(b.m == 2, "a task was lost or ran too often");
        const int64_t tp0 = b.t[0].delay, tp1 = pause + b.t[1].delay;
        for (int k = 0; k < 2; ++k) sym_check(b.at[k] >= (b.id[k] ? tp1 : tp0), "a task ran early");
        for (int k = 0; k < 2; ++k) sym_check(b.at[k] == (b.id[k] ? tp1 : tp0), "a task must run at its time point, also when the worker was sleeping for a later one");
        if (tp1 < tp0) { sym_check(b.id[0] == 1, "earlier time points first"); sym_cover("overtakes"); }
        if (tp0 < tp1) sym_check(b.id[0] == 0, "earlier time points first");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// a task which re-schedules itself for "now" must let tasks in that it (or somebody else) has scheduled meanwhile
extern "C" void H_fairness()
{
    sym_want("ran");
    sym_preempt(0);
    const int how = (int)sym_concrete(sym_u64("how", 0, 2)), when = (int)sym_concrete(sym_u64("when", 0, 2));
    int rounds = 0; bool other = false;
    {
        const auto w = sch::new_thread::create_worker();
        w.schedule([&, w](const Any&) -> sch::optional_delay_from_now {
            sym_check(rounds < 8, "a task scheduled meanwhile never gets its turn");
            auto sub = [&](const auto& x) { x.schedule([&other](const Any&) -> sch::optional_delay_from_now { other = true; return std::nullopt; }, Any{}); };
            if (rounds++ == when) { if (how == 0) sub(sch::current_thread::create_worker()); else if (how == 1) sub(w); else rpp::source::just(1).subscribe([&](int) { other = true; }); }
            if (other) return std::nullopt;
            return sch::delay_from_now{};
        }, Any{});
    }
    sym_join_all();
    sym_check(other, "lost");
    sym_cover("ran");
}
// ... also when it is scheduled by another thread while the worker takes its next task
extern "C" void H_fairness_other_thread()
{
    sym_want("ran");
    const uint64_t live = sym_heap_live();
    {
        bool other = false; int after = 0;
        std::mutex m; std::condition_variable cv; bool submitted = false;
        std::thread t;
        {
            const auto w = sch::new_thread::create_worker();
            t = std::thread([&, w] {
                w.schedule([&other](const Any&) -> sch::optional_delay_from_now { other = true; return std::nullopt; }, Any{});
                { std::lock_guard l{m}; submitted = true; }
                cv.notify_all();
            });
            w.schedule([&](const Any&) -> sch::optional_delay_from_now {
                { std::unique_lock l{m}; cv.wait(l, [&] { return submitted; }); }
                if (other) return std::nullopt;
                sym_check(++after < 4, "a task scheduled meanwhile never gets its turn");
                return sch::delay_from_now{};
            }, Any{});
        }
        t.join();
        sym_join_all();
        sym_check(other, "lost");
        sym_cover("ran");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// condition waits which wake up for no reason
extern "C" void H_spurious_wakeup()
{
    sym_want("ran"); sym_want("skipped");
    const uint64_t live = sym_heap_live();
    {
        Board b; b.n = 2; b.start = rt_clock_ns();
        const int later = (int)sym_concrete(sym_u64("later", 0, 1)), disp = (int)sym_concrete(sym_u64("dispose", 0, 1));
        b.t[0].delay = 20 * later; b.t[1].delay = 10;
        std::thread t{[&] { sym_spurious(); std::this_thread::sleep_for(ns{5}); if (disp) b.dead[1].store(true); sym_spurious(); }};
        {
            const auto w = sch::new_thread::create_worker();
            submit(w, b, 0);
            submit(w, b, 1);
        }
        t.join();
        sym_join_all();
        sym_check(b.done[0] == 1 && b.done[1] == !disp, "a task was lost or ran too often");
        for (int k = 0; k < b.m; ++k) sym_check(b.at[k] == b.t[b.id[k]].delay, "a task must run at its time point");
        sym_cover(disp ? "skipped" : "ran");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// scheduling from two threads, disposal from a third party, the worker dropped while it is busy
extern "C" void H_two_submitters()
{
    sym_want("ran"); sym_want("skipped");
    const uint64_t live = sym_heap_live();
    {
        Board b; b.n = 3; b.start = rt_clock_ns();
        std::atomic<int> inside{0}; int tid = -1, runs[3]{};
        auto task = [&](int i) { return [&, i](const Handler& h) -> sch::optional_delay_from_now {
            (void)h;
            sym_check(inside++ == 0, "two tasks of one worker overlap");
            if (tid < 0) tid = sym_tid();
            sym_check(tid == sym_tid(), "the tasks of one worker must run on one thread");
            ++runs[i];
            --inside;
            return std::nullopt;
        }; };
        const int disp = (int)sym_concrete(sym_u64("disposed", 0, 3));     // task disposed by the main thread, if any
        std::thread t;
        {
            const auto w = sch::new_thread::create_worker();
            t = std::thread([&b, w, &task] { w.schedule(task(0), Handler{&b, 0}); });
            w.schedule(ns{sym_bool("later") ? 10 : 0}, task(1), Handler{&b, 1});
            if (disp == 1) b.dead[1].store(true);
            if (disp == 2) b.dead[2].store(true);
            w.schedule(task(2), Handler{&b, 2});
            if (disp == 0) b.dead[0].store(true);
        }
        t.join();
        sym_join_all();
        for (int i = 0; i < 3; ++i) { sym_check(runs[i] <= 1, "a task ran twice"); if (i != disp) sym_check(runs[i] == 1, "a task was lost"); }
        if (disp == 2) sym_check(runs[2] == 0, "a disposed task ran");
        sym_check(tid != sym_tid(), "tasks must run on the background thread");
        if (runs[1]) sym_cover("ran"); else sym_cover("skipped");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_drop_worker()
{
    const uint64_t live = sym_heap_live();
    {
        const int n = (int)sym_concrete(sym_u64("n", 0, 2)), where = (int)sym_concrete(sym_u64("where", 0, 1));
        std::atomic<int> ran{0};
        {
            auto w = sch::new_thread::create_worker();
            for (int i = 0; i < n; ++i)
            {
                if (where) w.schedule([&ran, w](const Any&) -> sch::optional_delay_from_now { ++ran; return std::nullopt; }, Any{});
                else w.schedule([&ran](const Any&) -> sch::optional_delay_from_now { ++ran; return std::nullopt; }, Any{});
            }
        }
        sym_join_all();
        sym_check(ran == n, "tasks scheduled before the worker was dropped must still run");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_thread_pool()
{
    sym_want("two threads");
    const uint64_t live = sym_heap_live();
    {
        int tid[2][2]{{-1, -1}, {-1, -1}};
        std::thread t;
        {
            sch::thread_pool p{2};
            auto use = [&tid](const sch::thread_pool& p, int i) {
                const auto w = p.create_worker();
                for (int k = 0; k < 2; ++k) w.schedule([&tid, i, k](const Any&) -> sch::optional_delay_from_now { tid[i][k] = sym_tid(); return std::nullopt; }, Any{});
            };
            t = std::thread([&use, p] { use(p, 0); });
            use(p, 1);
        }
        t.join();
        sym_join_all();
        for (auto& x : tid) sym_check(x[0] >= 0 && x[0] == x[1] && x[0] != sym_tid(), "the tasks of one worker must run on one background thread");
        sym_check(tid[0][0] != tid[1][0], "two workers of a pool of two must use both threads");
        sym_cover("two threads");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// clock readings that advance while the code runs
extern "C" void H_never_early()
{
    sym_preempt(0);
    Board b; b.n = 2; b.start = rt_clock_ns();
    for (int i = 0; i < 2; ++i) b.t[i].delay = any_ns("delay", 100);
    const int k = (int)sym_concrete(sym_u64("scheduler", 0, 1));
    int64_t before[2];
    rt_clock_jitter(50, THOROUGH ? 6 : 4);
    if (k == 0)
    {
        const auto w = sch::new_thread::create_worker();
        for (int i = 0; i < 2; ++i) { before[i] = b.off(); submit(w, b, i); }
    }
    else
    {
        sch::run_loop l{}; const auto w = l.create_worker();
        for (int i = 0; i < 2; ++i) { before[i] = b.off(); submit(w, b, i); }
        while (!l.is_empty()) l.dispatch();
    }
    sym_join_all();
    sym_check(b.m == 2, "lost");
    for (int j = 0; j < 2; ++j) sym_check(b.at[j] >= before[b.id[j]] + b.t[b.id[j]].delay, "a task ran early");
}

// a disposed task owns something whose release needs a lock, and another thread schedules while holding that lock
extern "C" void H_release_under_user_lock()
{
    sym_want("released");
    const uint64_t live = sym_heap_live();
    {
        Board b; b.n = 3; b.start = rt_clock_ns();
        std::mutex user;
        int        released = 0, runs = 0;
        struct Owned
        {
            std::mutex& m; int& n;
            Owned(std::mutex& mm, int& nn) : m{mm}, n{nn} {}
            Owned(const Owned&) = delete;
            ~Owned() { std::lock_guard l{m}; ++n; }
        };
        {
            const auto w = sch::new_thread::create_worker();
            w.schedule(ns{sym_bool("later") ? 10 : 0}, [o = std::make_shared<Owned>(user, released)](const Handler&) -> sch::optional_delay_from_now { return std::nullopt; }, Handler{&b, 1});
            b.dead[1].store(true);
            std::lock_guard l{user};
            w.schedule([&runs](const Handler&) -> sch::optional_delay_from_now { ++runs; return std::nullopt; }, Handler{&b, 0});
        }
        sym_join_all();
        sym_check(runs == 1, "a task was lost");
        sym_check(released == 1, "a task must be released exactly once");
        sym_cover("released");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// the process wide pool
extern "C" void H_computational()
{
    sym_want("ran");
    struct Done { std::mutex m; std::condition_variable cv; int n = 0; void hit() { std::lock_guard l{m}; ++n; cv.notify_all(); } void wait(int k) { std::unique_lock l{m}; cv.wait(l, [&] { return n == k; }); } } done;
    int tid[2][2]{{-1, -1}, {-1, -1}}, order[2]{}, runs[2][2]{};
    const auto w0 = sch::computational::create_worker(), w1 = sch::computational::create_worker();
    auto use = [&](int i) {
        const auto& w = i ? w1 : w0;
        for (int k = 0; k < 2; ++k) w.schedule([&, i, k](const Any&) -> sch::optional_delay_from_now { sym_check(order[i]++ == k, "tasks of one worker must run in the order of scheduling"); tid[i][k] = sym_tid(); ++runs[i][k]; done.hit(); return std::nullopt; }, Any{});
    };
    std::thread t{[&] { use(0); }};
    use(1);
    t.join();
    done.wait(4);
    for (int i = 0; i < 2; ++i)
    {
        sym_check(runs[i][0] == 1 && runs[i][1] == 1, "a task was lost or ran twice");
        sym_check(tid[i][0] == tid[i][1] && tid[i][0] != sym_tid(), "the tasks of one worker must run on one background thread");
    }
    sym_cover("ran");
}
