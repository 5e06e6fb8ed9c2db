//@ bound: Asio strand: up to 2 (thorough: 3) tasks with arbitrary delays in [-500,1000] ns given as a duration, a time point or none, the first re-scheduling itself up to 2 (thorough: 3) times in every mode, slow, throwing or disposed; context run by 1 or 2 threads (every schedule with at most 2 preemptions); nested tasks on current_thread; interval, just, delay and observe_on streams over a strand; context destroyed with pending tasks
//@ assume: Asio itself is a model of its documented contract (harness/stubs/asio): handlers run only inside run(), handlers of one strand one at a time, timers never early, ties in any order, a destroyed timer cancels its wait
//@ include: $V/harness/stubs $REPO/src/extensions/rppasio
//@ preempt: 2
#include "C34_ledger.hpp"
#include <asio/io_context.hpp>
#include <rppasio/schedulers/strand.hpp>
using namespace h;
using Strand = rppasio::schedulers::strand;
static void loop(asio::io_context& c, Ledger& b) { b.in_loop = true; c.run(); b.in_loop = false; }
extern "C" void H_strand_tasks()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        asio::io_context ctx; Ledger b;
        any_tasks(b, THOROUGH ? 3 : 2, true);
        if (sym_bool("slow")) b.t[b.n - 1].slow = sym_i64("slowness", 1, 1000);
        b.check_exact = !b.t[b.n - 1].slow;
        {
            auto w = Strand{ctx.get_executor()}.create_worker();
            for (int i = 0; i < b.n; ++i) put(w, b, i, (int)sym_concrete(sym_u64("how", 0, 2)));
        }
        loop(ctx, b);
        counts(b, false);
        sym_log(b.m);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_strand_extras()
{
    sym_want("error"); sym_want("disposed"); sym_want("spawned");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        asio::io_context ctx; Ledger b;
        any_tasks(b, 2, true);
        const int x = (int)sym_concrete(sym_u64("extra", 0, 3));
        int n = b.n;
        if (x == 0) b.t[0].throws = (int)sym_concrete(sym_u64("throws", 0, 1));
        else if (x == 1) b.t[0].disposes = (int)sym_concrete(sym_u64("victim", 0, 1));
        else if (x == 2) { b.t[0].spawns = 1; n = 1; }
        {
            auto w = Strand{ctx.get_executor()}.create_worker();
            for (int i = 0; i < n; ++i) put(w, b, i, (int)sym_concrete(sym_u64("how", 0, 2)));
            if (x == 3) b.dead[1].store(true);
        }
        loop(ctx, b);
        counts(b, true);
        if (x == 3) sym_check(b.done[1] == 0, "a task disposed before its time must not run");
        if (b.errors[0]) sym_cover("error");
        if (x == 1) sym_cover("disposed");
        if (x == 2) sym_cover("spawned");
        sym_log(b.m);
    }
    sym_check(sym_heap_live() == live, "leak");
}
// the context is run by two threads: tasks of one worker still run one at a time
extern "C" void H_strand_two_threads()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        asio::io_context ctx; Ledger b;
        b.n = 2; b.start = rt_clock_ns(); b.check_exact = false;
        b.t[0].delay = sym_bool("timer") ? 10 : 0;
        b.t[1].delay = b.t[0].delay;
        b.t[0].mode = 1; b.t[0].runs = 2; b.t[0].again = sym_bool("again0") ? 0 : 5;
        {
            auto w = Strand{ctx.get_executor()}.create_worker();
            put(w, b, 0, 1); put(w, b, 1, 1);
        }
        b.in_loop = true;
        std::thread t{[&] { ctx.run(); }};
        ctx.run();
        t.join();
        counts(b, false);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// schedule while another thread runs the context
extern "C" void H_strand_schedule_from_thread()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        asio::io_context ctx; Ledger b;
        b.n = 2; b.start = rt_clock_ns(); b.check_exact = false;
        b.t[0].delay = 0; b.t[1].delay = sym_bool("timer") ? 10 : 0;
        auto w = Strand{ctx.get_executor()}.create_worker();
        put(w, b, 0, 1);
        b.in_loop = true;
        std::thread t{[&] { ctx.run(); }};
        put(w, b, 1, 1);
        t.join();
        ctx.run();
        counts(b, false);
        sym_cover("end");
    }
}
// tasks given to the current_thread scheduler inside a task continue on the strand, after that task
extern "C" void H_strand_current_thread()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        asio::io_context ctx; Ledger b;
        b.n = 3; b.start = rt_clock_ns();
        b.check_exact = false;
        for (int i = 0; i < 3; ++i) b.t[i].delay = sym_i64("delay", 0, 1000);
        b.t[1].mode = (int)sym_concrete(sym_u64("mode", 1, 3)); b.t[1].runs = 3; b.t[1].again = sym_i64("again", 0, 1000);
        const bool dead = sym_bool("dispose");
        {
            auto w = Strand{ctx.get_executor()}.create_worker();
            w.schedule(ns{b.t[0].delay}, [&b, dead](const Handler&) -> sch::optional_delay_from_now {
                b.begin(0);
                const auto c = sch::current_thread::create_worker();
                put(c, b, 1, 1);
                put(c, b, 2, 1);
                if (dead) b.dead[2].store(true);
                b.run(0);
                b.end();
                return std::nullopt;
            }, Handler{&b, 0});
        }
        loop(ctx, b);
        sym_check(sch::current_thread::get_queue() == nullptr, "the queue of the thread must be handed back");
        if (dead) { sym_check(b.done[2] == 0, "a disposed task must not run"); b.t[2].runs = 0; }
        counts(b, false);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// the context goes away with tasks still pending
extern "C" void H_strand_destroyed()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Ledger b;
        auto ctx = std::make_unique<asio::io_context>();
        any_tasks(b, 2, true);
        std::optional<decltype(Strand{ctx->get_executor()}.create_worker())> w{Strand{ctx->get_executor()}.create_worker()};
        for (int i = 0; i < 2; ++i) put(*w, b, i, (int)sym_concrete(sym_u64("how", 0, 2)));
        b.in_loop = true;
        const int steps = (int)sym_concrete(sym_u64("steps", 0, 2));
        for (int i = 0; i < steps; ++i) ctx->run_one();
        b.in_loop = false;
        if (sym_bool("worker_first")) w.reset();
        ctx.reset();
        w.reset();
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: pending tasks must be dropped with the context");
}
// streams over a strand
extern "C" void H_strand_streams()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        asio::io_context ctx; Rec r; Exp e;
        const Strand s{ctx.get_executor()};
        const int a = any_int("a"), c = any_int("b");
        const int64_t d = sym_i64("delay", 0, 1000), start = rt_clock_ns();
        switch (sym_concrete(sym_u64("stream", 0, 3)))
        {
        case 0:
            rpp::source::just(s, a, c).subscribe(sink<int>(r));
            sym_check(r.n == 0, "nothing may be emitted before the context runs");
            ctx.run();
            e.next(a); e.next(c); e.done();
            break;
        case 1:
            (rpp::source::interval(ns{d}, s) | rpp::ops::take(2)).subscribe(sink<size_t>(r));
            ctx.run();
            e.next(0); e.next(1); e.done();
            sym_check(rt_clock_ns() - start >= 2 * d, "interval must not tick early");
            break;
        case 2:
            (rpp::source::just(sch::immediate{}, a, c) | rpp::ops::delay(ns{d}, s)).subscribe(sink<int>(r));
            ctx.run();
            e.next(a); e.next(c); e.done();
            sym_check(rt_clock_ns() - start >= d, "delay must not deliver early");
            break;
        default:
            (rpp::source::just(sch::immediate{}, a, c) | rpp::ops::subscribe_on(s) | rpp::ops::observe_on(s)).subscribe(sink<int>(r));
            ctx.run();
            e.next(a); e.next(c); e.done();
            break;
        }
        e.check(r, "a stream over a strand must deliver every value in order and then its terminal event");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// an exception of a task must not escape from the context
extern "C" void H_strand_throwing_iterator()
{
    sym_want("end");
    sym_preempt(0);
    {
        asio::io_context ctx; Rec r;
        const Strand s{ctx.get_executor()};
        const int64_t d = sym_i64("delay", 0, 100);
        s.create_worker().schedule(ns{d}, [](const auto&) -> sch::optional_delay_to { throw Err{5}; }, sink<int>(r).as_dynamic());
        try { ctx.run(); } catch (...) { sym_fail("an exception of a task escaped from the context"); }
        Exp e; e.error(5);
        e.check(r, "an exception of a task must reach the observer");
        sym_cover("end");
    }
}
