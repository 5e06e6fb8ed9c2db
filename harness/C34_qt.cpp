//@ bound: Qt: up to 2 tasks with arbitrary delays in [-500 ns, 3 ms] (one task: around 2 s, where default timers become coarse) given as a duration, a time point or none, the first re-scheduling itself up to 2 (thorough: 3) times in every mode, throwing or disposed; scheduling from another thread; no application; application destroyed with pending tasks; signals with 0 to 2 arguments, up to 3 emissions with arbitrary values, observers joining and leaving, object destroyed at any point
//@ assume: Qt itself is a model of its documented contract (harness/stubs/qt): precise timers never fire early, coarse ones up to 5% early, a functor goes away with its context object, a destroyed object emits destroyed()
//@ include: $V/harness/stubs/qt $REPO/src/extensions/rppqt
//@ preempt: 2
#include "C34_ledger.hpp"
#include <rppqt/rppqt.hpp>
using namespace h;
using Main = rppqt::schedulers::main_thread_scheduler;
struct Fat { int pad = 0; static auto create_worker() { return Main::create_worker(); } }; // not empty: clang 18 miscompiles interval with an empty scheduler
static void loop(Ledger& b) { b.in_loop = true; QCoreApplication::run(); b.in_loop = false; }
static void any_qt(Ledger& b, int n)
{
    b.lo = -500; b.hi = 3'000'000; b.tolerance = 999'999;
    any_tasks(b, n, true);
    if (!THOROUGH && b.t[0].runs > 2) sym_assume(false);
}
extern "C" void H_main_thread_tasks()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        QCoreApplication app; Ledger b;
        any_qt(b, 2);
        {
            auto w = Main::create_worker();
            put(w, b, 0, (int)sym_concrete(sym_u64("how", 0, 2)));
            put(w, b, 1, 1);
        }
        loop(b);
        counts(b, false);
        sym_log(b.m);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// beyond the point where Qt's default timers become coarse
extern "C" void H_main_thread_long()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        QCoreApplication app; Ledger b;
        b.tolerance = 999'999;
        b.lo = 1'999'000'000; b.hi = 2'000'500'000;
        any_tasks(b, 1, false);
        put(Main::create_worker(), b, 0, (int)sym_concrete(sym_u64("how", 1, 2)));
        loop(b);
        counts(b, false);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_main_thread_extras()
{
    sym_want("error"); sym_want("disposed"); sym_want("spawned");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        QCoreApplication app; Ledger b;
        any_qt(b, 2);
        const int x = (int)sym_concrete(sym_u64("extra", 0, 3));
        int n = b.n;
        if (x == 0) b.t[0].throws = (int)sym_concrete(sym_u64("throws", 0, 1));
        else if (x == 1) b.t[0].disposes = (int)sym_concrete(sym_u64("victim", 0, 1));
        else if (x == 2) { b.t[0].spawns = 1; n = 1; }
        {
            auto w = Main::create_worker();
            for (int i = 0; i < n; ++i) put(w, b, i, 1);
            if (x == 3) b.dead[1].store(true);
        }
        loop(b);
        counts(b, true);
        if (x == 3) sym_check(b.done[1] == 0, "a task disposed before its time must not run");
        if (b.errors[0]) sym_cover("error");
        if (x == 1) sym_cover("disposed");
        if (x == 2) sym_cover("spawned");
        sym_log(b.m);
    }
    sym_check(sym_heap_live() == live, "leak");
}
// scheduling from another thread: everything runs in the thread of the loop
extern "C" void H_main_thread_from_thread()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        QCoreApplication app; Ledger b;
        b.n = 2; b.start = rt_clock_ns(); b.check_exact = false; b.in_loop = true;
        b.t[0].delay = 0; b.t[1].delay = sym_bool("timer") ? 1'500'000 : 0;
        const int me = sym_tid();
        auto w = Main::create_worker();
        w.schedule([&, me](const Handler&) -> sch::optional_delay_from_now { sym_check(sym_tid() == me, "a task must run in the main thread"); b.run(0); return std::nullopt; }, Handler{&b, 0});
        std::thread t{[&] { put(Main::create_worker(), b, 1, 1); }};
        QCoreApplication::run();
        t.join();
        QCoreApplication::run();
        counts(b, false);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_main_thread_no_application()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        struct H { int* n; bool is_disposed() const { return false; } void on_error(const std::exception_ptr& e) const { try { std::rethrow_exception(e); } catch (const rppqt::utils::no_active_qapplication&) { ++*n; } } };
        int errors = 0;
        const int64_t d = sym_i64("delay", -500, 1000);
        Main::create_worker().schedule(ns{d}, [](const H&) -> sch::optional_delay_from_now { sym_fail("a task cannot run without an application"); }, H{&errors});
        sym_check(errors == 1, "without an application the handler must receive one error");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_main_thread_application_destroyed()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Ledger b;
        auto app = std::make_unique<QCoreApplication>();
        any_qt(b, 2);
        const auto w = Main::create_worker();
        for (int i = 0; i < 2; ++i) put(w, b, i, 1);
        b.in_loop = true;
        const int steps = (int)sym_concrete(sym_u64("steps", 0, 2));
        if (steps) QCoreApplication::run(steps);
        b.in_loop = false;
        app.reset();
        sym_check(QCoreApplication::pending() == 0, "a task outlives its application");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: pending tasks must be dropped with the application");
}
extern "C" void H_main_thread_streams()
{
    sym_want("end");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        QCoreApplication app; Rec r; Exp e;
        const Main s{};
        const int a = any_int("a"), c = any_int("b");
        const int64_t d = sym_i64("delay", 0, 3'000'000), start = rt_clock_ns();
        switch (sym_concrete(sym_u64("stream", 0, 3)))
        {
        case 0:
            rpp::source::just(s, a, c).subscribe(sink<int>(r));
            sym_check(r.n == 0, "nothing may be emitted before the loop runs");
            QCoreApplication::run();
            e.next(a); e.next(c); e.done();
            break;
        case 1:
            (rpp::source::interval(ns{d}, Fat{}) | rpp::ops::take(2)).subscribe(sink<size_t>(r));
            QCoreApplication::run();
            e.next(0); e.next(1); e.done();
            sym_check(rt_clock_ns() - start >= 2 * d, "interval must not tick early");
            break;
        case 2:
            (rpp::source::just(sch::immediate{}, a, c) | rpp::ops::delay(ns{d}, s)).subscribe(sink<int>(r));
            QCoreApplication::run();
            e.next(a); e.next(c); e.done();
            sym_check(rt_clock_ns() - start >= d, "delay must not deliver early");
            break;
        default:
            (rpp::source::just(sch::immediate{}, a, c) | rpp::ops::subscribe_on(s) | rpp::ops::observe_on(s)).subscribe(sink<int>(r));
            QCoreApplication::run();
            e.next(a); e.next(c); e.done();
            break;
        }
        e.check(r, "a stream over the main thread must deliver every value in order and then its terminal event");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// signals
struct Obj : QObject
{
    void one(int v) { activate(&Obj::one, v); }
    void other(int v) { activate(&Obj::other, v); }
    void two(int v, const long& w) { activate(&Obj::two, v, w); }
    void none() { activate(&Obj::none); }
};
struct Obj2 : Obj {};
template<class T, class Sub, class Fire>
static void signal_case(Sub source, Fire fire)
{
    sym_want("end"); sym_want("destroyed");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Rec r, late; Exp e, el;
        auto o = std::make_unique<Obj2>();
        bool left = false, gone = false;
        {
            auto src = source(*o);
            fire(*o, 1, nullptr);                // nobody listens yet
            auto d = rpp::composite_disposable_wrapper::make();
            src.subscribe(rpp::make_lambda_observer<T>(d, [&r](const T& v) { if constexpr (std::is_same_v<T, std::tuple<int, long>>) r.on_next((int64_t)std::get<0>(v) * 4 + std::get<1>(v)); else if constexpr (std::is_same_v<T, int>) r.on_next(v); else r.on_next(0); },
                                                       [&r](const std::exception_ptr& x) { r.on_error(x); }, [&r] { r.on_completed(); }));
            for (int i = 0; i < 3; ++i)
            {
                switch (sym_concrete(sym_u64("act", 0, 3)))
                {
                case 0: if (!gone) { int64_t v = 0; fire(*o, any_int("v"), &v); if (!left) e.next(v); } break;
                case 1: if (!gone) o->other(7); break;
                case 2: d.dispose(); left = true; break;
                case 3: if (!gone) { o.reset(); if (!left) e.done(); gone = true; sym_cover("destroyed"); } break;
                }
                if (e.n && e.kind[e.n - 1] == DONE) left = true;
            }
            src.subscribe(rpp::make_lambda_observer<T>([&late](const T&) { late.on_next(1); }, [&late](const std::exception_ptr& x) { late.on_error(x); }, [&late] { late.on_completed(); }));
            if (gone) el.done();
            src.subscribe(rpp::make_lambda_observer<T>(rpp::composite_disposable_wrapper::empty(), [](const T&) { sym_fail("a disposed observer must receive nothing"); }, [](const std::exception_ptr&) {}, [] {}));
        }
        if (gone) el.check(late, "an observer that subscribes after the object is gone must be completed");
        else
        {
            int64_t last = 0; fire(*o, 5, &last);
            sym_check(late.n == 1, "an observer that joins later must see the signals from then on");
            if (!left) e.next(last);
            o.reset();
            if (!left) e.done();
            sym_check(late.completed() && late.n == 2, "the destruction of the object must complete every observer");
        }
        e.check(r, "every signal must be forwarded with its arguments, in order, until the observer leaves or the object is gone");
        sym_log(r.n);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: the connections keep something alive after the object is gone");
}
extern "C" void H_signal_one() { signal_case<int>([](const Obj2& o) { return rppqt::source::from_signal(o, &Obj::one); }, [](Obj& o, int v, int64_t* out) { if (out) *out = v; o.one(v); }); }
extern "C" void H_signal_two() { signal_case<std::tuple<int, long>>([](const Obj2& o) { return rppqt::source::from_signal(o, &Obj::two); }, [](Obj& o, int v, int64_t* out) { const long w = v & 3; if (out) *out = (int64_t)v * 4 + w; o.two(v, w); }); }
extern "C" void H_signal_none() { signal_case<rpp::utils::none>([](const Obj2& o) { return rppqt::source::from_signal(o, &Obj::none); }, [](Obj& o, int, int64_t* out) { if (out) *out = 0; o.none(); }); }
