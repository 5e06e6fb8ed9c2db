//@ preempt: 0
#include "C35_two.hpp"
using namespace h;
using TS = rpp::schedulers::test_scheduler; using ns = std::chrono::nanoseconds;
static constexpr auto imm = rpp::schedulers::immediate{};
// two subscriptions of a timed pipeline on one scheduler at different moments against each of them alone
struct Step { int who, kind, val; int64_t dt; };
template<class P> static void play(Rec* r, int mask, int64_t at2, const Step* e, int n, P pipeline)
{
    Slots s; TS ts{};
    auto da = rpp::composite_disposable_wrapper::make(), db = rpp::composite_disposable_wrapper::make();
    const auto t0 = ts.now();
    auto o = pipeline(s.obs(), ts);
    if (mask & 1) { s.cur = 0; o.subscribe(da, sink(r[0])); }
    ts.time_advance(ns{at2});
    if (mask & 2) { s.cur = 1; o.subscribe(db, sink(r[1])); }
    (void)t0;
    for (int i = 0; i < n; ++i)
    {
        ts.time_advance(ns{e[i].dt});
        if (mask & (1 << e[i].who)) s.ev({e[i].who, e[i].kind, e[i].val});
    }
    ts.time_advance(ns{1000}); ts.time_advance(ns{1000}); ts.time_advance(ns{1000});
    da.dispose(); db.dispose();
}
template<class P> static void timed(P pipeline)
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Step e[4]; const int n = (int)sym_concrete(sym_u64("n", 0, THOROUGH ? 3 : 2));
        for (int i = 0; i < n; ++i) { e[i].who = (int)sym_concrete(sym_u64("who", 0, 1)); e[i].kind = (int)sym_concrete(sym_u64("kind", 0, 2)); e[i].val = any_int("v"); e[i].dt = sym_i64("dt", 0, 30); }
        const int64_t at2 = sym_i64("second", 0, 30);
        Rec both[2], a[2], b[2];
        play(both, 3, at2, e, n, pipeline); play(a, 1, at2, e, n, pipeline); play(b, 2, at2, e, n, pipeline);
        equal(both[0], a[0], "the first subscription is influenced by the second one");
        equal(both[1], b[1], "the second subscription is influenced by the first one");
        if (both[0].n && both[1].n) sym_cover("both");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define T(name, expr) extern "C" void H_timed_##name() { sym_want("both"); timed([](const auto& o, const TS& ts) { (void)ts; return expr; }); }
T(delay, o | op::delay(ns{10}, ts))
T(debounce, o | op::debounce(ns{10}, ts))
T(timeout, o | op::timeout(ns{10}, src::just(imm, val_t{-1}), ts))
T(throttle, o | op::throttle<TS>(ns{10}))
T(observe_on, o | op::observe_on(ts))
T(merge_interval, o | op::merge_with(src::interval(ns{10}, ts) | op::map([](size_t v) { return val_t{(int)v}; }) | op::take(2)))
T(until_timer, o | op::take_until(src::timer(ns{10}, ts)))
// sources: every subscription starts anew
template<class O> static void source(const O& o, int expected)
{
    Rec a, b, c, d;
    o.subscribe(sink(a));
    int k = 0;
    o.subscribe([&](val_t v) { if (!k++) { o.subscribe(sink(c)); } b.on_next(v); }, [&](const std::exception_ptr& e) { b.on_error(e); }, [&] { b.on_completed(); o.subscribe(sink(d)); });
    sym_check(a.n == expected, "number of events");
    for (auto* r : {&b, &c}) equal(a, *r, "a later or nested subscription differs from the first one");
    if (b.completed()) equal(a, d, "a subscription from on_completed differs from the first one");
}
extern "C" void H_sources()
{
    const uint64_t live = sym_heap_live();
    {
        const val_t x = any_int("x"), y = any_int("y");
        const int which = (int)sym_concrete(sym_u64("which", 0, 13));
        using shared = rpp::memory_model::use_shared;
        const auto ct = rpp::schedulers::current_thread{};
        if (which == 0) source(src::just(imm, x, y), 3);
        else if (which == 1) source(src::just(ct, x, y), 3);
        else if (which == 2) source(src::from_iterable(std::vector<val_t>{x, y, x}, ct), 4);
        else if (which == 3) source(src::concat(src::just(ct, x), src::just(imm, y)), 3);
        else if (which == 4) source(src::from_callable([x] { return x; }), 2);
        else if (which == 5) source(src::just(ct, x, y) | op::window(1) | op::merge(), 3);
        else if (which == 6) source(src::defer([&, n = 0]() { return src::just(imm, x, y); }), 3);
        else if (which == 7) source(src::just(ct, x, y) | op::repeat(2) | op::scan(val_t{0}, [](int a, int b) { return val_t{a ^ b}; }), 6);
        else if (which == 8) source(src::just(imm, x, y) | op::start_with(ct, val_t{1}, val_t{2}) | op::take_last(3), 4);
        else if (which == 9) source(src::from_iterable<shared>(std::vector<val_t>{x, y, x}, ct), 4);
        else if (which == 10) source(src::just<shared>(ct, x, y), 3);
        else if (which == 11) source(src::just(imm, 1) | op::map([&](int) { return x; }) | op::start_with<shared>(ct, y, x), 4);
        else if (which == 12) source(src::concat<shared>(src::just(ct, x).as_dynamic(), src::just<shared>(ct, y, x).as_dynamic()), 4);
        else source(src::create<val_t>([&](const auto& o) { o.on_next(x); o.on_next(y); o.on_completed(); }) | op::buffer(2) | op::map([](const std::vector<val_t>& v) { return val_t{(int)v.size()}; }), 2);
    }
    sym_check(sym_heap_live() == live, "leak");
}
// what user functions answer may differ from call to call: every subscription (and re-subscription) asks again
extern "C" void H_asks_again()
{
    sym_want("nested"); sym_want("again");
    const uint64_t live = sym_heap_live();
    {
        using mm_stack = rpp::memory_model::use_stack; using mm_shared = rpp::memory_model::use_shared;
        const int which = (int)sym_concrete(sym_u64("which", 0, 8)), subs = 2 + (int)sym_concrete(sym_u64("subs", 0, 1)), form = (int)sym_concrete(sym_u64("form", 0, 2));
        int answer[8], asked = 0;
        for (auto& a : answer) a = any_int("answer");
        auto ask = [&] { sym_check(asked < 8, "asked too often"); return val_t{answer[asked++]}; };
        auto check = [&](const auto& o, int per) {
            Rec r[3];
            auto c = o;
            int nested = 0;
            auto one = [&](int k) { (form == 1 ? c : o).subscribe(sink(r[k])); };
            if (form == 2)
            {
                // the second one from inside the first callback of the first one
                o.subscribe([&](val_t v) { r[0].on_next(v); if (!nested) { nested = asked; o.subscribe(sink(r[1])); } }, [&](const std::exception_ptr& e) { r[0].on_error(e); }, [&] { r[0].on_completed(); });
                sym_check(asked == 2 * per && r[0].nexts() == per && r[1].nexts() == per, "the function must be asked once per use");
                for (int i = 0; i < nested; ++i) sym_check(r[0].val[i] == answer[i], "the first subscription got the answer of another one");
                for (int i = 0; i < per; ++i) sym_check(r[1].val[i] == answer[nested + i], "the nested subscription got the answer of another one");
                for (int i = nested; i < per; ++i) sym_check(r[0].val[i] == answer[per + i], "the first subscription got the answer of another one");
                sym_cover("nested");
            }
            else
                for (int k = 0; k < subs; ++k)
                {
                    one(k);
                    sym_check(asked == (k + 1) * per && r[k].nexts() == per && r[k].completed(), "every subscription must ask again");
                    for (int i = 0; i < per; ++i) sym_check(r[k].val[i] == answer[k * per + i], "a subscription got the answer of an earlier one");
                    sym_cover("again");
                }
        };
        if (which == 0) check(src::from_callable(ask), 1);
        else if (which == 1) check(src::from_callable<mm_shared>(ask), 1);
        else if (which == 2) check(src::from_callable<mm_stack>(ask) | op::repeat(2), 2);
        else if (which == 3) check(src::defer([&] { return src::just(imm, ask()); }), 1);
        else if (which == 4) check(src::just(imm, val_t{0}, val_t{0}) | op::map([&](val_t) { return ask(); }), 2);
        else if (which == 5) check(src::create<val_t>([&](const auto& o) { o.on_next(ask()); o.on_completed(); }), 1);
        else if (which == 6) check(src::just(imm, val_t{0}) | op::flat_map([&](val_t) { return src::just(imm, ask()); }), 1);
        else if (which == 7) check(src::error<val_t>(mkerr(1)) | op::on_error_resume_next([&](const std::exception_ptr&) { return src::just(imm, ask()); }), 1);
        else check(src::just(imm, val_t{0}, val_t{0}) | op::scan(val_t{0}, [&](val_t, val_t) { return ask(); }) | op::skip(1), 2);
    }
    sym_check(sym_heap_live() == live, "leak");
}
// one operator object used in two pipelines
template<class Op> static void shared_op(Op opr)
{
    sym_preempt(0);
    Ev e[4]; const int n = (int)sym_concrete(sym_u64("n", 0, 4));
    for (int i = 0; i < n; ++i) { e[i].who = (int)sym_concrete(sym_u64("who", 0, 1)); e[i].kind = (int)sym_concrete(sym_u64("kind", 0, 2)); e[i].val = any_int("v"); }
    auto run = [&](Rec* r, int mask, Op one, Op two) {
        Slots s, t;
        auto a = s.obs() | one; auto b = t.obs() | two;
        auto d = rpp::composite_disposable_wrapper::make(), d2 = rpp::composite_disposable_wrapper::make();
        if (mask & 1) a.subscribe(d, sink(r[0]));
        if (mask & 2) { t.cur = 1; b.subscribe(d2, sink(r[1])); }
        for (int i = 0; i < n; ++i) if (mask & (1 << e[i].who)) (e[i].who ? t : s).ev(e[i]);
        d.dispose(); d2.dispose();
    };
    Rec both[2], a[2], b[2];
    run(both, 3, opr, opr); run(a, 1, opr, opr); run(b, 2, opr, opr);
    equal(both[0], a[0], "two pipelines built with the same operator object influence each other");
    equal(both[1], b[1], "two pipelines built with the same operator object influence each other");
}
extern "C" void H_op_take() { shared_op(op::take(1)); }
extern "C" void H_op_skip() { shared_op(op::skip(1)); }
extern "C" void H_op_scan() { shared_op(op::scan(val_t{1}, [](int a, int b) { return val_t{a ^ b}; })); }
extern "C" void H_op_distinct() { shared_op(op::distinct_until_changed()); }
extern "C" void H_op_repeat() { shared_op(op::repeat(2)); }
extern "C" void H_op_retry() { shared_op(op::retry(1)); }
extern "C" void H_op_element() { shared_op(op::element_at(1)); }
extern "C" void H_op_last() { shared_op(op::take_last(2)); }
extern "C" void H_op_zip() { shared_op(op::zip([](int a, int) { return val_t{a}; }, src::just(imm, 1, 2))); }
extern "C" void H_op_combine() { shared_op(op::combine_latest([](int a, int) { return val_t{a}; }, src::just(imm, 1, 2))); }
extern "C" void H_op_start() { shared_op(op::start_with(imm, val_t{4})); }
extern "C" void H_op_resume() { shared_op(op::on_error_resume_next([](const std::exception_ptr&) { return src::just(imm, val_t{7}); })); }
