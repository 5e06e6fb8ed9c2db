//@ bound: every source with a selectable memory model (just, from_iterable, from_callable, concat of 2-3 observables and of containers, start_with), containers of 0 to 3 (thorough: 5) elements of any value, containers whose iteration throws at any element; on the immediate, current-thread, test and run-loop scheduler; the original, a copy, a moved copy and a copy whose original is gone, subscribed twice and interleaved with each other, disposed after any number of values
//@ preempt: 0
#ifndef H_VALUE
#define H_VALUE V
#endif
#include "common.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
#include <list>
using namespace h;
namespace op = rpp::operators; namespace src = rpp::source; namespace mm = rpp::memory_model; namespace sch = rpp::schedulers;
using TS = sch::test_scheduler; using RL = sch::run_loop;
static const int MAXN = THOROUGH ? 5 : 3;
struct In { int n, v[5]; int stop; int bad; };
struct Res { Rec a, b, c; };
// observer which leaves after `stop` values
template<class O> static void watch(const O& o, Rec& r, int stop)
{
    auto d = rpp::composite_disposable_wrapper::make();
    o.subscribe(d, [&r, d, stop](val_t v) { r.on_next(v); if (r.n == stop) d.dispose(); }, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); });
}
template<class S> struct Run;
template<> struct Run<sch::immediate> { sch::immediate s{}; void pump() {} };
template<> struct Run<sch::current_thread> { sch::current_thread s{}; void pump() {} };
template<> struct Run<TS> { TS s{}; void pump() { for (int i = 0; i < 12; ++i) s.time_advance(std::chrono::seconds{1}); } };
template<> struct Run<RL> { RL s{}; void pump() { while (!s.is_empty()) s.dispatch_if_ready(); } };
// how: 0 the original twice, 1 a copy while the original lives, 2 a copy whose original is gone, 3 moved, 4 type-erased
template<class S, class B> static void history(Res& out, const In& in, int how, B build)
{
    Run<S> run;
    auto play = [&](const auto& o) {
        watch(o, out.a, in.stop);
        run.pump();
        watch(o, out.b, 0);
        watch(o, out.c, in.stop);       // both are waiting in the same scheduler
        run.pump();
    };
    if (how == 0) play(build(run.s, in));
    else if (how == 1) { auto o = build(run.s, in); auto c = o; play(c); Rec again; watch(o, again, 0); run.pump(); sym_check(again.n == out.b.n, "the original after its copy was used"); for (int i = 0; i < again.n; ++i) sym_check(again.val[i] == out.b.val[i] && again.kind[i] == out.b.kind[i], "the original after its copy was used"); }
    else if (how == 2) { auto o = std::make_unique<decltype(build(run.s, in))>(build(run.s, in)); auto c = *o; o.reset(); play(c); }
    else if (how == 3) { auto o = build(run.s, in); auto c = std::move(o); auto e = c; play(std::move(c)); (void)e; }
    else { auto o = build(run.s, in).as_dynamic(); auto c = o; play(c); }
}
template<class S, class F> static void compare(const In& in, int how, F f)
{
    Res base, x, y;
    history<S>(base, in, 0, [&](const auto& s, const In& i) { return f.template operator()<mm::use_stack>(s, i); });
    history<S>(x, in, how, [&](const auto& s, const In& i) { return f.template operator()<mm::use_stack>(s, i); });
    history<S>(y, in, how, [&](const auto& s, const In& i) { return f.template operator()<mm::use_shared>(s, i); });
    auto same = [](const Rec& a, const Rec& b, const char* w) { a.log(); sym_check(a.n == b.n, w); for (int i = 0; i < a.n; ++i) { sym_check(a.kind[i] == b.kind[i], w); sym_check(a.val[i] == b.val[i], w); } };
    same(base.a, x.a, "a copy differs from the original"); same(base.b, x.b, "a copy differs from the original"); same(base.c, x.c, "a copy differs from the original");
    same(base.a, y.a, "shared storage differs from stack storage"); same(base.b, y.b, "shared storage differs from stack storage"); same(base.c, y.c, "shared storage differs from stack storage");
    if (base.b.nexts() > 1) sym_cover("values");
}
template<class F> static void all(F f, bool bad = false)
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        In in{};
        in.n = (int)sym_concrete(sym_u64("n", 0, MAXN));
        for (int i = 0; i < in.n; ++i) in.v[i] = any_int("v");
        in.stop = (int)sym_concrete(sym_u64("stop", 0, 2));
        in.bad = bad ? (int)sym_concrete(sym_u64("bad", 0, in.n)) : -1;
        const int how = (int)sym_concrete(sym_u64("how", 0, 4)), sc = (int)sym_concrete(sym_u64("scheduler", 0, 3));
        if (sc == 0) compare<sch::immediate>(in, how, f);
        else if (sc == 1) compare<sch::current_thread>(in, how, f);
        else if (sc == 2) compare<TS>(in, how, f);
        else compare<RL>(in, how, f);
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define E(name, ...) extern "C" void H_##name() { sym_want("values"); all([]<class M>(const auto& s, const In& in) { return __VA_ARGS__; }); }
static std::vector<val_t> vec(const In& in) { return {in.v, in.v + in.n}; }
#ifndef PART
E(just1, (src::just<M>(s, val_t{in.v[0]}, val_t{in.n})))
E(just4, (src::just<M>(s, val_t{in.v[0]}, val_t{in.n}, val_t{in.v[1]}, val_t{in.v[2]})))
E(from_vector, (src::from_iterable<M>(vec(in), s)))
E(from_list, (src::from_iterable<M>(std::list<val_t>(in.v, in.v + in.n), s)))
#endif
