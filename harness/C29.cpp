//@ bound: up to 4 (thorough: 6) events of arbitrary kind and value over 1-2 sources, disposal at any point and inside callbacks, finally at every place of a chain, one or two subscriptions; completion racing with disposal on another thread, every schedule with at most 2 (thorough: 3) preemptions
//@ preempt: 2
//@ preempt_thorough: 3
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 6 : 4;
// finally at the end of a chain: runs when the subscription is over, after the terminal callback
template<class F>
static void tail(F&& pipeline)
{
    sym_want("ended"); sym_want("disposed"); sym_want("inside");
    const uint64_t live = sym_heap_live();
    {
        Hot hot; Rec r;
        int calls = 0, subs = 0;
        auto d = rpp::composite_disposable_wrapper::make();
        const int inside = (int)sym_concrete(sym_u64("dispose_inside", 0, 1)), again = 0;
        (void)again; (void)subs;
        auto fin = [&]() noexcept { ++calls; sym_check(d.is_disposed(), "finally ran before the stream has ended"); };
        pipeline(hot.obs(), fin).subscribe(d, [&](int v) { r.on_next(v); if (inside && r.n == 1) { d.dispose(); sym_cover("inside"); } sym_check(calls == (int)d.is_disposed(), "finally must run when the stream ends, once"); },
            [&](const std::exception_ptr& e) { r.on_error(e); sym_check(calls == 0, "finally must run after the terminal callback"); }, [&] { r.on_completed(); sym_check(calls == 0, "finally must run after the terminal callback"); });
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        for (int i = 0; i < n; ++i)
        {
            sym_check(calls == (int)d.is_disposed(), "finally must run when the stream ends, once");
            const int k = (int)sym_concrete(sym_u64("k", 0, 3));
            if (k == 3) { d.dispose(); sym_cover("disposed"); } else hot.ev(k, any_int("v"));
        }
        sym_check(calls == (int)d.is_disposed(), "finally must run when the stream ends, once");
        if (r.term) { sym_check(calls == 1, "finally must run exactly once"); sym_cover("ended"); }
        hot.o.reset();
        d.dispose();
        sym_check(calls == 1, "finally must run exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_plain() { tail([](const auto& o, auto& f) { return o | op::finally(f); }); }
extern "C" void H_after_map() { tail([](const auto& o, auto& f) { return o | op::map([](int v) { return v; }) | op::finally(f); }); }
extern "C" void H_after_take() { tail([](const auto& o, auto& f) { return o | op::take(2) | op::finally(f); }); }
extern "C" void H_dynamic() { tail([](const auto& o, auto& f) { return (o.as_dynamic() | op::finally(f)).as_dynamic(); }); }
extern "C" void H_after_merge() { tail([](const auto& o, auto& f) { return o | op::merge_with(rpp::source::never<int>()) | op::finally(f); }); }
extern "C" void H_after_retry() { tail([](const auto& o, auto& f) { return o | op::retry(1) | op::finally(f); }); }
// finally inside a chain: its own stream may end earlier or later than the rest; the callback still runs exactly once per
// subscription to it and never while that stream is alive
template<int NS, class F>
static void middle(F&& build, const char* what)
{
    sym_want("ran");
    const uint64_t live = sym_heap_live();
    {
        Hot hot[NS]; Rec r;
        int calls = 0, armed = 0;
        bool src_over = false;
        auto d = rpp::composite_disposable_wrapper::make();
        auto fin = [&]() noexcept { ++calls; sym_check(src_over || r.term || d.is_disposed(), "finally ran before its stream has ended"); };
        (void)armed;
        build(hot, fin).subscribe(d, sink(r));
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        for (int i = 0; i < n; ++i)
        {
            const int s = (int)sym_concrete(sym_u64("src", 0, NS));
            if (s == NS) { d.dispose(); }
            else
            {
                const int k = (int)sym_concrete(sym_u64("k", 0, 2));
                if (s == 0 && k != NEXT) src_over = true;
                if (hot[s].finished) continue;
                hot[s].ev(k, any_int("v"));
            }
            sym_check(calls <= 1, "finally must run exactly once");
            if (r.term || d.is_disposed()) sym_check(calls == 1, what);
            if (hot[0].up) sym_check(calls == 1, "the source is released, but finally has not run");
            if (calls) sym_cover("ran");
        }
        d.dispose();
        sym_check(calls == 1, "finally must run exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_before_take() { middle<1>([](Hot* h, auto& f) { return h[0].obs() | op::finally(f) | op::take(1); }, "early end by an operator downstream"); }
extern "C" void H_before_merge() { middle<2>([](Hot* h, auto& f) { return h[0].obs() | op::finally(f) | op::merge_with(h[1].obs()); }, "end of a merge"); }
extern "C" void H_before_concat() { middle<2>([](Hot* h, auto& f) { return rpp::source::concat(h[0].obs() | op::finally(f), h[1].obs()); }, "end of a concat"); }
extern "C" void H_before_take_until() { middle<2>([](Hot* h, auto& f) { return h[0].obs() | op::finally(f) | op::take_until(h[1].obs()); }, "end by a notifier"); }
extern "C" void H_before_zip() { middle<2>([](Hot* h, auto& f) { return h[0].obs() | op::finally(f) | op::zip([](int a, int) { return a; }, h[1].obs()); }, "end of a zip"); }
extern "C" void H_before_resume() { middle<2>([](Hot* h, auto& f) { return h[0].obs() | op::finally(f) | op::on_error_resume_next([h](const std::exception_ptr&) { return h[1].obs(); }); }, "end of on_error_resume_next"); }
// the stream is over before its source was reached: an operator downstream ended it (or the subscriber left) while it subscribed
extern "C" void H_over_before()
{
    sym_want("over before");
    const uint64_t live = sym_heap_live();
    {
        const auto imm = rpp::schedulers::immediate{};
        const int how = (int)sym_concrete(sym_u64("how", 0, 5)), form = (int)sym_concrete(sym_u64("form", 0, 2));
        const Script s = Script::wellformed(2);
        int a = 0, b = 0, term_a = 0;
        bool reached = false, over = false;
        Rec r;
        {
            auto d = rpp::composite_disposable_wrapper::make();
            auto fa = [&]() noexcept { ++a; sym_check(r.term || d.is_disposed() || term_a, "finally ran before its stream has ended"); };
            auto fb = [&]() noexcept { ++b; };
            auto play = [&](auto&& o) { reached = true; over = o.is_disposed(); for (int i = 0; i < s.n; ++i) { if (s.kind[i] != NEXT) ++term_a; emit(o, s.kind[i], s.val[i]); } };
            auto src = rpp::source::create<int>(play);
            auto end = [&](const auto& o) {
                const auto stop = rpp::source::just(imm, 1);
                const auto bad = rpp::source::error<int>(mkerr(3));
                if (how == 0) (o | op::take_until(stop)).subscribe(d, sink(r));
                else if (how == 1) (o | op::with_latest_from([](int x, int) { return x; }, bad)).subscribe(d, sink(r));
                else if (how == 2) (o | op::take_until(rpp::source::create<int>([&](auto&&) { d.dispose(); }))).subscribe(d, sink(r));
                else if (how == 3) (o | op::take_until(rpp::source::empty<int>())).subscribe(d, sink(r));
                else if (how == 4) (o | op::take_until(bad)).subscribe(d, sink(r));
                else (o | op::zip([](int x, int) { return x; }, bad)).subscribe(d, sink(r));
            };
            if (form == 0) end(src | op::finally(fa));
            else if (form == 1) end((src | op::finally(fa)).as_dynamic());
            else end(rpp::source::just(imm, 1, 2) | op::finally(fa));
            if (over || !reached) sym_cover("over before");
            const bool ended = r.term || d.is_disposed();
            // the source forgets its observer at the end of its subscription: the stream is over for finally in any case
            // (a type-erased observable does not even subscribe to its chain for an observer which is over: finally has no subscription then)
            const int due = form == 1 && !reached ? 0 : 1;
            sym_check(a == due, ended ? "finally must run although the stream was over before its source was reached" : "finally must run exactly once");
            (void)fb;
        }
        sym_check(a <= 1 && (a == 1 || (form == 1 && !reached)), "finally must run exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// per subscription, in nesting order
extern "C" void H_counts()
{
    const Script s = Script::wellformed(2);
    int a = 0, b = 0;
    auto src = rpp::source::create<int>([&](auto&& o) { for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
    auto o = src | op::finally([&]() noexcept { ++a; }) | op::finally([&]() noexcept { ++b; });
    for (int k = 1; k <= 2; ++k) { Rec r; { auto d = rpp::composite_disposable_wrapper::make(); o.subscribe(d, sink(r)); sym_check(a == k - 1 + (s.last_kind() != NEXT) && b == a, "finally must run exactly once per subscription"); } sym_check(a == k && b == k, "finally must run exactly once per subscription, also if the source forgets its observer"); }
    // resubscription by repeat/retry: once per subscription
    int c = 0, subs = 0;
    auto again = rpp::source::create<int>([&](auto&& o) { ++subs; sym_check(c == subs - 1, "finally must run before the next subscription is made"); if (s.last_kind() == ERR) o.on_error(mkerr(1)); else o.on_completed(); }) | op::finally([&]() noexcept { ++c; });
    Rec r;
    if (s.last_kind() == ERR) (again | op::retry(2)).subscribe(sink(r)); else (again | op::repeat(3)).subscribe(sink(r));
    sym_check(subs == 3 && c == 3 && r.term, "finally must run exactly once per subscription");
}
extern "C" void H_race()
{
    std::atomic<int> calls{0};
    Rec r;
    auto d = rpp::composite_disposable_wrapper::make();
    std::optional<rpp::dynamic_observer<int>> ob;
    (rpp::source::create<int>([&](auto&& o) { ob.emplace(std::move(o).as_dynamic()); }) | op::finally([&]() noexcept { ++calls; })).subscribe(d, sink(r));
    const int k = (int)sym_concrete(sym_u64("k", 0, 2));
    std::thread t([&] { emit(*ob, k, 5); });
    d.dispose();
    t.join();
    sym_check(calls == 1, "finally must run exactly once when completion races with disposal");
}
