//@ bound: operators over up to three sources (primary, secondary, inner, notifier, fallback): up to 4 (thorough: 5) events of arbitrary source, kind and value; disposal between any two of them or inside the 1st-2nd notification
//@ preempt: 0
#include "pipes.hpp"
using namespace h;
static const int N = THOROUGH ? 5 : 4;
template<class B> static void multi_dispose(bool selects, B&& build)
{
    sym_want("disposed with a second source"); sym_want("disposed inside");
    const uint64_t live = sym_heap_live();
    {
        Hot hot[3]; Rec r;
        auto d = rpp::composite_disposable_wrapper::make();
        const int inside = (int)sym_concrete(sym_u64("inside", 0, 2));
        bool over = false; int seen = 0;
        auto at = [&] { sym_check(!over, "a notification after dispose()"); if (++seen == inside) { d.dispose(); over = true; sym_cover("disposed inside"); } };
        auto sub = [&](const auto& o) { o.subscribe(d, [&](auto v) { at(); r.on_next((int64_t)v); }, [&](const std::exception_ptr& e) { sym_check(!over, "a notification after dispose()"); r.on_error(e); }, [&] { sym_check(!over, "a notification after dispose()"); r.on_completed(); }); };
        build(hot, sub);
        int subs_at[3]{}; bool fixed = false;
        auto released = [&] {
            for (int k = 0; k < 3; ++k)
            {
                sym_check(hot[k].up == hot[k].subs, "a source is not released by dispose()");
                if (hot[k].o) sym_check(hot[k].o->is_disposed(), "a source still sees a live observer after dispose()");
                if (fixed) sym_check(hot[k].subs == subs_at[k], "a source is subscribed after dispose()");
                subs_at[k] = hot[k].subs;
            }
            fixed = true;
        };
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        for (int i = 0; i < n; ++i)
        {
            const int s = (int)sym_concrete(sym_u64("src", 0, 3));
            if (s == 3) { if (!over) { if (!r.term && hot[0].subs + hot[1].subs + hot[2].subs > 1) sym_cover("disposed with a second source"); d.dispose(); over = true; released(); } continue; }
            if (!hot[s].o || hot[s].finished) continue;
            const int kind = (int)sym_concrete(sym_u64("k", 0, 2)), val = selects && s == 0 ? (int)sym_concrete(sym_u64("v", 0, 1)) : 0;
            hot[s].ev(kind, val);
            if (over) released();
        }
        r.log();
        d.dispose(); over = true;
        released();
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define E(name, selects, expr) extern "C" void H_multi_##name() { multi_dispose(selects, [](Hot (&h)[3], auto sub) { sub(expr); }); }
static constexpr auto add3 = [](int a, int b, int c) { return a + b + c; };
E(merge_with, false, h[0].obs() | op::merge_with(h[1].obs(), h[2].obs()))
E(combine_latest, false, h[0].obs() | op::combine_latest(add3, h[1].obs(), h[2].obs()))
E(zip, false, h[0].obs() | op::zip(add3, h[1].obs(), h[2].obs()))
E(with_latest_from, false, h[0].obs() | op::with_latest_from(add3, h[1].obs(), h[2].obs()))
E(take_until, false, h[0].obs() | op::take_until(h[1].obs()) | op::take_until(h[2].obs()))
E(flat_map, true, h[0].obs() | op::flat_map([&h](int v) { return h[v ? 2 : 1].obs(); }))
E(concat, true, h[0].obs() | op::map([&h](int v) { return h[v ? 2 : 1].obs(); }) | op::concat())
E(switch_on_next, true, h[0].obs() | op::map([&h](int v) { return h[v ? 2 : 1].obs(); }) | op::switch_on_next())
E(on_error_resume_next, false, h[0].obs() | op::on_error_resume_next([&h](const std::exception_ptr&) { return h[1].obs(); }))
E(retry_when, false, h[0].obs() | op::retry_when([&h](const std::exception_ptr&) { return h[1].obs(); }))
E(retry_when_chain, false, h[0].obs() | op::retry_when([&h](const std::exception_ptr&) { return h[1].obs() | op::merge_with(h[2].obs()); }))
E(source_concat, false, src::concat(h[0].obs(), h[1].obs(), h[2].obs()))
E(start_with, false, h[2].obs() | op::start_with(h[0].obs(), h[1].obs()))
E(retry_concat, false, src::concat(h[0].obs(), h[1].obs()) | op::retry(1))
E(resume_until, false, h[0].obs() | op::on_error_resume_next([&h](const std::exception_ptr&) { return h[1].obs(); }) | op::take_until(h[2].obs()))
E(toggle, false, h[0].obs() | op::window_toggle(h[1].obs(), [&h](int) { return h[2].obs(); }) | op::merge())
E(share, false, (h[0].obs() | op::publish() | op::ref_count() | op::merge_with(h[1].obs() | op::take_until(h[2].obs()))))
E(groups, true, (h[0].obs() | op::group_by([](int v) { return v; }) | op::flat_map([&h](const auto& g) { return g | op::merge_with(h[1 + g.get_key()].obs()); })))
E(switch_groups, true, (h[0].obs() | op::group_by([](int v) { return v; }) | op::map([&h](const auto& g) { return g | op::with_latest_from([](int a, int) { return a; }, h[1 + g.get_key()].obs()); }) | op::switch_on_next()))
E(windows, false, (h[0].obs() | op::window(2) | op::map([&h](const auto& w) { return w | op::take_until(h[1].obs()); }) | op::concat()))
E(delayed, false, (h[0].obs() | op::delay(std::chrono::nanoseconds{0}, rpp::schedulers::immediate{}) | op::merge_with(h[1].obs() | op::observe_on(rpp::schedulers::current_thread{}))))
E(subscribed_on, false, (h[0].obs() | op::subscribe_on(rpp::schedulers::current_thread{}) | op::zip([](int a, int b) { return a + b; }, h[1].obs() | op::subscribe_on(rpp::schedulers::immediate{}))))
E(deferred, false, src::defer([&h] { return h[0].obs() | op::merge_with(h[1].obs()); }) | op::retry(1))
E(dynamic, false, (h[0].obs().as_dynamic() | op::merge_with(h[1].obs().as_dynamic())).as_dynamic() | op::take_until(h[2].obs().as_dynamic()))
E(typed_subject, false, ([&h] { return h[0].obs() | op::multicast(rpp::subjects::publish_subject<int>{}) | op::ref_count() | op::combine_latest([](int a, int b) { return a + b; }, h[1].obs()); }()))
