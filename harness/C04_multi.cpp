//@ bound: three sources (primary and two secondary or inner ones), alone and followed by take(1)/take(2); up to 4 (thorough: 5) events of arbitrary source, kind and value
//@ preempt: 0
#include "pipes.hpp"
using namespace h;
static const int N = THOROUGH ? 5 : 4;
// Model of who is still needed: `needed(i)` after each event, for the operators that replace one source by another one.
enum Op { MERGE_WITH, COMBINE, ZIP, WITH, UNTIL, FLAT_MAP, CONCAT, SWITCH, RESUME, RETRY_WHEN, TOGGLE, SRC_CONCAT, NESTED };
template<class B>
static void multi_take(Op which, B&& build)
{
    sym_want("ended");
    const uint64_t live = sym_heap_live();
    {
        Hot hot[3]; Rec r;
        auto d = rpp::composite_disposable_wrapper::make();
        const int limit = (int)sym_concrete(sym_u64("take", 0, 2));
        auto sub = [&](const auto& o) { if (limit) (o | op::take(limit)).subscribe(d, sink(r)); else o.subscribe(d, sink(r)); };
        build(hot, sub);
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        int  fin[3]{}, closed = 0, closed_sub = 0;
        const bool by_value = which == FLAT_MAP || which == CONCAT || which == SWITCH || which == NESTED;
        for (int i = 0; i < n; ++i)
        {
            const int s = (int)sym_concrete(sym_u64("src", 0, 2));
            if (!hot[s].o || hot[s].finished) continue;
            const int kind = (int)sym_concrete(sym_u64("k", 0, 2)), val = by_value && s == 0 ? (int)sym_concrete(sym_u64("v", 0, 1)) : 0;
            const bool outer_ends = r.term;
            hot[s].ev(kind, val);
            if (kind != NEXT) ++fin[s];
            for (int k = 0; k < 3; ++k)
            {
                sym_check(hot[k].up <= hot[k].subs, "a subscription to a source was released more than once");
                sym_check(hot[k].up >= fin[k], "a finished source must be released");
            }
            if (r.term && !outer_ends) sym_cover("ended");
            if (r.term)
            {
                for (auto& x : hot) { sym_check(x.up == x.subs, "every source must be released when the stream has ended"); if (x.o) sym_check(x.o->is_disposed(), "every source must see that the stream has ended"); }
                sym_check(d.is_disposed(), "the subscription must be disposed when the stream has ended");
            }
            // sources which are not needed any more although the stream goes on
            if (which == SWITCH && s == 0 && kind == NEXT && !r.term) { const int other = val ? 1 : 2; sym_check(hot[other].up == hot[other].subs, "the inner source which is no longer mirrored must be released"); }
            if ((which == RESUME || which == RETRY_WHEN) && s == 0 && kind == ERR && !r.term) sym_check(hot[0].up == hot[0].subs, "a failed source must be released before the stream goes on with another one");
            if (which == RETRY_WHEN && s == 1 && kind == NEXT && !r.term) sym_check(hot[1].up == hot[1].subs, "the notifier must be released once it has triggered the retry");
            if (which == TOGGLE && s == 2 && closed_sub < hot[2].subs) { closed_sub = hot[2].subs; ++closed; }
            if (which == TOGGLE) sym_check(hot[2].up >= closed, "a closing must be released once it has closed its window");
            if (which == SRC_CONCAT && kind == DONE && !r.term) sym_check(hot[s].up == hot[s].subs, "a finished source must be released before the next one is subscribed");
        }
        r.log();
        d.dispose();
        for (auto& x : hot) sym_check(x.up == x.subs, "every source must be released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define E(name, which, expr) extern "C" void H_##name() { multi_take(which, [](Hot (&h)[3], auto sub) { sub(expr); }); }
static constexpr auto add3 = [](int a, int b, int c) { return a + b + c; };
E(merge_with, MERGE_WITH, h[0].obs() | op::merge_with(h[1].obs(), h[2].obs()))
E(combine_latest, COMBINE, h[0].obs() | op::combine_latest(add3, h[1].obs(), h[2].obs()))
E(zip, ZIP, h[0].obs() | op::zip(add3, h[1].obs(), h[2].obs()))
E(with_latest_from, WITH, h[0].obs() | op::with_latest_from(add3, h[1].obs(), h[2].obs()))
E(take_until, UNTIL, h[0].obs() | op::take_until(h[1].obs()) | op::take_until(h[2].obs()))
E(flat_map, FLAT_MAP, h[0].obs() | op::flat_map([&h](int v) { return h[v ? 2 : 1].obs(); }))
E(concat, CONCAT, h[0].obs() | op::map([&h](int v) { return h[v ? 2 : 1].obs(); }) | op::concat())
E(switch_on_next, SWITCH, h[0].obs() | op::map([&h](int v) { return h[v ? 2 : 1].obs(); }) | op::switch_on_next())
E(on_error_resume_next, RESUME, h[0].obs() | op::on_error_resume_next([&h](const std::exception_ptr&) { return h[1].obs(); }))
E(retry_when, RETRY_WHEN, h[0].obs() | op::retry_when([&h](const std::exception_ptr&) { return h[1].obs(); }))
E(window_toggle, TOGGLE, h[0].obs() | op::window_toggle(h[1].obs(), [&h](int) { return h[2].obs(); }) | op::merge())
E(source_concat, SRC_CONCAT, src::concat(h[0].obs(), h[1].obs(), h[2].obs()))
E(start_with, SRC_CONCAT, h[2].obs() | op::start_with(h[0].obs(), h[1].obs()))
E(publish_merge, MERGE_WITH, (h[0].obs() | op::publish() | op::ref_count() | op::merge_with(h[1].obs() | op::take_until(h[2].obs()))))
E(timeout_fallback, MERGE_WITH, (h[0].obs() | op::on_error_resume_next([&h](const std::exception_ptr&) { return h[1].obs() | op::with_latest_from([](int a, int) { return a; }, h[2].obs()); })))
E(nested, NESTED, (h[0].obs() | op::flat_map([&h](int v) { return (v ? h[1].obs().as_dynamic() : src::concat(h[2].obs(), h[1].obs()).as_dynamic()); }) | op::combine_latest([](int a, int b) { return a + b; }, src::just(1))))
