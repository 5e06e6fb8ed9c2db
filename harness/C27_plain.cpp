//@ bound: the same combining operators over two subjects (statically sized subscriptions) with plain callbacks or a returned handle as consumer: up to 2 and 1 values plus any termination each from two threads, every schedule with at most 2 preemptions (thorough: 3); merge, concat, switch_on_next, window, group_by and retry between threads
//@ assume: preemption only at synchronisation operations; data races are reported separately
//@ preempt: 2
//@ preempt_thorough: 3
#define H_VALUE V
#include "C27_models.hpp"
using namespace h;
namespace op = rpp::operators;
using W = rpp::composite_disposable_wrapper;
struct Sub
{
    Ev e[4]{}; int n = 0;
    rpp::subjects::publish_subject<val_t> s{};
    void any(int maxn, int base)
    {
        const int m = (int)sym_concrete(sym_u64("n", THOROUGH ? 0 : maxn - 1, maxn)), t = (int)sym_concrete(sym_u64("term", 0, 2));
        for (int i = 0; i < m; ++i) e[n++] = {NEXT, base + i};
        if (t) e[n++] = {t, t == ERR ? base : 0};
    }
    auto obs() { return s.get_observable(); }
    void play() { auto o = s.get_observer(); for (int i = 0; i < n; ++i) emit(o, e[i].kind, e[i].val); }
};
template<class O> static W plain(const O& o, Rec& r)
{
    auto next = [&r](int v) { r.on_next(v); }; auto err = [&r](const std::exception_ptr& e) { r.on_error(e); }; auto done = [&r] { r.on_completed(); };
    if (sym_bool("handle")) return o.subscribe_with_disposable(next, err, done);
    o.subscribe(next, err, done);
    return W::empty();
}
template<class M, class Build>
static void two(Build build, const char* what)
{
    sym_want("ends"); sym_want("alive");
    const uint64_t live = sym_heap_live();
    {
        Sub a, b; Rec r;
        a.any(2, 1); b.any(THOROUGH ? 2 : 1, 101);
        W d = plain(build(a.obs(), b.obs()), r);
        std::thread t{[&] { b.play(); }};
        a.play();
        t.join();
        sym_check(possible(a, b, 0, 0, M{}, Exp{}, r, 0), what);
        if (r.term) { sym_cover("ends"); sym_check(d.is_disposed(), "not disposed although the stream has ended"); }
        else sym_cover("alive");
        d.dispose();
        a.s.get_disposable().dispose(); b.s.get_disposable().dispose();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_merge_with() { two<MMerge>([](auto a, auto b) { return a | op::merge_with(b); }, "merge_with lost, invented or re-ordered something"); }
extern "C" void H_combine_latest() { two<MLatest>([](auto a, auto b) { return a | op::combine_latest(pair_, b); }, "combine_latest: no interleaving of the sources explains the result"); }
extern "C" void H_zip() { two<MZip>([](auto a, auto b) { return a | op::zip(pair_, b); }, "zip: no interleaving of the sources explains the result"); }
extern "C" void H_with_latest_from() { two<MWith>([](auto a, auto b) { return a | op::with_latest_from(pair_, b); }, "with_latest_from: no interleaving of the sources explains the result"); }
extern "C" void H_take_until() { two<MUntil>([](auto a, auto b) { return a | op::take_until(b); }, "take_until: no interleaving of the sources explains the result"); }
// a static outer source: merge sizes its subscription statically
extern "C" void H_merge() { two<MMerge>([](auto a, auto b) { return rpp::source::just(rpp::schedulers::immediate{}, a.as_dynamic(), b.as_dynamic()) | op::merge(); }, "merge lost, invented or re-ordered something"); }
extern "C" void H_flat_map() { two<MMerge>([](auto a, auto b) { return rpp::source::just(rpp::schedulers::immediate{}, 0, 1) | op::flat_map([a, b](int i) { return i ? b : a; }) | op::map([](int v) { return v; }); }, "flat_map lost, invented or re-ordered something"); }
