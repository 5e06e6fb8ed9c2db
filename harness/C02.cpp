//@ bound: sources with up to 3 values and any termination; each user callback (mapper, predicate, accumulator, comparator, selector, key selector, tap, on_next of the final observer) throws at a symbolic position; values arbitrary 32-bit
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = 3;
// Throws at the k-th call.
struct Bomb
{
    int at, *calls;
    void tick() const { if ((*calls)++ == at) throw Err{777}; }
};
// events expected when the callback sees each value: values before the throwing call pass, then error 777
template<class Out = int, class P>
static void boom(P pipeline, bool final_cb = false, int extra_calls = 0)
{
    sym_want("thrown"); sym_want("intact");
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::wellformed(N);
        const int at = (int)sym_concrete(sym_u64("at", 0, N)) + 0;
        int calls = 0, up = 0;
        Bomb b{at, &calls};
        Rec r;
        auto src = rpp::source::create<int>([&](auto&& o) {
            o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up; }));
            for (int i = 0; i < s.n; ++i) { emit(o, s.kind[i], s.val[i]); if (r.term) { sym_check(up == 1, "upstream not released when a callback threw"); sym_check(o.is_disposed(), "observer still live after a callback threw"); } }
        });
        const bool dyn = sym_bool("dyn");
        auto go = [&](const auto& p) {
            if (dyn) p.subscribe(sink<Out>(r).as_dynamic()); else p.subscribe(sink<Out>(r));
        };
        if (!final_cb) go(pipeline(src, b));
        else pipeline(src, b).subscribe([&](int v) { b.tick(); r.on_next(v); }, [&](const std::exception_ptr& e) { r.on_error(e); }, [&] { r.on_completed(); });
        r.log();
        const bool thrown = calls > at;
        if (thrown) { sym_check(r.errored() && r.val[r.n - 1] == 777, "an exception of a user callback must reach on_error"); sym_cover("thrown"); }
        else { sym_check(r.term == s.term() , "termination lost"); sym_cover("intact"); if (s.last_kind() == ERR) sym_check(r.errored() && r.val[r.n - 1] == (s.val[s.legal - 1] & 1023), "error lost"); }
        sym_check(r.count(ERR) <= 1, "at most one error");
        if (thrown) for (int i = 0; i + 1 < r.n; ++i) sym_check(r.kind[i] == NEXT, "only values may precede the error");
        (void)extra_calls;
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_map() { boom([](const auto& o, Bomb b) { return o | op::map([b](int v) { b.tick(); return v; }); }); }
extern "C" void H_filter() { boom([](const auto& o, Bomb b) { return o | op::filter([b](int) { b.tick(); return true; }); }); }
extern "C" void H_take_while() { boom([](const auto& o, Bomb b) { return o | op::take_while([b](int) { b.tick(); return true; }); }); }
extern "C" void H_tap() { boom([](const auto& o, Bomb b) { return o | op::tap([b](int) { b.tick(); }); }); }
extern "C" void H_scan() { boom([](const auto& o, Bomb b) { return o | op::scan(1, [b](int x, int) { b.tick(); return x; }); }); }
extern "C" void H_scan_noseed() { boom([](const auto& o, Bomb b) { return o | op::scan([b](int x, int) { b.tick(); return x; }); }); }
extern "C" void H_reduce() { boom([](const auto& o, Bomb b) { return o | op::reduce(1, [b](int x, int) { b.tick(); return x; }); }); }
extern "C" void H_distinct_until_changed() { boom([](const auto& o, Bomb b) { return o | op::distinct_until_changed([b](int, int) { b.tick(); return false; }); }); }
extern "C" void H_flat_map() { boom([](const auto& o, Bomb b) { return o | op::flat_map([b](int v) { b.tick(); return rpp::source::just(rpp::schedulers::immediate{}, v); }); }); }
extern "C" void H_group_by_key() { boom([](const auto& o, Bomb b) { return o | op::group_by([b](int) { b.tick(); return 1; }) | op::merge(); }); }
extern "C" void H_group_by_value() { boom([](const auto& o, Bomb b) { return o | op::group_by([](int) { return 1; }, [b](int v) { b.tick(); return v; }) | op::merge(); }); }
extern "C" void H_combine_latest() { boom([](const auto& o, Bomb b) { return o | op::combine_latest([b](int x, int) { b.tick(); return x; }, rpp::source::just(rpp::schedulers::immediate{}, 5)); }); }
extern "C" void H_zip() { boom([](const auto& o, Bomb b) { return o | op::zip([b](int x, int) { b.tick(); return x; }, rpp::source::from_iterable(std::array<int, 3>{1, 2, 3}, rpp::schedulers::immediate{})); }); }
extern "C" void H_with_latest_from() { boom([](const auto& o, Bomb b) { return o | op::with_latest_from([b](int x, int) { b.tick(); return x; }, rpp::source::just(rpp::schedulers::immediate{}, 5)); }); }
extern "C" void H_final() { boom([](const auto& o, Bomb) { return o | op::map([](int v) { return v; }); }, true); }
extern "C" void H_final_after_take() { boom([](const auto& o, Bomb) { return o | op::filter([](int) { return true; }); }, true); }
