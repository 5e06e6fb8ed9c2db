//@ bound: 6..7 sources which play on subscription: every source is subscribed at the same depth of the stack (sources run one after the other, not inside each other)
#include "pipes.hpp"
#include "deep.hpp"
using namespace h;
static auto counted(Deep& d, int& left, int value) { return rpp::source::create<val_t>([&d, &left, value](auto&& o) { d.round(); o.on_next(val_t{value}); if (left-- > 0) o.on_completed(); }); }
template<class F> static void deep(F f)
{
    sym_want("rounds");
    const uint64_t live = sym_heap_live();
    {
        const int n = many(), v = any_int("v"); int left = n - 1; Deep d; Rec r;
        const auto dis = rpp::composite_disposable_wrapper::make();
        f(counted(d, left, v), n).subscribe(dis, sink(r));
        sym_check(d.rounds == n && r.nexts() == n, "every source plays once");
        dis.dispose();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_deep_repeat() { deep([](const auto& o, int) { return o | op::repeat(); }); }
extern "C" void H_deep_repeat_n() { deep([](const auto& o, int n) { return o | op::repeat(n); }); }
extern "C" void H_deep_concat_container() { deep([](const auto& o, int n) { return rpp::source::concat(std::vector(n, o)); }); }
extern "C" void H_deep_concat_op() { deep([](const auto& o, int n) { return rpp::source::create<val_t>([n](auto&& x) { for (int i = 0; i < n; ++i) x.on_next(val_t{i}); }) | op::map([o](int) { return o; }) | op::concat(); }); }
// sources which queue up behind one that takes its time
extern "C" void H_deep_concat_queue()
{
    sym_want("rounds");
    const int n = many(); int left = n; Deep d; Rec r; Hot first; int k = 0;
    const auto dis = rpp::composite_disposable_wrapper::make();
    auto c = counted(d, left, 1).as_dynamic(); auto f = first.obs().as_dynamic();
    (rpp::source::create<val_t>([n](auto&& x) { for (int i = 0; i <= n; ++i) x.on_next(val_t{i}); }) | op::map([&](int) { return k++ ? c : f; }) | op::concat()).subscribe(dis, sink(r));
    sym_check(d.rounds == 0, "sources wait for their turn");
    first.ev(DONE, 0);
    sym_check(d.rounds == n && r.nexts() == n, "every source plays once");
    dis.dispose();
}
