//@ bound: 6..7 attempts of a source which fails on subscription: every attempt is made at the same depth of the stack
#include "pipes.hpp"
#include "deep.hpp"
using namespace h;
template<class F> static void deep(F f)
{
    sym_want("rounds");
    const uint64_t live = sym_heap_live();
    {
        const int n = many(), v = any_int("v"); int left = n - 1; Deep d; Rec r;
        const auto dis = rpp::composite_disposable_wrapper::make();
        f(rpp::source::create<val_t>([&](auto&& o) { d.round(); o.on_next(val_t{v}); if (left-- > 0) o.on_error(mkerr(1)); }), n).subscribe(dis, sink(r));
        sym_check(d.rounds == n && r.nexts() == n, "every attempt plays once");
        dis.dispose();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_deep_retry() { deep([](const auto& o, int) { return o | op::retry(); }); }
extern "C" void H_deep_retry_n() { deep([](const auto& o, int n) { return o | op::retry(n); }); }
extern "C" void H_deep_retry_when() { deep([](const auto& o, int) { return o | op::retry_when([](const std::exception_ptr&) { return src::just(rpp::schedulers::immediate{}, 1); }); }); }
extern "C" void H_deep_retry_when_ct() { deep([](const auto& o, int) { return o | op::retry_when([](const std::exception_ptr&) { return src::just(1); }); }); }
