//@ bound: also 255..300 attempts; counts of 3..2^40+1 (buffer: 2^20+1) with a handful of events
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_retry_many()
{
    const int n = crowd(), when = (int)sym_concrete(sym_u64("when", 0, 1)); Tally t; int subs = 0;
    auto o = src::create<val_t>([&](auto&& x) { ++subs; x.on_next(val_t{subs}); x.on_error(mkerr(1)); });
    const auto d = rpp::composite_disposable_wrapper::make();
    if (when) t.on(o | op::retry_when([&](const std::exception_ptr& e) { return subs <= n ? src::just(rpp::schedulers::immediate{}, 1).as_dynamic() : src::error<int>(e).as_dynamic(); }), d);
    else t.on(o | op::retry(n), d);
    sym_check(subs == n + 1 && t.n == n + 1 && t.term == ERR, "n attempts after the first one");
}

extern "C" void H_retry_wide()
{
    const size_t n = wide(40); const size_t k = (size_t)sym_concrete(sym_u64("k", 0, 5)); Tally t; size_t subs = 0;
    const auto d = rpp::composite_disposable_wrapper::make();
    t.on(src::create<val_t>([&](auto&& o) { if (subs++ < k) o.on_error(mkerr(1)); else { o.on_next(val_t{1}); o.on_completed(); } }) | op::retry(n), d);
    sym_check(subs == std::min(k, n) + 1, "retry(n) tries again n times");
    sym_check(t.term == (k > n ? ERR : DONE) && t.n == (k > n ? 0 : 1), "the outcome of the last attempt");
}
