//@ bound: also 255..300 sources waiting for their turn; counts of 3..2^40+1 (buffer: 2^20+1) with a handful of events
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_concat_many()
{
    const uint64_t live = sym_heap_live();
    {
        const int n = crowd(); Hot outer; Tally t; std::optional<rpp::dynamic_observer<val_t>> in; int subs = 0, up = 0;
        const auto d = rpp::composite_disposable_wrapper::make();
        t.on(outer.obs() | op::map([&](int v) { return src::create<val_t>([&, v](auto&& o) { sym_check(subs == v && up == v, "one source at a time, in order"); ++subs; o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up; })); in.emplace(std::move(o).as_dynamic()); }); }) | op::concat(), d);
        for (int i = 0; i < n; ++i) outer.ev(NEXT, i);
        outer.ev(DONE, 0);
        for (int i = 0; i < n; ++i) { sym_check(!t.term && subs == i + 1, "sources are waiting"); auto o = std::move(*in); in.reset(); o.on_next(val_t{i}); sym_check(t.n == i + 1 && t.last == i, "the value of the current source"); o.on_completed(); }
        sym_check(t.term == DONE && up == n, "the end after the last source");
        outer.o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_repeat_many()
{
    const int n = crowd(); Tally t; int subs = 0;
    t.on(src::create<val_t>([&](auto&& o) { ++subs; o.on_next(val_t{subs}); o.on_completed(); }) | op::repeat(n), rpp::composite_disposable_wrapper::make());
    sym_check(subs == n && t.n == n && t.last == n && t.term == DONE, "repeat(n) plays n times");
}

extern "C" void H_repeat_wide()
{
    const size_t n = wide(40); const size_t k = (size_t)sym_concrete(sym_u64("k", 1, 5)); Tally t; size_t subs = 0;
    const auto d = rpp::composite_disposable_wrapper::make();
    t.on(src::create<val_t>([&](auto&& o) { if (++subs == k) d.dispose(); o.on_next(val_t{1}); o.on_completed(); }) | op::repeat(n), d);
    sym_check(subs == std::min(k, n), "repeat(n) plays the source n times unless it is disposed");
}
