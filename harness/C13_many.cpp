//@ bound: also 255..300 groups alive at once, and windows of 255..300 values; counts of 3..2^40+1 (buffer: 2^20+1) with a handful of events
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_group_many()
{
    const int n = crowd();
    Hot hsrc; Tally t; int groups = 0;
    const auto d = rpp::composite_disposable_wrapper::make();
    t.on(hsrc.obs() | op::group_by([](int v) { return v % 1000; }) | op::map([&groups](const auto& g) { const int k = g.get_key(); ++groups; return g | op::map([k](int v) { sym_check(v % 1000 == k, "a value in the wrong group"); return val_t{v}; }); }) | op::merge(), d);
    for (int r = 0; r < 2; ++r) for (int i = 0; i < n; ++i) hsrc.ev(NEXT, 1000 * r + i);
    sym_check(groups == n && t.n == 2 * n, "every key has one group, and every value is delivered");
    sym_check(!t.term && hsrc.up == 0, "the stream is going on");
    hsrc.ev(DONE, 0);
    sym_check(t.term == DONE && hsrc.up == 1, "the end reaches everybody");
    hsrc.o.reset();
}
extern "C" void H_window_many()
{
    const int n = crowd(), rest = (int)sym_concrete(sym_u64("rest", 0, 1));
    Hot hsrc; Tally t; int windows = 0;
    const auto d = rpp::composite_disposable_wrapper::make();
    t.on(hsrc.obs() | op::window(n) | op::map([&windows](const auto& w) { ++windows; return w | op::map([k = windows](int v) { return val_t{1000 * k + v}; }); }) | op::merge(), d);
    for (int i = 0; i < 2 * n + rest; ++i) { hsrc.ev(NEXT, i); sym_check(windows == i / n + 1 && t.last == 1000 * (i / n + 1) + i, "a value in the wrong window"); }
    hsrc.ev(DONE, 0);
    sym_check(t.term == DONE && t.n == 2 * n + rest, "the end reaches everybody");
    hsrc.o.reset();
}

extern "C" void H_window_wide()
{
    const size_t n = wide(40); const int k = (int)sym_concrete(sym_u64("k", 0, 3));
    Hot hsrc; int windows = 0, seen = 0, ended = 0; bool done = false;
    hsrc.obs() | op::window(n) | op::subscribe([&](const auto& w) { ++windows; w.subscribe([&](const auto&) { ++seen; }, [](const std::exception_ptr&) { sym_fail("unexpected error"); }, [&] { ++ended; }); }, [](const std::exception_ptr&) { sym_fail("unexpected error"); }, [&] { done = true; });
    for (int i = 0; i < k; ++i) { hsrc.ev(NEXT, i); sym_check(seen == i + 1 && ended == ((size_t)i + 1 >= n ? 1 : 0), "a window takes n values"); }
    hsrc.ev(DONE, 0);
    sym_check(done && seen == k && windows == ended, "every value in its window, every window ends");
    sym_check(windows <= 1 || (size_t)k >= n, "a handful of values is one window");
    hsrc.o.reset();
}
