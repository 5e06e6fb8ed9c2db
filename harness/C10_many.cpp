//@ bound: also counts of 255..300, 1025 and 4097, with more values than that
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
static int big() { static const int sizes[] = {255, 256, 257, 300, 1025, 4097}; return sizes[sym_concrete(sym_u64("many", 0, 5))]; }
extern "C" void H_select_many()
{
    const int n = big(), what = (int)sym_concrete(sym_u64("what", 0, 5));
    Hot s; Tally t; const auto d = rpp::composite_disposable_wrapper::make();
    const size_t c = (size_t)n;
    if (what == 0) t.on(s.obs() | op::take(c), d);
    else if (what == 1) t.on(s.obs() | op::skip(c), d);
    else if (what == 2) t.on(s.obs() | op::element_at(c), d);
    else if (what == 3) t.on(s.obs() | op::take_last(c), d);
    else if (what == 4) t.on(s.obs() | op::take_while([n](int v) { return v < n; }), d);
    else t.on(s.obs() | op::last(), d);
    for (int i = 0; i < n + 2; ++i)
    {
        s.ev(NEXT, i);
        const bool ended = what == 0 ? i >= n - 1 : what == 2 || what == 4 ? i >= n : false;
        sym_check(t.term == (ended ? DONE : 0) && s.up == (ended ? 1 : 0), "the stream ends exactly when the selection is complete");
        const int seen = what == 0 || what == 4 ? std::min(i + 1, n) : what == 1 ? std::max(0, i + 1 - n) : what == 2 ? i >= n : 0;
        sym_check(t.n == seen, "exactly the named elements");
    }
    if (!t.term) s.ev(DONE, 0);
    sym_check(t.term == DONE && s.up == 1, "the end");
    if (what == 1) sym_check(t.n == 2 && t.last == n + 1, "everything after the first n");
    if (what == 2) sym_check(t.n == 1 && t.last == n, "the n-th element");
    if (what == 3) sym_check(t.n == n && t.last == n + 1 && t.sum == (uint64_t)n * (n + 3) / 2, "the last n");
    if (what == 5) sym_check(t.n == 1 && t.last == n + 1, "the last one");
    s.o.reset();
}
