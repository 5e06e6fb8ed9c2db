//@ bound: also 255..300 different values, each of them repeated
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_distinct_many()
{
    const int n = crowd(), what = (int)sym_concrete(sym_u64("what", 0, 1));
    Hot s; Tally t; const auto d = rpp::composite_disposable_wrapper::make();
    auto plain = s.obs() | op::map([](const val_t& v) { return (int)v; });
    if (what) t.on(plain | op::distinct(), d); else t.on(plain | op::distinct_until_changed(), d);
    for (int i = 0; i < n; ++i) { s.ev(NEXT, 7 * i); s.ev(NEXT, 7 * i); sym_check(t.n == i + 1 && t.last == 7 * i, "a value seen for the first time passes, a repeated one does not"); }
    for (int i = 0; i < n; ++i) { s.ev(NEXT, 7 * i); sym_check(t.n == (what ? n : n + i + 1), "a value seen long ago is still known"); }
    s.ev(DONE, 0);
    sym_check(t.term == DONE, "the end");
    s.o.reset();
}
