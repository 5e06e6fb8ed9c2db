//@ bound: also 255..300 values waiting for their partner
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_pairs_many()
{
    const int n = crowd(), what = (int)sym_concrete(sym_u64("what", 0, 2)), side = (int)sym_concrete(sym_u64("side", 0, 1));
    Hot s[2]; Tally t; const auto d = rpp::composite_disposable_wrapper::make();
    auto f = [](const val_t& a, const val_t& b) { return val_t{1000 * (int)a + (int)b}; };
    if (what == 0) t.on(s[0].obs() | op::zip(f, s[1].obs()), d);
    else if (what == 1) t.on(s[0].obs() | op::combine_latest(f, s[1].obs()), d);
    else t.on(s[0].obs() | op::with_latest_from(f, s[1].obs()), d);
    for (int i = 0; i < n; ++i) { s[side].ev(NEXT, i); sym_check(t.n == 0, "nothing without a partner"); }
    for (int i = 0; i < n; ++i)
    {
        s[!side].ev(NEXT, i);
        const int a = side ? i : what == 0 ? i : n - 1, b = side ? (what == 0 ? i : n - 1) : i;
        const int k = what == 2 && !side ? 0 : i + 1;
        sym_check(t.n == k && (!k || t.last == 1000 * a + b), "the right values are paired");
    }
    s[0].ev(DONE, 0); s[1].ev(DONE, 0);
    sym_check(t.term == DONE, "the end");
    s[0].o.reset(); s[1].o.reset();
}
