//@ bound: also 255..300 children at once
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_children_many()
{
    const uint64_t live = sym_heap_live();
    {
        const int n = crowd(), how = (int)sym_concrete(sym_u64("how", 0, 2)), victim = (int)sym_concrete(sym_u64("victim", 0, 3));
        std::vector<int> count(n); std::vector<rpp::disposable_wrapper> c; c.reserve(n);
        auto d = rpp::composite_disposable_wrapper::make();
        for (int i = 0; i < n; ++i) { c.push_back(rpp::make_callback_disposable([&count, i]() noexcept { ++count[i]; })); d.add(c[i]); }
        const int v[4] = {0, n / 2, 254, n - 1}; const int x = v[victim];
        d.remove(c[x]);
        if (how == 0) d.dispose(); else if (how == 1) d.clear(); else { d = rpp::composite_disposable_wrapper::empty(); }
        for (int i = 0; i < n; ++i) sym_check(count[i] == (i == x ? 0 : 1), "every child is disposed exactly once, a removed one not at all");
        c.clear();
        for (int i = 0; i < n; ++i) sym_check(count[i] == 1, "a callback runs at the latest when its last handle goes away");
    }
    sym_check(sym_heap_live() == live, "leak");
}
