//@ bound: also containers of 255..300, 1025 and (where elements are accessed by index) 4097 elements
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
#include <deque>
#include <list>
#include <set>
#include <rpp/schedulers/run_loop.hpp>
using namespace h;
template<class C> static void played(const C& c, int n)
{
    const int how = (int)sym_concrete(sym_u64("how", 0, 3)), stop = (int)sym_concrete(sym_u64("stop", 0, 1));
    Tally t; const auto d = rpp::composite_disposable_wrapper::make();
    auto go = [&](const auto& s) {
        auto o = src::from_iterable(c, s) | op::tap([&](int v) { sym_check(v == t.n, "the elements in their order"); if (stop && v == n - 2) d.dispose(); });
        t.on(o | op::map([](int v) { return val_t{v}; }), d);
    };
    if (how == 0) go(rpp::schedulers::immediate{});
    else if (how == 1) go(rpp::schedulers::current_thread{});
    else
    {
        rpp::schedulers::run_loop l{};
        go(l);
        sym_check(!t.n, "nothing before the scheduler runs");
        for (int guard = 0; !l.is_empty(); ++guard) { sym_check(guard < 2 * n + 5, "the source never ends"); l.dispatch(); if (how == 3 && guard == 256) { d.dispose(); } }
        if (how == 3 && n > 257) { sym_check(t.n <= 257 + 1 && !t.term, "a disposed source stops"); return; }
    }
    if (stop) { sym_check(t.n <= n - 1 && t.n >= n - 2 && !t.term, "a disposed source stops"); return; }
    if (d.is_disposed() && !t.term) return;
    sym_check(t.n == n && t.last == n - 1 && t.term == DONE, "every element once, then the end");
}
extern "C" void H_from_many()
{
    static const int sizes[] = {255, 256, 257, 300, 1025, 4097};
    const int kind = (int)sym_concrete(sym_u64("kind", 0, 3)), n = sizes[sym_concrete(sym_u64("many", 0, kind == 1 || kind == 3 ? 4 : 5))];
    std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
    if (kind == 0) played(v, n);
    else if (kind == 1) played(std::list<int>(v.begin(), v.end()), n);
    else if (kind == 2) played(std::deque<int>(v.begin(), v.end()), n);
    else played(std::set<int>(v.begin(), v.end()), n);
}
