//@ bound: also 255..300 inner sources which are all running at once
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_merge_many()
{
    const uint64_t live = sym_heap_live();
    {
        const int n = crowd(), end = (int)sym_concrete(sym_u64("end", 0, 2));     // dispose, error of the last one, all complete
        Hot outer; Tally t; int up = 0;
        std::vector<rpp::dynamic_observer<val_t>> in; in.reserve(n);
        const auto d = rpp::composite_disposable_wrapper::make();
        t.on(outer.obs() | op::flat_map([&](int) { return src::create<val_t>([&](auto&& o) { o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up; })); in.push_back(std::move(o).as_dynamic()); }); }), d);
        for (int i = 0; i < n; ++i) { outer.ev(NEXT, i); sym_check(!t.term, "sources are still running"); }
        for (int i = 0; i < n; ++i) in[i].on_next(val_t{i});
        sym_check(t.n == n && t.last == n - 1, "every value of every source is delivered");
        outer.ev(DONE, 0);
        sym_check(!t.term && up == 0, "inner sources are still running");
        if (end == 0) d.dispose();
        else if (end == 1) in[n - 1].on_error(mkerr(1));
        else for (int i = 0; i < n; ++i) { sym_check(!t.term, "an inner source is still running"); in[i].on_completed(); }
        sym_check(t.term == (end == 0 ? 0 : end == 1 ? ERR : DONE) && up == n, "the end, and every source is released once");
        in.clear(); outer.o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}
