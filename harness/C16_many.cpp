//@ bound: also 255..300 inner sources in a row
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_switch_many()
{
    const uint64_t live = sym_heap_live();
    {
        const int n = crowd(), end = (int)sym_concrete(sym_u64("end", 0, 2)), done = (int)sym_concrete(sym_u64("done", 0, 1));
        Hot outer; Tally t; int up = 0, got = 0;
        std::vector<rpp::dynamic_observer<val_t>> in; in.reserve(n);
        const auto d = rpp::composite_disposable_wrapper::make();
        t.on(outer.obs() | op::map([&](int) { return src::create<val_t>([&](auto&& o) { o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up; })); in.push_back(std::move(o).as_dynamic()); }); }) | op::switch_on_next(), d);
        for (int i = 0; i < n; ++i)
        {
            outer.ev(NEXT, i);
            sym_check((int)in.size() == i + 1 && up == i, "every source but the newest is released");
            in[i].on_next(val_t{i}); ++got;
            if (i) in[(i * 7) % i].on_next(val_t{-1});
            sym_check(t.n == got && t.last == i, "only the newest source is heard");
            if (done) { in[i].on_completed(); sym_check(up == i + 1 && !t.term, "the stream goes on until the outer source has ended too"); }
        }
        if (end == 0) d.dispose();
        else if (end == 1) outer.ev(ERR, 1);
        else { outer.ev(DONE, 0); if (!done) { sym_check(!t.term, "the newest source is still running"); in[n - 1].on_completed(); } }
        sym_check(t.term == (end == 0 ? 0 : end == 1 ? ERR : DONE) && up == n, "the end, and every source is released once");
        in.clear(); outer.o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}
