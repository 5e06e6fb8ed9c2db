// Two threads subscribe to one cold observable at the same time; each has to see what it would see alone.
#pragma once
#include "pipes.hpp"
namespace h
{
    inline thread_local int tl_base = 0;
    template<class P> void both_threads(P pipeline)
    {
        sym_want("both");
        const uint64_t live = sym_heap_live();
        {
            const int n = (int)sym_concrete(sym_u64("n", 0, 2)), term = (int)sym_concrete(sym_u64("term", 0, 2));
            auto source = [&] { return src::create<val_t>([n, term](auto&& o) {
                const int b = tl_base;
                o.set_upstream(rpp::make_callback_disposable([]() noexcept {}));
                for (int i = 0; i < n; ++i) o.on_next(val_t{b + i});
                if (term == ERR) o.on_error(mkerr(b)); else if (term == DONE) o.on_completed();
            }); };
            auto run = [](const auto& o, int base, Rec& r) {
                tl_base = base;
                const auto d = rpp::composite_disposable_wrapper::make();
                o.subscribe(d, sink(r));
                d.dispose();
            };
            Rec want[2], got[2];
            for (int i = 0; i < 2; ++i) run(pipeline(source()), 100 * (i + 1), want[i]);
            {
                const auto o = pipeline(source());
                std::thread t{[&] { run(o, 200, got[1]); }};
                run(o, 100, got[0]);
                t.join();
            }
            for (int i = 0; i < 2; ++i)
            {
                sym_check(got[i].n == want[i].n, "two threads subscribed to one cold observable see each other");
                for (int k = 0; k < got[i].n; ++k) sym_check(got[i].kind[k] == want[i].kind[k] && got[i].val[k] == want[i].val[k], "two threads subscribed to one cold observable see each other");
            }
            sym_cover("both");
        }
        sym_check(sym_heap_live() == live, "leak");
    }
}
#define VT(name, expr) extern "C" void H_t_##name() { both_threads([](const auto& o) { return expr; }); }
