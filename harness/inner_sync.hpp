// Sources which play a whole script while they are subscribed - also one which goes on after its own end.
#pragma once
#include "common.hpp"
namespace h
{
    enum How { ONE_AFTER_ANOTHER, ALL_AT_ONCE, NEWEST };
    struct Played
    {
        Script s; int subs = 0, up = 0;
        auto obs() { return rpp::source::create<val_t>([this](auto&& o) { ++subs; o.set_upstream(rpp::make_callback_disposable([this]() noexcept { ++up; })); for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); }); }
    };
    // `go(played)` builds the stream of the 2 inner sources; `outer` is how the stream of sources itself ends (NEXT: it does not)
    template<class Go> void inner_sync(How how, int outer, const char* what, Go&& go)
    {
        sym_want("after the end");
        const uint64_t live = sym_heap_live();
        {
            Played p[2]; Exp e; Rec r;
            bool waiting = false; int ended = 0, subs = 0;
            for (auto& x : p)
            {
                x.s = Script::any(THOROUGH ? 3 : 2, true);
                if (x.s.n > x.s.legal) sym_cover("after the end");
            }
            for (auto& x : p)
            {
                if (e.terminated() || (how == ONE_AFTER_ANOTHER && waiting)) continue;
                ++subs; waiting = true;
                for (int i = 0; i < x.s.legal; ++i) { if (x.s.kind[i] == NEXT) e.next(x.s.val[i]); else if (x.s.kind[i] == ERR) { e.error(x.s.val[i] & 1023); break; } else { waiting = false; ++ended; } }
            }
            if (!e.terminated())
            {
                if (outer == ERR) e.error(5);
                else if (outer == DONE && (how == ALL_AT_ONCE ? ended == 2 : !waiting)) e.done();
            }
            {
                const auto d = rpp::composite_disposable_wrapper::make();
                go(p, d, r);
                e.check(r, what);
                sym_check(p[0].subs + p[1].subs == subs, "the wrong number of sources was subscribed");
                d.dispose();
            }
            for (auto& x : p) sym_check(x.up == x.subs, "a source is released exactly once");
        }
        sym_check(sym_heap_live() == live, "leak");
    }
    inline int outer_end() { return (int)sym_concrete(sym_u64("outer", 0, 2)); }
    template<class Join> void inner_sync_op(How how, Join join, const char* what)
    {
        const int outer = outer_end();
        inner_sync(how, outer, what, [&](Played* p, const auto& d, Rec& r) {
            int k = 0;
            auto src = rpp::source::create<val_t>([&](auto&& o) { o.on_next(val_t{0}); o.on_next(val_t{1}); if (outer) emit(o, outer, 5); });
            (src | rpp::operators::map([p, &k](int) { return p[k++].obs(); }) | join).subscribe(d, sink(r));
        });
    }
} // namespace h
