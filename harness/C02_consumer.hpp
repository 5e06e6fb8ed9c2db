// The final observer throws at a symbolic call, behind an arbitrary operator chain.
#pragma once
#include "pipes.hpp"
using namespace h;
template<class P>
static void consumer(P pipeline)
{
    sym_want("thrown"); sym_want("intact");
    const uint64_t live = sym_heap_live();
    {
        Script    s = Script::wellformed(3);
        const int at = (int)sym_concrete(sym_u64("at", 0, 3));
        int       calls = 0, up = 0, subs = 0;
        Rec       r;
        auto      src = rpp::source::create<int>([&](auto&& o) {
            if (++subs > 3) return;
            o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up; }));
            for (int i = 0; i < s.n; ++i)
            {
                emit(o, s.kind[i], s.val[i]);
                if (r.term && calls > at) sym_check(o.is_disposed(), "source still sees a live observer after the consumer threw");
            }
        });
        auto d = rpp::composite_disposable_wrapper::make();
        pipeline(src).subscribe(d, [&](int v) { if (calls++ == at) throw Err{7777}; r.on_next(v); }, [&](const std::exception_ptr& e) { r.on_error(e); }, [&] { r.on_completed(); });
        r.log();
        if (calls > at)
        {
            sym_check(calls == at + 1, "a value is delivered after the consumer threw");
            sym_check(r.n == at + 1 && r.errored() && r.val[at] == 7777, "an exception of the consumer must become its only terminal event");
            sym_check(d.is_disposed(), "subscription not disposed after the consumer threw");
            sym_check(up >= (subs > 3 ? 3 : subs), "source not released after the consumer threw");
            sym_cover("thrown");
        }
        else { sym_check(!r.errored() || r.val[r.n - 1] != 7777, "an error nobody raised"); sym_cover("intact"); }
        d.dispose();
        sym_check(up == (subs > 3 ? 3 : subs), "source not released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define BOOM(name, ...) extern "C" void H_consumer_##name() { consumer([](const auto& o) { return __VA_ARGS__; }); }
