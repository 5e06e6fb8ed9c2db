//@ bound: every int operator chain of pipes.hpp alone and followed by take(1)/take(2), operators with several sources (outer, two inner or secondary ones) alone and followed by take(1)/take(2); up to 4 (thorough: 5) events of arbitrary kind, order and value, sources that ignore the end of the stream
//@ preempt: 0
//@ time: 500
#include "pipes.hpp"
using namespace h;
static const int N = THOROUGH ? 5 : 4;
// A single source through a chain: whenever the observer has its terminal event, or the source has finished, the subscription
// to the source is released, exactly once.
template<class F>
static void chain(F&& pipeline)
{
    sym_want("ended");
    const uint64_t live = sym_heap_live();
    {
        Hot hot; Rec r;
        auto d = rpp::composite_disposable_wrapper::make();
        const int limit = (int)sym_concrete(sym_u64("take", 0, 2));
        if (limit) (pipeline(hot.obs()) | op::take(limit)).subscribe(d, sink(r)); else pipeline(hot.obs()).subscribe(d, sink(r));
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        int  fin = 0;       // subscriptions which the source has finished
        auto look = [&] {
            sym_check(hot.up <= hot.subs, "a subscription to the source was released more than once");
            sym_check(hot.up >= fin, "a finished source must be released");
            if (r.term)
            {
                sym_check(hot.up == hot.subs, "the source must be released when the stream has ended");
                sym_check(d.is_disposed(), "the subscription must be disposed when the stream has ended");
                if (hot.o) sym_check(hot.o->is_disposed(), "the source must see that the stream has ended");
                sym_cover("ended");
            }
        };
        look();
        for (int i = 0; i < n; ++i)
        {
            if (!hot.o) break;
            const int kind = (int)sym_concrete(sym_u64("k", 0, 2)), val = any_int("v"), before = hot.subs;
            const bool was = hot.finished;
            hot.ev(kind, val);
            if (kind != NEXT && !was) fin = before;
            look();
        }
        r.log();
        d.dispose();
        sym_check(hot.up == hot.subs, "every subscription to the source must be released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define X(n, e) extern "C" void H_##n() { chain([](const auto& o) { return e; }); }
PIPES_C(X) PIPES_D(X)
#undef X
