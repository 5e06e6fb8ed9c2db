#include "pipes.hpp"
using namespace h;
static const int N = THOROUGH ? 5 : 4;
// The observer disposes its subscription inside its at-th on_next; afterwards the source, which ignores is_disposed(), goes
// on emitting arbitrary events.
template<class F>
static void inside(F&& pipeline)
{
    sym_want("disposed inside");
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::any(N, true);
        Rec r;
        int up = 0, subs = 0;
        auto d = rpp::composite_disposable_wrapper::make();
        bool gone = false;
        const int at = (int)sym_concrete(sym_u64("at", 0, 2)), how = (int)sym_concrete(sym_u64("how", 0, 1));
        auto source = rpp::source::create<int>([&](auto&& o) {
            ++subs;
            o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; }));
            for (int i = 0; i < s.n; ++i)
            {
                emit(o, s.kind[i], s.val[i]);
                if (gone) sym_check(o.is_disposed(), "the source must see is_disposed() once the subscription is disposed");
            }
        });
        auto on_next = [&](int v) {
            sym_check(!gone, "value delivered after dispose()");
            r.on_next(v);
            if (r.nexts() == at + 1)
            {
                d.dispose();
                gone = true;
                sym_check(d.is_disposed(), "is_disposed() after dispose()");
                sym_check(up == subs, "the source must be released when dispose() returns");
                sym_cover("disposed inside");
            }
        };
        auto on_error = [&](const std::exception_ptr& e) { sym_check(!gone, "error delivered after dispose()"); r.on_error(e); };
        auto on_done = [&] { sym_check(!gone, "completion delivered after dispose()"); r.on_completed(); };
        if (how == 0) pipeline(source).subscribe(d, on_next, on_error, on_done);
        else pipeline(source).subscribe(d, rpp::make_lambda_observer<int>(on_next, on_error, on_done).as_dynamic());
        r.log();
        d.dispose();
        sym_check(up == subs, "every subscription to the source must be released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// disposal from outside between two events of a source that keeps emitting
template<class F>
static void between(F&& pipeline)
{
    const uint64_t live = sym_heap_live();
    {
        Hot hot;
        Rec r;
        auto d = rpp::composite_disposable_wrapper::make();
        pipeline(hot.obs()).subscribe(d, sink(r));
        const int n = (int)sym_concrete(sym_u64("n", 1, N)), at = (int)sym_concrete(sym_u64("at", 0, N));
        int seen = -1;
        for (int i = 0; i < n; ++i)
        {
            if (i == at) { d.dispose(); seen = r.n; sym_check(hot.up == hot.subs, "the source must be released when dispose() returns"); sym_check(!hot.o || hot.o->is_disposed(), "the source must see is_disposed()"); }
            hot.ev((int)sym_concrete(sym_u64("k", 0, 2)), any_int("v"));
            if (seen >= 0) sym_check(r.n == seen, "notification delivered after dispose()");
        }
        r.log();
        d.dispose();
        sym_check(hot.up == hot.subs, "the source must be released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define X(name, expr) extern "C" void H_inside_##name() { inside([](const auto& o) { return expr; }); } extern "C" void H_between_##name() { between([](const auto& o) { return expr; }); }
