// Disposal from another thread while the source is emitting.
#pragma once
#include "pipes.hpp"
using namespace h;
template<class F>
static void threads(F&& pipeline)
{
    const uint64_t live = sym_heap_live();
    {
        Rec r;
        std::atomic<int> up{0}, subs{0};
        std::atomic<bool> gone{false};
        bool late = false, cut = false;            // only the emitting thread touches these
        std::optional<rpp::dynamic_observer<int>> o;
        auto d = rpp::composite_disposable_wrapper::make();
        auto source = rpp::source::create<int>([&](auto&& ob) {
            ++subs;
            ob.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; }));
            o.emplace(std::move(ob).as_dynamic());
        });
        auto hit = [&] { sym_check(!late, "an event emitted after dispose() had returned was delivered"); };
        pipeline(source).subscribe(d, [&](int v) { hit(); r.on_next(v); }, [&](const std::exception_ptr& e) { hit(); r.on_error(e); }, [&] { hit(); r.on_completed(); });
        const int term = (int)sym_concrete(sym_u64("term", 0, 2));
        std::thread emitter{[&] {
            for (int i = 0; i < 2 + (term != 0); ++i)
            {
                late = gone.load();
                if (late) cut = true;
                if (auto c = o) { emit(*c, i < 2 ? NEXT : term, i + 1); if (late) sym_check(c->is_disposed(), "the source must see is_disposed() after dispose()"); }
            }
        }};
        d.dispose();
        gone.store(true);
        emitter.join();
        r.log();
        sym_check(up.load() == subs.load(), "every source must be released exactly once after a concurrent dispose()");
        if (cut) sym_cover("cut");
        if (r.n) sym_cover("delivered before");
        o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define T(name, expr) extern "C" void H_threads_##name() { threads([](const auto& o) { return expr; }); }
