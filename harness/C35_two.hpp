// Two subscriptions to one observable against each of them alone.
#pragma once
#define H_VALUE V
#include "pipes.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
namespace h
{
    static const int EV = THOROUGH ? 5 : 4;
    struct Ev { int who, kind, val; };
    struct Slots
    {
        Hot hot[2]; int cur = 0;
        auto obs() { return rpp::source::create<val_t>([this](auto&& ob) { Hot& x = hot[cur]; ++x.subs; x.finished = false; ob.set_upstream(rpp::make_callback_disposable([&x]() noexcept { ++x.up; })); x.o.emplace(std::move(ob).as_dynamic()); }); }
        void ev(const Ev& e) { cur = e.who; if (hot[cur].o && !hot[cur].finished) hot[cur].ev(e.kind, e.val); }
    };
    struct One { Rec r; int subs, up; };
    // only the subscription `who`, on its own observable
    template<class P> void alone(One& out, int who, const Ev* e, int n, P pipeline)
    {
        Slots s; s.cur = who;
        auto d = rpp::composite_disposable_wrapper::make();
        pipeline(s.obs()).subscribe(d, sink(out.r));
        for (int i = 0; i < n; ++i) if (e[i].who == who) s.ev(e[i]);
        out.subs = s.hot[who].subs; out.up = s.hot[who].up;
        d.dispose();
    }
    inline void equal(const Rec& a, const Rec& b, const char* w)
    {
        a.log();
        sym_check(a.n == b.n, w);
        for (int i = 0; i < a.n; ++i) { sym_check(a.kind[i] == b.kind[i], w); sym_check(a.val[i] == b.val[i], w); }
    }
    template<class P> void two(P pipeline)
    {
        sym_preempt(0);
        sym_want("interleaved"); sym_want("one after the other");
        const uint64_t live = sym_heap_live();
        {
            Ev e[6]; const int n = (int)sym_concrete(sym_u64("n", 1, EV));
            // how the second one is subscribed: 0 before all events, 1 in the middle, 2 to a copy, 3 from inside the first callback of the first one
            const int how = (int)sym_concrete(sym_u64("how", 0, 3)), mid = how == 1 ? (int)sym_concrete(sym_u64("mid", 1, n)) : 0;
            for (int i = 0; i < n; ++i)
            {
                e[i].who = i < mid ? 0 : (int)sym_concrete(sym_u64("who", 0, 1));
                e[i].kind = (int)sym_concrete(sym_u64("kind", 0, 2));
                e[i].val = any_int("v");
            }
            Slots s; Rec a, b;
            auto da = rpp::composite_disposable_wrapper::make(), db = rpp::composite_disposable_wrapper::make();
            auto o = pipeline(s.obs());
            bool second = false;
            auto go = [&](const auto& x) { second = true; s.cur = 1; x.subscribe(db, sink(b)); s.cur = 0; };
            if (how == 3) o.subscribe(da, [&](int v) { a.on_next(v); if (!second) { go(o); } }, [&](const std::exception_ptr& x) { a.on_error(x); }, [&] { a.on_completed(); });
            else o.subscribe(da, sink(a));
            if (how == 0) go(o);
            if (how == 2) { auto c = o; go(c); }
            bool skipped = false;
            int seen_b = 0;
            for (int i = 0; i < n; ++i)
            {
                if (i == mid && how == 1) go(o);
                if (e[i].who == 1 && !second) { skipped = true; break; }        // nobody is subscribed yet
                seen_b += e[i].who;
                s.ev(e[i]);
            }
            if (how == 1 && mid == n) go(o);
            if (!skipped)
            {
                One ra{}, rb{};
                alone(ra, 0, e, n, pipeline);
                equal(a, ra.r, "the first subscription is influenced by the second one");
                sym_check(s.hot[0].subs == ra.subs && s.hot[0].up == ra.up, "the first subscription uses its source differently because of the second one");
                if (second)
                {
                    alone(rb, 1, e, n, pipeline);
                    equal(b, rb.r, "the second subscription is influenced by the first one");
                    sym_check(s.hot[1].subs == rb.subs && s.hot[1].up == rb.up, "the second subscription uses its source differently because of the first one");
                    if (seen_b && how != 1) sym_cover("interleaved");
                    if (how == 1 && mid == n) sym_cover("one after the other");
                }
            }
            da.dispose(); db.dispose();
        }
        sym_check(sym_heap_live() == live, "leak");
    }
}
#define V(name, expr) extern "C" void H_##name() { two([](const auto& o) { return expr; }); }
#define SKIP(name, expr)
