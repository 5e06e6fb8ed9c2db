// The same pipeline in different static forms: type-erased or not, and subscribed in different ways.
#pragma once
#include "pipes.hpp"
namespace h
{
    struct Shot      // everything observable about one run
    {
        Rec r; int alive_after = 0, mid[6]{}, m = 0; bool handle = false; std::atomic<int> alive{0};
        void probe() { mid[m++] = alive.load() * 100 + r.n; }
    };
    struct Lives { std::atomic<int>* n; explicit Lives(std::atomic<int>* p) : n{p} { ++*n; } Lives(const Lives& o) : n{o.n} { ++*n; } ~Lives() { --*n; } };
    struct Case { int n, v[3], term, stop, outside, source; };
    inline Case any_case(int maxn = 2)
    {
        Case c{};
        c.n = (int)sym_concrete(sym_u64("n", 0, maxn));
        for (int i = 0; i < c.n; ++i) c.v[i] = any_int("v");
        c.term = (int)sym_concrete(sym_u64("term", 0, 2));
        c.stop = (int)sym_concrete(sym_u64("stop", 0, 2));          // dispose from inside after this many values (0: never)
        c.outside = (int)sym_concrete(sym_u64("outside", 0, 1));    // dispose from outside before the termination
        return c;
    }
    using W = rpp::composite_disposable_wrapper;
    struct custom      // a plain strategy without its own disposable
    {
        Rec* r;
        void on_next(int v) const { r->on_next(v); }
        void on_error(const std::exception_ptr& e) const { r->on_error(e); }
        void on_completed() const { r->on_completed(); }
        static void set_upstream(const rpp::disposable_wrapper&) {}
        static bool is_disposed() { return false; }
    };
    // forms 0..: how the consumer is attached
    enum Form { PLAIN, RETURNED, GIVEN, STRATEGY, DYNAMIC, VIA_OP, RETURNED_DYNAMIC, RETURNED_OBSERVER };
    template<Form F, class O> W attach(const O& o, Shot& s, const Case& c)
    {
        auto h = std::make_shared<W>(W::empty());
        auto next = [&s, &c, h](int v) { s.r.on_next(v); if (c.stop && s.r.nexts() == c.stop) h->dispose(); };
        auto err = [&s](const std::exception_ptr& e) { s.r.on_error(e); };
        auto done = [&s] { s.r.on_completed(); };
        if constexpr (F == PLAIN) o.subscribe(next, err, done);
        else if constexpr (F == RETURNED) *h = o.subscribe_with_disposable(next, err, done);
        else if constexpr (F == GIVEN) { *h = W::make(); auto x = o.subscribe(*h, next, err, done); sym_check(x == *h, "subscribe(disposable, ...) returns the disposable"); }
        else if constexpr (F == STRATEGY) o.subscribe(custom{&s.r});
        else if constexpr (F == DYNAMIC) { *h = W::make(); o.subscribe(rpp::make_lambda_observer<int>(*h, next, err, done).as_dynamic()); }
        else if constexpr (F == VIA_OP) { *h = W::make(); o | op::subscribe(*h, next, err, done); }
        else if constexpr (F == RETURNED_DYNAMIC) *h = o.subscribe_with_disposable(rpp::make_lambda_observer<int>(next, err, done).as_dynamic());
        else *h = o.subscribe_with_disposable(rpp::make_lambda_observer<int>(next, err, done));
        W res = *h;
        return res;
    }
    enum Source { CREATE, SUBJECT, JUST };
    // builds the source, attaches the consumer and runs the case; P: pipeline over the (possibly type-erased) source
    template<Form F, Source S, bool Dyn, class P> void shoot(Shot& s, const Case& c, P pipeline)
    {
        auto id = [&](auto o) { if constexpr (Dyn) return o.as_dynamic(); else return o; };
        auto keep = op::map([k = Lives{&s.alive}](int v) { return v; });
        if constexpr (S == JUST)
        {
            W d = W::empty();
            if (c.n == 0) d = attach<F>(pipeline(id(src::from_iterable(std::vector<int>{}, rpp::schedulers::immediate{}) | keep)), s, c);
            else d = attach<F>(pipeline(id(src::from_iterable(std::vector<int>(c.v, c.v + c.n), rpp::schedulers::immediate{}) | keep)), s, c);
            s.probe();
            if (c.outside) d.dispose();
        }
        else
        {
            auto play = [&](const auto& o, auto dispose) {
                for (int i = 0; i < c.n; ++i) { o.on_next(c.v[i]); s.probe(); }
                if (c.outside) { dispose(); s.probe(); }
                if (c.term == ERR) o.on_error(mkerr(4)); else if (c.term == DONE) o.on_completed();
                s.probe();
            };
            if constexpr (S == SUBJECT)
            {
                rpp::subjects::publish_subject<int> subj{};
                W d = attach<F>(pipeline(id(subj.get_observable() | keep)), s, c);
                s.handle = d.is_disposed();
                play(subj.get_observer(), [&] { d.dispose(); });
                s.handle = d.is_disposed();
                subj.get_disposable().dispose();
            }
            else
            {
                std::optional<rpp::dynamic_observer<int>> hold; int subs = 0;
                W d = attach<F>(pipeline(id(src::create<int>([&](auto&& o) { if (subs++) { o.on_completed(); return; } hold.emplace(std::move(o).as_dynamic()); }) | keep)), s, c);
                if (hold)
                {
                    auto cur = *hold;
                    play(cur, [&] { d.dispose(); });
                    s.mid[s.m++] = cur.is_disposed();
                }
                else s.m = -1;      // left during the subscription: whether the source is still asked is not specified
                hold.reset();
                s.handle = d.is_disposed();
            }
        }
    }
    inline void equal(const Shot& a, const Shot& b, bool lives, const char* w)
    {
        a.r.log();
        sym_check(a.r.n == b.r.n, w);
        for (int i = 0; i < a.r.n; ++i) { sym_check(a.r.kind[i] == b.r.kind[i], w); sym_check(a.r.val[i] == b.r.val[i], w); }
        if (a.m < 0 || b.m < 0) return;
        sym_check(a.m == b.m, w);
        for (int i = 0; i < a.m; ++i) sym_check(lives ? (a.mid[i] >= 100) == (b.mid[i] >= 100) && a.mid[i] % 100 == b.mid[i] % 100 : a.mid[i] % 100 == b.mid[i] % 100, "the forms differ in when the source is released");
    }
    // everything type-erased, against everything static
    template<bool All, class P> void forms(P pipeline)
    {
        sym_preempt(0);
        const uint64_t live = sym_heap_live();
        {
            Case c = any_case();
            const int which = (int)sym_concrete(sym_u64("form", 0, All ? 10 : 4));
            auto erased = [&](const auto& o) { return pipeline(o).as_dynamic(); };
            Shot a, b;
            // plain callbacks and strategies have no handle: nothing to dispose
            if (which < 2 || which > 8) { c.stop = 0; c.outside = 0; }
            // a returned handle exists only after the subscription: its erased counterpart is a returned handle, too
            if (which == 0) { shoot<DYNAMIC, SUBJECT, true>(a, c, erased); shoot<PLAIN, SUBJECT, false>(b, c, pipeline); }
            if (which == 1) { shoot<DYNAMIC, CREATE, true>(a, c, erased); shoot<STRATEGY, CREATE, false>(b, c, pipeline); }
            if (which == 2) { shoot<RETURNED_DYNAMIC, JUST, true>(a, c, erased); shoot<RETURNED, JUST, false>(b, c, pipeline); }
            if (which == 3) { shoot<RETURNED_DYNAMIC, SUBJECT, true>(a, c, erased); shoot<RETURNED, SUBJECT, false>(b, c, pipeline); }
            if (which == 4) { shoot<DYNAMIC, CREATE, true>(a, c, erased); shoot<GIVEN, CREATE, false>(b, c, pipeline); }
            if constexpr (All)
            {
                if (which == 5) { shoot<DYNAMIC, SUBJECT, true>(a, c, erased); shoot<VIA_OP, SUBJECT, false>(b, c, pipeline); }
                if (which == 6) { shoot<RETURNED_DYNAMIC, CREATE, true>(a, c, erased); shoot<RETURNED_OBSERVER, CREATE, true>(b, c, pipeline); }
                if (which == 7) { shoot<RETURNED_DYNAMIC, SUBJECT, true>(a, c, erased); shoot<RETURNED_OBSERVER, SUBJECT, false>(b, c, pipeline); }
                if (which == 8) { shoot<DYNAMIC, CREATE, true>(a, c, erased); shoot<DYNAMIC, CREATE, false>(b, c, pipeline); }
                if (which == 9) { shoot<DYNAMIC, JUST, true>(a, c, erased); shoot<PLAIN, JUST, false>(b, c, pipeline); }
                if (which == 10) { shoot<DYNAMIC, CREATE, true>(a, c, erased); shoot<PLAIN, CREATE, false>(b, c, pipeline); }
            }
            equal(a, b, true, "the type-erased pipeline and the static one deliver different events");
            sym_check(a.alive == 0 && b.alive == 0, "leak");
            if (a.r.nexts()) sym_cover("values");
        }
        sym_check(sym_heap_live() == live, "leak");
    }
}
#define V(name, expr) extern "C" void H_##name() { sym_want("values"); forms<THOROUGH>([](const auto& o) { return expr; }); }
#define VA(name, expr) extern "C" void H_all_##name() { sym_want("values"); forms<true>([](const auto& o) { return expr; }); }
