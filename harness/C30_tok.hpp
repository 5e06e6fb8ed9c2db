// A value type which knows whether it was moved from.
#pragma once
#include "common.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
namespace h
{
    struct Tok
    {
        int v; uint8_t st;      // 1 intact, 2 moved from, 3 destroyed
        explicit Tok(int x) : v{x}, st{1} {}
        Tok(const Tok& o) : v{o.v}, st{o.st} { sym_check(o.st != 3, "a destroyed value was copied"); }
        Tok(Tok&& o) noexcept : v{o.v}, st{o.st} { sym_check(o.st != 3, "a destroyed value was moved"); if (o.st == 1) { o.st = 2; o.v = -77777; } }
        Tok& operator=(const Tok& o) { sym_check(o.st != 3, "a destroyed value was copied"); v = o.v; st = o.st; return *this; }
        Tok& operator=(Tok&& o) noexcept { sym_check(o.st != 3, "a destroyed value was moved"); if (this != &o) { v = o.v; st = o.st; if (o.st == 1) { o.st = 2; o.v = -77777; } } return *this; }
        ~Tok() { st = 3; }
    };
    inline int get(const Tok& t) { sym_check(t.st == 1, "a consumer received a moved-from value"); return t.v; }
    inline int get(int v) { return v; }
    inline bool operator==(const Tok& a, const Tok& b) { return get(a) == get(b); }
    template<class T> T mk(int v) { return T(v); }
    // consumers: one which takes the value and moves from it, one which looks at it
    template<class T> auto eater(Rec& r) { return rpp::make_lambda_observer<T>([&r](T v) { r.on_next(get(v)); T w = std::move(v); (void)w; }, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); }); }
    template<class T> auto looker(Rec& r) { return rpp::make_lambda_observer<T>([&r](const T& v) { r.on_next(get(v)); }, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); }); }
    template<class T, class O> void give(const O& o, int kind, int val, bool rvalue)
    {
        if (kind == ERR) o.on_error(mkerr(val & 1023));
        else if (kind == DONE) o.on_completed();
        else if (rvalue) o.on_next(mk<T>(val));
        else
        {
            T x = mk<T>(val);
            o.on_next(x);
            sym_check(get(x) == val, "a value passed as an lvalue was modified");
        }
    }
    struct Plan
    {
        int n, val[4]; bool rv[4]; int term, hot;
        static Plan any(int lo, int hi)
        {
            Plan p{};
            p.n = (int)sym_concrete(sym_u64("n", lo, hi));
            for (int i = 0; i < p.n; ++i) { p.val[i] = any_int("v"); p.rv[i] = sym_concrete(sym_u64("rvalue", 0, 1)); }
            p.term = (int)sym_concrete(sym_u64("term", 0, 2));
            p.hot = (int)sym_concrete(sym_u64("hot", 0, 1));
            return p;
        }
        template<class T, class O> void play(const O& o) const
        {
            for (int i = 0; i < n; ++i) give<T>(o, NEXT, val[i], rv[i]);
            if (term) give<T>(o, term, 7, false);
        }
    };
    struct Out { Rec a, b, c; };
    using TS = rpp::schedulers::test_scheduler;
    // few instantiations per pipeline: over Tok with a static subject and static consumers and with a static source and
    // dynamic consumers, over int with everything dynamic
    template<class T, class F> void run(Out& out, const Plan& p, F f)
    {
        TS ts{};
        if (p.hot)
        {
            rpp::subjects::publish_subject<T> s{};
            const auto d = rpp::composite_disposable_wrapper::make();
            if constexpr (std::is_same_v<T, int>)
            {
                auto o = f.template operator()<T>(s.get_observable().as_dynamic(), ts);
                for (auto* r : {&out.a, &out.b, &out.c}) o.subscribe(d, looker<T>(*r).as_dynamic());
            }
            else
            {
                auto o = f.template operator()<T>(s.get_observable(), ts);
                for (auto* r : {&out.a, &out.b, &out.c}) o.subscribe(d, eater<T>(*r));
            }
            p.play<T>(s.get_observer());
            ts.time_advance(std::chrono::seconds{1000});
            d.dispose();
        }
        else
        {
            auto src = rpp::source::create<T>([&p](auto&& o) { p.play<T>(o); });
            auto go = [&](auto x) {
                auto o = f.template operator()<T>(x, ts);
                o.subscribe(eater<T>(out.a).as_dynamic());
                ts.time_advance(std::chrono::seconds{1000});
                o.subscribe(looker<T>(out.b).as_dynamic());
                auto c = o;
                c.subscribe(eater<T>(out.c).as_dynamic());
                ts.time_advance(std::chrono::seconds{1000});
            };
            if constexpr (std::is_same_v<T, int>) go(src.as_dynamic()); else go(src);
        }
    }
    inline void same(const Rec& a, const Rec& b, const char* what)
    {
        a.log();
        sym_check(a.n == b.n, what);
        for (int i = 0; i < a.n; ++i) { sym_check(a.kind[i] == b.kind[i], what); sym_check(a.val[i] == b.val[i], what); }
    }
    // the same pipeline over Tok and over int has to produce the same values, for every consumer
    template<class F> void both(F f, int lo = 0, int hi = THOROUGH ? 4 : 3)
    {
        sym_preempt(0);
        const uint64_t live = sym_heap_live();
        {
            const Plan p = Plan::any(lo, hi);
            Out x, y;
            run<Tok>(x, p, f);
            run<int>(y, p, f);
            same(x.a, y.a, "the values differ from those of a copyable type"); same(x.b, y.b, "the values differ from those of a copyable type"); same(x.c, y.c, "the values differ from those of a copyable type");
            if (x.a.nexts()) sym_cover("values");
        }
        sym_check(sym_heap_live() == live, "leak");
    }
}
template<> struct std::hash<h::Tok> { size_t operator()(const h::Tok& t) const noexcept { return std::hash<int>{}(h::get(t)); } };
namespace h { namespace op = rpp::operators; namespace src = rpp::source; inline constexpr auto imm = rpp::schedulers::immediate{}; }
#define F(expr) []<class T>(const auto& o, const TS& ts) { (void)ts; return expr; }
#define H(name, expr) extern "C" void H_##name() { sym_want("values"); both(F((expr))); }
