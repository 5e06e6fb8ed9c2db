// Chains of two operators: the static chain against the same chain with everything type-erased in between.
#pragma once
#include "C33_forms.hpp"
namespace h
{
    using DO = rpp::dynamic_observable<int>;
    template<class X, class Y> void pair(X x, Y y)
    {
        const uint64_t live = sym_heap_live();
        {
            Case c{};
            c.n = (int)sym_concrete(sym_u64("n", 0, 2));
            for (int i = 0; i < c.n; ++i) c.v[i] = i + 2;
            c.term = (int)sym_concrete(sym_u64("term", 0, 2));
            c.outside = (int)sym_concrete(sym_u64("outside", 0, 1));
            auto chain = [&](auto&& o) { return y(x(o)); };
            auto erased = [&](const DO& o) { DO a = x(o).as_dynamic(); DO b = y(a).as_dynamic(); return b; };
            Shot a, b;
            if (c.outside || !THOROUGH) { shoot<RETURNED_DYNAMIC, SUBJECT, true>(a, c, erased); shoot<RETURNED, SUBJECT, false>(b, c, chain); }
            else { shoot<RETURNED_DYNAMIC, SUBJECT, true>(a, c, erased); shoot<PLAIN, SUBJECT, false>(b, c, chain); }
            equal(a, b, true, "the chain of two operators delivers other events than the type-erased chain");
            sym_check(a.alive == 0 && b.alive == 0, "leak");
            if (a.r.nexts()) sym_cover("values");
        }
        sym_check(sym_heap_live() == live, "leak");
    }
    template<class X, class... Ys> void row(X x, Ys... ys)
    {
        sym_preempt(0);
        const int which = (int)sym_concrete(sym_u64("second", 0, sizeof...(ys) - 1));
        int i = 0;
        ((i++ == which ? pair(x, ys) : void()), ...);
    }
    constexpr auto imm = rpp::schedulers::immediate{};
    using D0 = rpp::schedulers::duration;
}
#define OP(expr) [](const auto& o) { return expr; }
#define MAP OP(o | op::map([](int v) { return v ^ 1; }))
#define TAKE OP(o | op::take(1))
#define FINALLY OP(o | op::finally([]() noexcept {}))
#define DEBOUNCE OP(o | op::debounce(D0{0}, imm))
#define DELAY OP(o | op::delay(D0{0}, imm))
#define OBSERVE OP(o | op::observe_on(imm))
#define SUBSCRIBE OP(o | op::subscribe_on(imm))
#define TIMEOUT OP(o | op::timeout(std::chrono::hours{1}, src::just(imm, 9), rpp::schedulers::current_thread{}))
#define MERGE OP(o | op::merge_with(src::just(imm, 5)))
#define FLAT OP(o | op::flat_map([](int v) { return src::just(imm, v, v); }))
#define CONCAT OP(o | op::map([](int v) { return src::just(imm, v); }) | op::concat())
#define SWITCH OP(o | op::map([](int v) { return src::just(imm, v); }) | op::switch_on_next())
#define REPEAT OP(o | op::take(1) | op::repeat(2))
#define RETRY OP(o | op::retry(1))
#define RETRYW OP(o | op::retry_when([](const std::exception_ptr&) { return src::empty<int>(); }))
#define RESUME OP(o | op::on_error_resume_next([](const std::exception_ptr&) { return src::just(imm, 1, 2); }))
#define UNTIL OP(o | op::take_until(src::never<int>()))
#define WINDOW OP(o | op::window(2) | op::merge())
#define TOGGLE OP(o | op::window_toggle(src::just(imm, 8), [](int) { return src::never<int>(); }) | op::merge())
#define GROUP OP(o | op::group_by([](int v) { return v & 1; }) | op::merge())
#define COMBINE OP(o | op::combine_latest([](int a, int) { return a; }, src::just(imm, 8)))
#define WITH OP(o | op::with_latest_from([](int a, int) { return a; }, src::just(imm, 8)))
#define ZIP OP(o | op::zip([](int a, int) { return a; }, src::just(imm, 1, 2, 3)))
#define START OP(o | op::start_with(imm, 8))
#define REFC OP(o | op::publish() | op::ref_count())
#define ROW(name, x, ...) extern "C" void H_pair_##name() { sym_want("values"); row(x, __VA_ARGS__); }
#if THOROUGH
#define YS MAP, TAKE, FINALLY, DEBOUNCE, DELAY, OBSERVE, SUBSCRIBE, MERGE, FLAT, CONCAT, SWITCH, REPEAT, RETRY, RESUME, UNTIL, WINDOW, TOGGLE, GROUP, COMBINE, WITH, ZIP, START, REFC
#else
#define YS FINALLY, DEBOUNCE, FLAT, TAKE
#endif
