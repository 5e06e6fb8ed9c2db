// The same pipeline over other value types than int must do the same: bool (vector<bool> is not a vector), a type which can only be
// moved, and one which cannot be assigned or default constructed.
#pragma once
#include "common.hpp"
namespace h
{
    namespace op = rpp::operators;
    namespace src = rpp::source;
    inline constexpr auto imm = rpp::schedulers::immediate{};
    struct Moved { int v; explicit Moved(int x) : v{x} {} Moved(Moved&& o) noexcept : v{o.v} { o.v = -7777; } Moved& operator=(Moved&& o) noexcept { v = o.v; if (this != &o) o.v = -7777; return *this; } explicit operator int() const { return v; } };
    struct Fixed { const int v; explicit Fixed(int x) : v{x} {} explicit operator int() const { return v; } };
    struct Plain { int v; explicit Plain(int x) : v{x} {} explicit operator int() const { return v; } bool operator==(const Plain&) const = default; };
    template<class T> T make(int v) { if constexpr (std::is_same_v<T, bool>) return v & 1; else return T{v & 1}; }
    template<class T> int take(T&& v) { return (int)v; }
    template<class T> struct Src
    {
        Script s; std::optional<rpp::dynamic_observer<T>> hot;
        void play(const auto& o) const { for (int i = 0; i < s.n; ++i) { if (s.kind[i] == NEXT) o.on_next(make<T>(s.val[i])); else if (s.kind[i] == ERR) o.on_error(mkerr(s.val[i] & 1023)); else o.on_completed(); } }
        auto obs() { return rpp::source::create<T>([this](auto&& o) { play(o); }); }
    };
    template<class T, class P> void run_as(const Script& s, const P& p, Rec& r)
    {
        Src<T> x{s, {}};
        p.template operator()<T>(x.obs(), [&r](const auto& o) { o.subscribe([&r](const auto& v) {
            if constexpr (requires { v.size(); }) { r.on_next(1000 + (int)v.size()); for (size_t i = 0; i < v.size(); ++i) r.on_next((int)v[i]); }
            else r.on_next((int)v); }, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); }); });
    }
    template<class... T, class P> void same_for(const P& p)
    {
        sym_want("values");
        const Script s = Script::wellformed(THOROUGH ? 5 : 4);
        Rec a; run_as<int>(s, p, a);
        if (a.n > 1) sym_cover("values");
        const uint64_t live = sym_heap_live();
        ([&] {
            Rec b; run_as<T>(s, p, b);
            sym_check(a.n == b.n, "the operator does something else for another value type");
            for (int i = 0; i < a.n; ++i) { sym_check(a.kind[i] == b.kind[i], "the operator does something else for another value type"); sym_check(a.val[i] == b.val[i], "the operator delivers something else for another value type"); }
        }(), ...);
        sym_check(sym_heap_live() == live, "leak");
        a.log();
    }
} // namespace h
#define TYPES(name, types, ...) extern "C" void H_types_##name() { const int n = (int)sym_concrete(sym_u64("n_arg", 0, 3)); (void)n; h::same_for<H_UNPACK types>([&]<class T>(auto o, auto go) { __VA_ARGS__; }); }
#define H_UNPACK(...) __VA_ARGS__
#define H_ALL (bool, Moved, Fixed, Plain)
#define H_ASG (bool, Moved, Plain)
#define H_CPY (bool, Fixed, Plain)
