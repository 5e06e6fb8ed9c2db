//@ bound: every sequence of up to 4 operations (thorough: 5) from {add(i), remove(i), clear, dispose, dispose child i} over 3 children; dynamic and fixed-capacity containers; children held strongly or weakly; re-entrant child callbacks
#include "common.hpp"
using namespace h;
static const int N = THOROUGH ? 5 : 4;

template<class Composite>
static void model(int maxn, int cap)
{
    const uint64_t live = sym_heap_live();
    {
        int                     hits[3]{}, held[8], nheld = 0;
        bool                    dead[3]{};
        rpp::disposable_wrapper child[3]{rpp::disposable_wrapper::empty(), rpp::disposable_wrapper::empty(), rpp::disposable_wrapper::empty()};
        for (int i = 0; i < 3; ++i) child[i] = rpp::make_callback_disposable([&hits, i]() noexcept { ++hits[i]; });
        auto       c = rpp::composite_disposable_wrapper::make<Composite>();
        bool       disposed = false;
        int        expect[3]{};
        const bool weak = sym_bool("weak");
        auto       kill = [&](int i) { if (!dead[i]) { dead[i] = true; ++expect[i]; } };
        const int  n = (int)sym_concrete(sym_u64("n", 0, maxn));
        for (int s = 0; s < n; ++s)
        {
            const int o = (int)sym_concrete(sym_u64("op", 0, 10));
            if (o < 3)
            {
                bool threw = false;
                try { c.add(weak ? child[o].as_weak() : child[o]); } catch (const rpp::utils::more_disposables_than_expected&) { threw = true; }
                if (dead[o]) sym_check(!threw, "adding a disposed child must be a no-op");
                else if (disposed) { kill(o); sym_check(!threw, "add to a disposed composite must not throw"); }
                else if (nheld == cap) { sym_check(threw, "add beyond the fixed capacity must be reported"); }
                else { sym_check(!threw, "add within the capacity must not throw"); held[nheld++] = o; }
            }
            else if (o < 6)
            {
                c.remove(child[o - 3]);
                int m = 0;
                for (int i = 0; i < nheld; ++i) if (held[i] != o - 3) held[m++] = held[i];
                nheld = m;
            }
            else if (o == 6) { c.clear(); for (int i = 0; i < nheld; ++i) kill(held[i]); nheld = 0; }
            else if (o == 7) { c.dispose(); if (!disposed) { for (int i = 0; i < nheld; ++i) kill(held[i]); nheld = 0; } disposed = true; }
            else { child[o - 8].dispose(); kill(o - 8); }
            sym_check(c.is_disposed() == disposed, "composite is_disposed() wrong");
            for (int i = 0; i < 3; ++i) { sym_check(hits[i] == expect[i], "child disposed a wrong number of times"); sym_check(child[i].is_disposed() == dead[i], "child is_disposed() wrong"); }
            sym_log(hits[0] * 100 + hits[1] * 10 + hits[2]);
        }
        // destroying the last handle disposes what is still held
        const auto alias = c;
        c = rpp::composite_disposable_wrapper::empty();
        for (int i = 0; i < 3; ++i) sym_check(hits[i] == expect[i], "dropping one of two handles must not dispose");
        const_cast<rpp::composite_disposable_wrapper&>(alias) = rpp::composite_disposable_wrapper::empty();
        for (int i = 0; i < nheld; ++i) kill(held[i]);
        for (int i = 0; i < 3; ++i) sym_check(hits[i] == expect[i], "destroying the composite must dispose every held child exactly once");
        if (nheld >= 2) sym_cover("held");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_dynamic() { sym_want("held"); model<rpp::composite_disposable>(N, 1000); }
extern "C" void H_fixed2() { sym_want("held"); model<rpp::composite_disposable_impl<rpp::details::disposables::static_disposables_container<2>>>(N, 2); }
extern "C" void H_none() { model<rpp::composite_disposable_impl<rpp::details::disposables::none_disposables_container>>(3, 0); }

// a child whose callback calls back into the composite
extern "C" void H_reentrant()
{
    sym_want("clear"); sym_want("dispose");
    const uint64_t live = sym_heap_live();
    {
        int        hits[3]{};
        auto       c = rpp::composite_disposable_wrapper::make();
        const auto weak = c.as_weak();
        auto       late = rpp::make_callback_disposable([&]() noexcept { ++hits[1]; });
        const int  what = (int)sym_concrete(sym_u64("inner", 0, 4));
        const bool clear = sym_bool("clear");
        bool       seen = false;
        auto       other = rpp::make_callback_disposable([&]() noexcept { ++hits[2]; });
        const bool first = sym_bool("first");
        if (first) c.add(other);
        c.add(rpp::make_callback_disposable([&]() noexcept {
            ++hits[0];
            seen = weak.is_disposed();
            if (what == 0) weak.add(late);
            else if (what == 1) weak.remove(other);
            else if (what == 2) weak.clear();
            else if (what == 3) weak.dispose();
        }));
        if (!first) c.add(other);
        if (clear) c.clear(); else c.dispose();
        sym_check(hits[0] == 1, "child disposed exactly once");
        if (!clear) { sym_check(seen, "is_disposed() must already hold while children are disposed"); sym_check(hits[2] == 1, "the other child must be disposed"); }
        if (what == 0 && !clear) sym_check(hits[1] == 1, "a child added while disposing must be disposed at once");
        c.dispose();
        if (what == 0) sym_check(hits[1] == 1, "a child added while clearing must be disposed with the composite");
        sym_check(hits[0] == 1 && hits[2] <= 1, "child disposed at most once");
        sym_cover(clear ? "clear" : "dispose");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// removing the last handle of a child disposes the child; its callback calls back into the composite
template<class Composite> static void removed_last()
{
    sym_want("removed");
    const uint64_t live = sym_heap_live();
    {
        int        hits[3]{};
        auto       c = Composite::make();
        const auto weak = c.as_weak();
        auto       late = rpp::make_callback_disposable([&]() noexcept { ++hits[1]; });
        auto       other = rpp::make_callback_disposable([&]() noexcept { ++hits[2]; });
        const int  what = (int)sym_concrete(sym_u64("inner", 0, 4));
        const bool first = sym_bool("first"), twice = sym_bool("twice");
        bool       seen = true;
        if (first) c.add(other);
        auto child = rpp::make_callback_disposable([&]() noexcept {
            ++hits[0];
            seen = weak.is_disposed();
            if (what == 0) weak.add(late);
            else if (what == 1) weak.remove(other);
            else if (what == 2) weak.clear();
            else if (what == 3) weak.dispose();
        });
        c.add(child);
        if (twice) c.add(child);
        if (!first) c.add(other);
        const auto w = child.as_weak();
        child = rpp::disposable_wrapper::empty();
        c.remove(w);
        sym_cover("removed");
        sym_check(hits[0] == 1 && !seen, "a child whose last handle is removed is disposed once while the composite lives");
        sym_check(c.is_disposed() == (what == 3), "state of the composite");
        sym_check(hits[2] == (what == 2 || what == 3 ? 1 : 0), "the other child is left alone unless it was cleared");
        c.dispose();
        sym_check(hits[0] == 1 && hits[1] == (what == 0 ? 1 : 0) && hits[2] == (what == 1 ? 0 : 1), "the remaining children are disposed exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
template<class C> struct Made { static auto make() { return rpp::disposable_wrapper_impl<C>::make(); } };
extern "C" void H_removed_last() { removed_last<rpp::composite_disposable_wrapper>(); }
extern "C" void H_removed_last_static() { removed_last<Made<rpp::composite_disposable_impl<rpp::details::disposables::static_disposables_container<4>>>>(); }
// handles: weak handles, empty handles, equality
extern "C" void H_handles()
{
    int  hits = 0;
    auto a = rpp::make_callback_disposable([&]() noexcept { ++hits; });
    auto w = a.as_weak();
    auto e = rpp::disposable_wrapper::empty();
    sym_check(!a.is_disposed() && !w.is_disposed() && e.is_disposed(), "initial state of handles");
    sym_check(a == w && !(a == e), "handle equality");
    if (sym_bool("viaweak")) w.dispose();
    else if (sym_bool("drop")) a = rpp::disposable_wrapper::empty();
    else { e.dispose(); a.dispose(); a.dispose(); }
    sym_check(hits == 1, "the callback must run exactly once");
    sym_check(a.is_disposed() && w.is_disposed(), "handles must report the disposal");
    w.dispose();
    sym_check(hits == 1, "the callback must run exactly once");
}
