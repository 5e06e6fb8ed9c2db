//@ bound: every sequence of up to 5 operations (thorough: 6) from {add by lvalue/rvalue, remove, clear, dispose} on fixed containers of 1 and 3 with 2 children (so the same child several times); handles to composites that are empty, weak and gone, or typed; self-addition
#include "common.hpp"
using namespace h;
static const int N = THOROUGH ? 6 : 5;
// the same child may be held several times: every copy is dropped by remove(), the child is disposed once
template<int CAP>
static void model()
{
    sym_want("shifted"); sym_want("full");
    const uint64_t live = sym_heap_live();
    {
        using C = rpp::details::disposables::static_disposables_container<CAP>;
        int                     hits[2]{}, held[CAP]{}, nheld = 0, expect[2]{};
        rpp::disposable_wrapper child[2]{rpp::make_callback_disposable([&hits]() noexcept { ++hits[0]; }), rpp::make_callback_disposable([&hits]() noexcept { ++hits[1]; })};
        bool gone = false;
        {
            C c;
            const int n = (int)sym_concrete(sym_u64("n", 0, N));
            for (int s = 0; s < n && !gone; ++s)
            {
                const int o = (int)sym_concrete(sym_u64("op", 0, 6)), i = o & 1;
                if (o < 4)
                {
                    bool threw = false;
                    try { if (o < 2) c.push_back(child[i]); else { auto copy = child[i]; c.push_back(std::move(copy)); } }
                    catch (const rpp::utils::more_disposables_than_expected&) { threw = true; }
                    sym_check(threw == (nheld == CAP), "overflow must be reported, and only overflow");
                    if (threw) sym_cover("full"); else held[nheld++] = i;
                }
                else if (o < 6)
                {
                    c.remove(child[i]);
                    int m = 0;
                    for (int k = 0; k < nheld; ++k) if (held[k] != i) { if (k != m) sym_cover("shifted"); held[m++] = held[k]; }
                    if (CAP == 1) sym_cover("shifted");
                    nheld = m;
                }
                else { c.dispose(); for (int k = 0; k < nheld; ++k) expect[held[k]] = 1; gone = true; }
                for (int k = 0; k < 2; ++k) sym_check(hits[k] == expect[k], "child disposed a wrong number of times");
            }
            if (!gone)
            {
                C moved{std::move(c)};
                c.dispose();
                for (int k = 0; k < 2; ++k) sym_check(hits[k] == expect[k], "a moved-from container still holds children");
                moved.dispose();
                for (int k = 0; k < nheld; ++k) expect[held[k]] = 1;
            }
            for (int k = 0; k < 2; ++k) sym_check(hits[k] == expect[k], "every held child is disposed exactly once");
        }
        for (int k = 0; k < 2; ++k) sym_check(hits[k] == expect[k], "a child was lost or disposed again");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_static1() { model<1>(); }
extern "C" void H_static3() { model<3>(); }
// handles to composites that do not exist (any more): added children are disposed at once, everything else has no effect
extern "C" void H_dead_composite()
{
    sym_want("alive"); sym_want("dead");
    const uint64_t live = sym_heap_live();
    {
        int  hits = 0, cb = 0;
        auto child = rpp::make_callback_disposable([&]() noexcept { ++hits; });
        auto owner = rpp::composite_disposable_wrapper::make();
        const int how = (int)sym_concrete(sym_u64("how", 0, 4));
        rpp::composite_disposable_wrapper c = how == 0 ? rpp::composite_disposable_wrapper::empty() : how == 1 ? owner.as_weak() : owner;
        if (how == 1) owner = rpp::composite_disposable_wrapper::empty();
        if (how == 2) owner.dispose();
        const bool dead = how <= 2, weak = sym_bool("weak"), twice = sym_bool("twice");
        sym_check(c.is_disposed() == dead, "a handle to a composite that is gone must report itself disposed");
        c.add(weak ? child.as_weak() : child);
        sym_check(hits == (dead ? 1 : 0), "a child added to a composite that is gone is disposed at once, otherwise it is kept");
        auto made = c.add([&]() noexcept { ++cb; });
        sym_check(cb == (dead ? 1 : 0), "a callback added to a composite that is gone runs at once, otherwise it waits");
        sym_check(made.is_disposed() == dead, "state of the handle of an added callback");
        if (how == 3) c.add(c);                                     // adding a composite to itself has no effect (and no cycle)
        if (how == 4) { rpp::disposable_wrapper plain = c; c.add(plain); sym_check(plain == rpp::disposable_wrapper{c}, "converted handles are equal"); }
        if (twice) c.remove(made);
        c.clear();
        sym_check(hits == 1 && cb == (dead || !twice ? 1 : 0), "clear() disposes the children which are held");
        c.dispose(); owner.dispose(); made.dispose();
        sym_check(hits == 1 && cb == 1, "everything is disposed exactly once");
        sym_cover(dead ? "dead" : "alive");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// an observer whose fixed-size storage overflows gets the overflow as its error and everything is released
extern "C" void H_overflow_is_error()
{
    sym_want("overflow"); sym_want("fits");
    const uint64_t live = sym_heap_live();
    {
        Rec r;
        int up[3]{};
        const int k = (int)sym_concrete(sym_u64("k", 0, 3));
        bool kept = false;
        {
            rpp::observer_with_disposable<int, strategy_sink<int>, rpp::details::observables::fixed_disposable_strategy_selector<2>::disposable_strategy> o{strategy_sink<int>{&r}};
            o.on_next(1);
            for (int i = 0; i < k; ++i)
            {
                auto d = rpp::make_callback_disposable([&up, i]() noexcept { ++up[i]; });
                o.set_upstream(d);
                if (i == 2) { sym_check(r.errored() && r.val[r.n - 1] == 9004, "an overflow of the fixed-size storage must become the error of the observer"); sym_check(o.is_disposed(), "observer still live after its error"); sym_check(up[0] == 1 && up[1] == 1, "sources not released"); sym_cover("overflow"); }
                else sym_check(up[i] == 0 && !o.is_disposed(), "a source that fits was released");
            }
            if (k < 3) { o.on_completed(); sym_check(r.completed() && o.is_disposed(), "completion lost"); sym_cover("fits"); }
            kept = true;
        }
        for (int i = 0; i < k; ++i) sym_check(kept && up[i] == 1, "a source is not released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}

// a composite which is asked to own itself: it must not keep itself alive, and its children are still released exactly once
extern "C" void H_self()
{
    sym_want("dropped"); sym_want("disposed");
    const uint64_t live = sym_heap_live();
    {
        int        hits = 0;
        auto       c = rpp::composite_disposable_wrapper::make();
        const int  how = (int)sym_concrete(sym_u64("how", 0, 2));
        const bool before = sym_bool("child first");
        auto       child = rpp::make_callback_disposable([&hits]() noexcept { ++hits; });
        if (before) c.add(child);
        if (how == 0) c.add(c); else if (how == 1) c.add(c.as_weak()); else { c.add(rpp::disposable_wrapper{c}); c.add(c); }
        if (!before) c.add(child);
        sym_check(!c.is_disposed() && hits == 0, "adding a composite to itself must not dispose anything");
        if (sym_bool("dispose"))
        {
            c.dispose();
            sym_check(hits == 1, "dispose() must dispose the child exactly once");
            sym_cover("disposed");
        }
        const bool removed = sym_bool("remove") ;
        if (removed) c.remove(c);
        c = rpp::composite_disposable_wrapper::empty();
        sym_check(hits == 1, "dropping the last handle of a composite must dispose the child exactly once");
        sym_cover("dropped");
    }
    sym_check(sym_heap_live() == live, "leak");
}
