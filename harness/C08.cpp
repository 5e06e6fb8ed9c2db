//@ bound: every sequence of up to 3 (thorough: 5) operations (dispose, reset, copy, move, weaken, convert, add to / remove from / clear a composite) over three handle slots holding two disposables (callback, composite or user-defined); two or three threads disposing, dropping, copying and locking one disposable, every schedule with at most 3 preemptions
//@ preempt: 3
#include "common.hpp"
using namespace h;
using W = rpp::disposable_wrapper;
using C = rpp::composite_disposable_wrapper;
// a user-defined disposable
struct Own final : public rpp::details::base_disposable
{
    int* n; explicit Own(int* p) : n{p} {}
    void base_dispose_impl(rpp::interface_disposable::Mode) noexcept override { ++*n; }
};
struct Obj { bool alive = false, disposed = false; bool composite = false; bool child = false; };  // child: obj 1 is inside obj 0
struct Slot { int obj = -1; bool strong = false; };      // weak handles keep the identity only while the object lives
extern "C" void H_model()
{
    sym_want("dropped"); sym_want("disposed"); sym_want("inert weak"); sym_want("via parent");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    int hits[2]{};
    {
        const int type = (int)sym_concrete(sym_u64("type", 0, 2));     // 0: two callbacks, 1: own + callback, 2: composite (0) + callback (1)
        Obj o[2]; Slot s[3]; bool cleared = false;
        W h[3] = {W::empty(), W::empty(), W::empty()};
        if (type == 2) { auto c = C::make(); c.add([&hits]() noexcept { ++hits[0]; }); h[0] = c; o[0].composite = true; }
        else if (type == 1) h[0] = W::make<Own>(&hits[0]);
        else h[0] = rpp::make_callback_disposable([&hits]() noexcept { ++hits[0]; });
        h[1] = rpp::make_callback_disposable([&hits]() noexcept { ++hits[1]; });
        o[0].alive = o[1].alive = true;
        s[0] = {0, true}; s[1] = {1, true};
        auto dispose = [&](auto&& self, int i) -> void { if (!o[i].disposed) { o[i].disposed = true; if (i == 0 && o[1].child) { o[1].child = false; sym_cover("via parent"); self(self, 1); } } };
        auto settle = [&] {     // objects without owner die, and dying disposes them
            for (bool again = true; again;)
            {
                again = false;
                for (int i = 0; i < 2; ++i)
                {
                    bool own = i == 1 && o[1].child && o[0].alive;
                    for (auto& x : s) own |= x.strong && x.obj == i;
                    if (o[i].alive && !own) { if (!o[i].disposed) sym_cover("dropped"); dispose(dispose, i); o[i].alive = false; if (i == 0) o[1].child = false; again = true; }
                }
            }
        };
        const int n = (int)sym_concrete(sym_u64("n", 1, THOROUGH ? (type == 2 ? 5 : 4) : 3));
        for (int k = 0; k < n; ++k)
        {
            const int what = (int)sym_concrete(sym_u64("op", 0, type == 2 ? 7 : 4));
            if (what < 5)
            {
                const int a = (int)sym_concrete(sym_u64("a", 0, 2)), b = (a + 1) % 3;
                switch (what)
                {
                case 0: h[a].dispose(); if (s[a].obj >= 0 && o[s[a].obj].alive) { dispose(dispose, s[a].obj); sym_cover("disposed"); } else if (s[a].obj >= 0) sym_cover("inert weak"); break;
                case 1: h[a] = W::empty(); s[a] = {}; break;
                case 2: h[b] = h[a]; s[b] = s[a]; break;
                case 3: h[b] = h[a].as_weak(); s[b] = {s[a].obj, false}; break;
                case 4: h[b] = std::move(h[a]); s[b] = s[a]; h[a] = W::empty(); s[a] = {}; break;
                }
            }
            else
            {
                if (s[0].obj != 0 || !o[0].alive) continue;
                const auto lock = h[0].lock();
                auto comp = std::static_pointer_cast<rpp::interface_composite_disposable>(lock);
                if (what == 5) { if (s[1].obj == 1 && o[1].alive) { comp->add(h[1]); if (o[0].disposed) dispose(dispose, 1); else if (!o[1].disposed && s[1].strong) o[1].child = true; else if (!o[1].disposed) return; } }
                else if (what == 6) { if (s[1].obj == 1) { comp->remove(h[1]); if (o[1].alive) o[1].child = false; } }
                else { comp->clear(); cleared = true; if (o[1].child) { o[1].child = false; dispose(dispose, 1); } }
            }
            settle();
            for (int i = 0; i < 2; ++i) sym_check(hits[i] == (o[i].disposed || (!i && cleared)), "the action must run exactly once when (and only if) the disposable is disposed or its last owner is gone");
            for (int i = 0; i < 3; ++i)
            {
                const bool real = s[i].obj >= 0 && o[s[i].obj].alive;
                sym_check(h[i].is_disposed() == (!real || o[s[i].obj].disposed), "is_disposed() of a handle");
                sym_check((h[i].lock() != nullptr) == real, "lock() of a handle");
                for (int j = 0; j < 3; ++j)
                {
                    const bool real2 = s[j].obj >= 0 && o[s[j].obj].alive;
                    sym_check((h[i] == h[j]) == (real == real2 && (!real || s[i].obj == s[j].obj)), "handles compare by identity");
                }
            }
        }
        for (auto& x : h) x = W::empty();
        sym_check(hits[0] == 1 && hits[1] == 1, "the action must run when the last owner is gone");
    }
    sym_check(hits[0] == 1 && hits[1] == 1, "the action must run exactly once");
    sym_check(sym_heap_live() == live, "leak");
}
// clear() of a composite disposes the children and leaves it usable
extern "C" void H_clear()
{
    int hits[3]{};
    auto c = C::make();
    for (int i = 0; i < 2; ++i) c.add([&hits, i]() noexcept { ++hits[i]; });
    const int before = (int)sym_concrete(sym_u64("disposed before", 0, 2));
    if (before == 1) c.dispose();
    c.clear();
    sym_check(hits[0] == 1 && hits[1] == 1, "clear() disposes every child exactly once");
    auto x = rpp::make_callback_disposable([&hits]() noexcept { ++hits[2]; });
    c.add(x);
    sym_check(hits[2] == (before == 1), "adding to a disposed composite disposes at once, to a cleared one does not");
    if (sym_bool("remove")) { c.remove(x); c.dispose(); sym_check(hits[2] == (before == 1), "a removed child is not disposed"); }
    else { c.dispose(); c.dispose(); }
    x.dispose();
    sym_check(hits[0] == 1 && hits[1] == 1 && hits[2] == 1, "exactly once");
}
// disposal from inside the own action
extern "C" void H_reentrant()
{
    const uint64_t live = sym_heap_live();
    {
        int hits = 0;
        W w = W::empty();
        C c = C::make();
        const int how = (int)sym_concrete(sym_u64("how", 0, 3));
        auto d = rpp::make_callback_disposable([&]() noexcept {
            ++hits;
            sym_check(w.is_disposed() || how == 3, "is_disposed() must hold inside the action");
            w.dispose();
            if (how == 1) c.dispose();
            if (how == 2) c.clear();
            c.remove(w);
            c.add(w);
        });
        w = d.as_weak();
        c.add(d);
        if (how == 0) d.dispose(); else if (how == 1) c.dispose(); else if (how == 2) c.clear(); else { c.remove(d); d = W::empty(); }
        sym_check(hits == 1, "exactly once");
        c.dispose();
        sym_check(hits == 1, "exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// several threads: dispose, dispose through a weak handle, drop the last owner, dispose the parent
extern "C" void H_threads()
{
    const uint64_t live = sym_heap_live();
    std::atomic<int> hits{0};
    {
        auto c = C::make();
        auto d = rpp::make_callback_disposable([&]() noexcept { ++hits; });
        c.add(d);
        auto act = [&](int how, W h, C cc) {
            if (how == 0) { h.dispose(); sym_check(h.is_disposed(), "is_disposed() must hold after dispose()"); }
            else if (how == 1) { auto w = h.as_weak(); h = W::empty(); w.dispose(); }
            else if (how == 2) { cc.dispose(); sym_check(cc.is_disposed(), "is_disposed() must hold after dispose()"); }
            else if (how == 3) { cc.remove(h); }
            else { cc.clear(); }
        };
        const int a = (int)sym_concrete(sym_u64("a", 0, 4)), b = (int)sym_concrete(sym_u64("b", 0, 4));
        std::thread t([&act, b, d, c] { act(b, d, c); });
        act(a, std::move(d), c);
        d = W::empty();
        t.join();
        c.dispose();
    }
    sym_check(hits == 1, "the action must run exactly once");
    sym_check(sym_heap_live() == live, "leak");
}
// a weak handle racing with the end of the last owner
extern "C" void H_weak_race()
{
    sym_want("inert"); sym_want("locked");
    const uint64_t live = sym_heap_live();
    std::atomic<int> hits{0};
    {
        auto d = rpp::make_callback_disposable([&]() noexcept { ++hits; });
        auto w = d.as_weak();
        bool got = false;
        std::atomic<int> other{0};
        std::thread t([&, w] { other = 3; auto p = w.lock(); if (p) { got = true; (void)p->is_disposed(); } w.dispose(); sym_check(w.is_disposed(), "a weak handle must be disposed after dispose()"); });
        if (sym_bool("late")) { other = 1; other = 2; }
        d = W::empty();
        t.join();
        sym_cover(got ? "locked" : "inert");
        sym_check(w.is_disposed() && w.lock() == nullptr, "a weak handle whose disposable is gone is inert");
        sym_check(hits == 1, "the action must run exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// refcount: the underlying is disposed exactly when the last reference and the source went away
extern "C" void H_refcount()
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    int hits = 0;
    {
        auto d = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
        d.add([&]() noexcept { ++hits; });
        auto p = d.lock();
        const int refs = (int)sym_concrete(sym_u64("refs", 0, 3));
        C r[3] = {C::empty(), C::empty(), C::empty()};
        for (int i = 0; i < refs; ++i) r[i] = p->add_ref();
        const int n = (int)sym_concrete(sym_u64("n", 0, 4));
        bool out[3]{}, dead = false; int left = refs;
        for (int k = 0; k < n; ++k)
        {
            const int i = (int)sym_concrete(sym_u64("which", 0, 3));
            if (i == 3) { d.dispose(); dead = true; }
            else if (i < refs) { r[i].dispose(); if (!out[i] && !dead) { out[i] = true; if (!--left) dead = true; } sym_check(r[i].is_disposed(), "disposed reference"); }
            sym_check(hits == dead && d.is_disposed() == dead, "the underlying is disposed exactly when the last reference was (or itself is) disposed");
        }
    }
    sym_check(hits == 1, "exactly once");
    sym_check(sym_heap_live() == live, "leak");
}
