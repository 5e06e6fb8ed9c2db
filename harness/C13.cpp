//@ bound: up to 5 (thorough: 6) events of arbitrary kind and value over the source (and the openings and closings of window_toggle) in every order, windows/groups subscribed or ignored, unsubscription of the outer stream or of a sub-stream between any two events or from inside a callback; window sizes 0..3, up to 4 keys
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 6 : 5;
// what the consumer does: which sub-streams it subscribes to, and re-entrant unsubscriptions
struct Client
{
    struct In { Rec r; Exp e; rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make(); bool live = false, open = false; int64_t key = 0; };
    In   in[8];
    int  n = 0, mn = 0;                  // announced: observed, expected
    int64_t keys[8]{};
    Rec  dummy;
    int  term = 0, mterm = 0; int64_t tval = 0, mtval = 0;
    rpp::composite_disposable_wrapper outer = rpp::composite_disposable_wrapper::make();
    bool outerLive = true, released = false;
    int  mode[8]{};                      // what the consumer does with sub-stream k: 0 listens, 1 ignores it, 2 leaves the outer stream from inside its announcement, 3 leaves it from inside its first value
    template<class W> void announced(const W& w, int64_t key)
    {
        sym_check(!term, "sub-stream announced after the end");
        sym_check(n < 8, "too many sub-streams");
        const int k = n++;
        keys[k] = key;
        mode[k] = k < 2 ? (int)sym_concrete(sym_u64("mode", 0, 3)) : 0;
        if (mode[k] != 1) w.subscribe(in[k].d, [this, k](int v) { in[k].r.on_next(v); if (mode[k] == 3) in[k].d.dispose(); }, [this, k](const std::exception_ptr& e) { in[k].r.on_error(e); }, [this, k] { in[k].r.on_completed(); });
        if (mode[k] == 2) outer.dispose();
    }
    template<class O> void listen(const O& o)
    {
        o.subscribe(outer, [this](const auto& w) { int64_t key = 0; if constexpr (requires { w.get_key(); }) key = w.get_key(); announced(w, key); }, [this](const std::exception_ptr& e) { sym_check(!term, "two ends"); term = ERR; tval = err_id(e); }, [this] { sym_check(!term, "two ends"); term = DONE; });
    }
    // model
    int open(int64_t key)
    {
        const int k = mn++;
        in[k].key = key; in[k].open = true;
        in[k].live = mode[k] != 1;
        if (mode[k] == 2) outerLive = false;
        return k;
    }
    void give(int k, int v) { if (!in[k].live) return; in[k].e.next(v); if (mode[k] == 3) in[k].live = false; }
    void close(int k, int kind, int v) { in[k].open = false; if (!in[k].live) return; in[k].live = false; if (kind == ERR) in[k].e.error(v); else in[k].e.done(); }
    void end(int kind, int v) { for (int k = 0; k < mn; ++k) if (in[k].open) close(k, kind, v); if (outerLive) { mterm = kind; mtval = v; } outerLive = false; released = true; }
    bool listening() const { bool x = outerLive; for (int k = 0; k < mn; ++k) x = x || in[k].live; return x; }
    void leave(int w)
    {
        if (w == 2) { outer.dispose(); outerLive = false; }
        else if (w < mn) { in[w].d.dispose(); in[w].live = false; }
    }
    void check(Hot* hots, int nh)
    {
        if (!listening()) released = true;
        sym_check(n == mn, "wrong number of sub-streams");
        sym_check(term == mterm, "the outer stream ended wrongly");
        if (term == ERR) sym_check(tval == mtval, "the outer stream ended with the wrong error");
        for (int k = 0; k < n; ++k) { sym_check(keys[k] == in[k].key, "wrong key"); in[k].e.check(in[k].r, "a sub-stream got the wrong events"); }
        for (int i = 0; i < nh; ++i)
        {
            if (released) sym_check(hots[i].up == hots[i].subs, "nobody listens any more, but a source is not released");
        }
        if (!released && !hots[0].finished) sym_check(hots[0].up == 0, "the source was released although somebody listens");
        if (term) sym_check(outer.is_disposed(), "subscription not disposed after the end");
    }
};
extern "C" void H_window()
{
    sym_want("two windows"); sym_want("outer left");
    const uint64_t live = sym_heap_live();
    {
        Client c;
        Hot hot;
        const int size = (int)sym_concrete(sym_u64("size", 0, 3)), sz = size ? size : 1;
        c.listen(hot.obs() | op::window((size_t)size));
        int cur = -1, items = 0;
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        for (int i = 0; i < n; ++i)
        {
            const int k = (int)sym_concrete(sym_u64("op", 0, 3));
            if (k == 3) { c.leave((int)sym_concrete(sym_u64("leave", 0, 2))); c.check(&hot, 1); continue; }
            const int v = any_int("v");
            const bool active = !c.released && !hot.finished;
            hot.ev(k, v);
            if (active && k != NEXT) c.end(k, v & 1023);
            if (active && k == NEXT)
            {
                if (cur < 0 && !c.outerLive) { /* nobody can get a new window */ cur = -2; items = 0; }
                else if (cur == -1) { cur = c.open(0); items = 0; }
                if (cur >= 0) c.give(cur, v);
                if (++items == sz) { if (cur >= 0) c.close(cur, DONE, 0); cur = -1; }
                if (c.n == 2) sym_cover("two windows");
                if (!c.outerLive) sym_cover("outer left");
            }
            c.check(&hot, 1);
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
static bool greater(int a, int b) { return a > b; }
extern "C" void H_group_by()
{
    sym_want("two groups"); sym_want("outer left");
    const uint64_t live = sym_heap_live();
    {
        Client c;
        Hot hot;
        const int form = (int)sym_concrete(sym_u64("form", 0, 2));
        if (form == 0) c.listen(hot.obs() | op::group_by([](int v) { return v & 3; }));
        else if (form == 2) c.listen(hot.obs() | op::group_by([](int v) { return v & 3; }, [](int v) { return v ^ 5; }, &greater));    // a comparator with state: a function pointer
        else c.listen(hot.obs() | op::group_by([](int v) { return v & 3; }, [](int v) { return v ^ 5; }, [](int a, int b) { return a > b; }));
        const int n = (int)sym_concrete(sym_u64("n", 0, THOROUGH ? N : 4));
        for (int i = 0; i < n; ++i)
        {
            const int k = (int)sym_concrete(sym_u64("op", 0, 3));
            if (k == 3) { c.leave((int)sym_concrete(sym_u64("leave", 0, 2))); c.check(&hot, 1); continue; }
            const int v = any_int("v");
            const bool active = !c.released && !hot.finished;
            hot.ev(k, v);
            if (active && k != NEXT) c.end(k, v & 1023);
            if (active && k == NEXT)
            {
                const int key = (int)sym_concrete((uint64_t)(v & 3));
                int g = -1;
                for (int x = 0; x < c.mn; ++x) if (c.in[x].key == key) g = x;
                if (g < 0 && c.outerLive) g = c.open(key);
                if (g >= 0) c.give(g, form ? v ^ 5 : v);
                if (c.n == 2) sym_cover("two groups");
                if (!c.outerLive) sym_cover("outer left");
            }
            c.check(&hot, 1);
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_window_toggle()
{
    sym_want("two windows"); sym_want("closed");
    const uint64_t live = sym_heap_live();
    {
        Client c;
        Hot hot[4];                         // source, openings, closing of window 0, of window 1
        int sel = 0;
        c.listen(hot[0].obs() | op::window_toggle(hot[1].obs(), [&](int) { const int i = sel++; return hot[i < 2 ? 2 + i : 3].obs(); }));
        bool opening = true;
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        for (int i = 0; i < n; ++i)
        {
            const int s = (int)sym_concrete(sym_u64("src", 0, 4));
            if (s == 4) { c.leave((int)sym_concrete(sym_u64("leave", 0, 2))); c.check(hot, 4); continue; }
            const int k = (int)sym_concrete(sym_u64("k", 0, 2)), v = any_int("v");
            if (!hot[s].o) return;
            if (s == 1 && k == NEXT && sel == 2) return;
            const bool active = !c.released && !hot[s].finished;
            hot[s].ev(k, v);
            if (active && s == 0)
            {
                if (k != NEXT) c.end(k, v & 1023);
                else for (int w = 0; w < c.mn; ++w) if (c.in[w].open) c.give(w, v);
            }
            else if (active && s == 1)
            {
                if (k == ERR) c.end(k, v & 1023);
                else if (k == DONE) opening = false;
                else if (c.outerLive) c.open(0);
            }
            else if (active)
            {
                const int w = s - 2;
                if (k == ERR && hot[s].up == 0) c.end(k, v & 1023);
                else if (k == ERR && w < c.mn && c.in[w].open) c.end(k, v & 1023);
                else if (w < c.mn && c.in[w].open) { c.close(w, DONE, 0); sym_cover("closed"); }
            }
            if (c.n == 2) sym_cover("two windows");
            if (c.n != sel) return;         // a window opened after the client left the outer stream: nobody sees it
            c.check(hot, 4);
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
