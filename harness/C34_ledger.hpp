// Tasks on an external event loop: every run is checked against the time it was asked for.
#pragma once
#include "sched.hpp"
namespace h
{
// what one run of a task has to respect
struct Ledger : Board
{
    int64_t due[MAX]{}; bool exact[MAX]{}; int64_t earliest_free = 0;
    int64_t tolerance = 0, lo = -500, hi = 1000;
    bool in_loop = false, check_exact = true; int inside = 0, active = -1;
    void begin(int i)
    {
        sym_check(in_loop, "a task must run on the context, not inside schedule()");
        sym_check(inside == 0, "tasks of one worker must not overlap");
        sym_check(off() >= due[i], "a task must not run before its time");
        if (check_exact && exact[i]) sym_check(off() <= due[i] + tolerance || off() == earliest_free, "a task must run at its time while the context is idle");
        sym_check(!dead[i].load(), "a disposed task must not run");
        ++inside; active = i;
    }
    void end() { earliest_free = off(); --inside; active = -1; }
};
template<class W> static void put(const W& w, Ledger& b, int i, int how);
template<class W, class Ret, class Mk>
static void put_as(const W& w, Ledger& b, int i, int how, Mk mk)
{
    auto fn = [w, mk](const Handler& h) -> Ret {
        Ledger& b = static_cast<Ledger&>(*h.b);
        const int i = h.i, k = b.done[i];
        const Task& t = b.t[i];
        b.begin(i);
        struct e { Ledger& b; ~e() { b.end(); } } e{b};
        const int64_t mine = b.due[i];
        b.run(i);
        if (k == 0 && t.disposes >= 0) b.dead[t.disposes].store(true);
        if (k == 0 && t.spawns >= 0) put(w, b, t.spawns, 1);
        if (k == t.throws) throw Err{77};
        if (b.done[i] < t.runs)
        {
            b.due[i] = t.mode == 1 ? b.off() + t.again : t.mode == 2 ? mine + t.again : t.again * b.done[i];
            b.exact[i] = t.mode != 2;
            if (b.due[i] < b.off()) { b.due[i] = std::min(b.due[i], b.off()); b.exact[i] = false; }
            return mk(b, i);
        }
        return std::nullopt;
    };
    const int64_t d = b.t[i].delay;
    b.due[i] = how == 0 ? b.off() : b.off() + d;
    b.exact[i] = true;
    if (b.due[i] < b.off()) b.exact[i] = false;
    Handler hd{&b, i};
    if (how == 0) w.schedule(fn, hd);
    else if (how == 1) w.schedule(ns{d}, fn, hd);
    else w.schedule(w.now() + ns{d}, fn, hd);
}
template<class W>
static void put(const W& w, Ledger& b, int i, int how)
{
    if (b.t[i].mode == 2) put_as<W, sch::optional_delay_from_this_timepoint>(w, b, i, how, [](Ledger& b, int i) { return sch::delay_from_this_timepoint{ns{b.t[i].again}}; });
    else if (b.t[i].mode == 3) put_as<W, sch::optional_delay_to>(w, b, i, how, [](Ledger& b, int i) { return sch::delay_to{sch::time_point{ns{b.start + b.t[i].again * b.done[i]}}}; });
    else put_as<W, sch::optional_delay_from_now>(w, b, i, how, [](Ledger& b, int i) { return sch::delay_from_now{ns{b.t[i].again}}; });
}
static void any_tasks(Ledger& b, int n, bool repeat)
{
    b.n = n;
    b.start = rt_clock_ns();
    for (int i = 0; i < n; ++i) b.t[i].delay = sym_i64("delay", b.lo, b.hi);
    if (repeat)
    {
        b.t[0].mode = (int)sym_concrete(sym_u64("mode", 1, 3));
        b.t[0].runs = (int)sym_concrete(sym_u64("runs", 1, THOROUGH ? 4 : 3));
        b.t[0].again = sym_i64("again", 0, b.hi);
    }
}
static void counts(Ledger& b, bool disposal)
{
    for (int i = 0; i < b.n; ++i)
    {
        const Task& t = b.t[i];
        const int want = t.throws >= 0 ? std::min(t.runs, t.throws + 1) : t.runs;
        if (disposal && b.dead[i].load()) sym_check(b.done[i] <= want, "a task ran too often");
        else { sym_check(b.done[i] == want, "a task was lost or ran too often"); sym_check(b.errors[i] == (t.throws >= 0 && t.throws < t.runs), "the exception of a task must reach its handler exactly once"); }
    }
}
}
