// Tasks with arbitrary delays and re-scheduling behaviour, and the reference order in which they have to run.
#pragma once
#include "common.hpp"
namespace h
{
    namespace sch = rpp::schedulers;
    using ns = std::chrono::nanoseconds;
    struct Task
    {
        int64_t delay = 0;          // initial delay
        int     mode = 0;           // kind of re-scheduling: 1 from now, 2 from its own time point, 3 to an absolute time point
        int     runs = 1;           // number of runs
        int64_t again = 0;          // delay of every re-scheduling (mode 3: offset of the absolute time point, growing)
        int64_t slow = 0;           // how long a run takes
        int     throws = -1;        // run which throws
        int     disposes = -1;      // task whose handler is disposed during the first run
        int     spawns = -1;        // task which the first run schedules
    };
    struct Board
    {
        static constexpr int MAX = 6;
        Task    t[MAX];
        int     n = 0, done[MAX]{}, errors[MAX]{};
        std::atomic<bool> dead[MAX]{};
        int64_t start = 0;
        bool    absolute = false;   // tasks are scheduled for a time point (which may have passed) and not after a delay
        int     m = 0, id[24]{};
        int64_t at[24]{};
        int     tid = -1;
        int64_t off() const { return rt_clock_ns() - start; }
        void run(int i)
        {
            sym_check(m < 24, "a task ran more often than it was scheduled");
            id[m] = i; at[m] = off(); ++m;
            ++done[i];
            if (t[i].slow) rt_clock_advance(t[i].slow);
        }
    };
    struct Handler
    {
        Board* b; int i;
        bool is_disposed() const { return b->dead[i].load(); }
        void on_error(const std::exception_ptr& e) const { sym_check(err_id(e) == 77, "the handler must receive the thrown exception"); ++b->errors[i]; }
    };
    // Reference: always the earliest time point first, equal time points in the order of scheduling; nothing runs early.
    struct Model
    {
        Board&  b;
        int64_t now = 0;
        struct E { int i; int64_t tp; };
        E   q[16]; int qn = 0;
        int m = 0, id[24]{}; int64_t at[24]{};
        int done[Board::MAX]{}, errors[Board::MAX]{};
        bool dead[Board::MAX]{};
        Model(Board& x) : b{x} {}
        void push(int i, int64_t tp) { q[qn++] = {i, tp}; }
        bool empty() const { return qn == 0; }
        E pop()
        {
            int best = 0;
            for (int k = 1; k < qn; ++k) if (q[k].tp < q[best].tp) best = k;
            E e = q[best];
            for (int k = best; k + 1 < qn; ++k) q[k] = q[k + 1];
            --qn;
            return e;
        }
        // runs one task; false if it was disposed
        bool step()
        {
            E e = pop();
            if (dead[e.i]) return false;
            if (e.tp > now) now = e.tp;
            const Task& t = b.t[e.i];
            id[m] = e.i; at[m] = now; ++m;
            const int k = done[e.i]++;
            now += t.slow;
            if (k == 0 && t.disposes >= 0) dead[t.disposes] = true;
            if (k == 0 && t.spawns >= 0) push(t.spawns, (b.absolute ? 0 : now) + b.t[t.spawns].delay);
            if (k == t.throws) { ++errors[e.i]; return true; }
            if (done[e.i] < t.runs && !dead[e.i])
                push(e.i, t.mode == 1 ? now + t.again : t.mode == 2 ? e.tp + t.again : t.again * done[e.i]);
            return true;
        }
        void check(const char* what)
        {
            sym_log(b.m);
            for (int k = 0; k < b.m; ++k) { sym_log(b.id[k]); sym_log(b.at[k]); }
            for (int k = 0; k < std::min(m, b.m); ++k) { sym_check(b.id[k] == id[k], what); sym_check(b.at[k] == at[k], "a task must run at its time point: not early, and not late while nothing else is due"); }
            sym_check(b.m == m, "a task was lost or ran too often");
            for (int i = 0; i < b.n; ++i) sym_check(b.errors[i] == errors[i], "an exception of a task must reach its handler exactly once");
        }
    };
    template<class W> void submit(const W& w, Board& b, int i);
    template<class W, class Ret, class Mk>
    void submit_as(const W& w, Board& b, int i, Mk mk)
    {
        auto task = [w, mk](const Handler& h) -> Ret {
            Board& b = *h.b;
            const int i = h.i, k = b.done[i];
            const Task& t = b.t[i];
            b.run(i);
            if (k == 0 && t.disposes >= 0) b.dead[t.disposes].store(true);
            if (k == 0 && t.spawns >= 0) submit(w, b, t.spawns);
            if (k == t.throws) throw Err{77};
            if (b.done[i] < t.runs) return mk(b, i);
            return std::nullopt;
        };
        if (b.absolute) w.schedule(sch::time_point{ns{b.start + b.t[i].delay}}, std::move(task), Handler{&b, i});
        else w.schedule(ns{b.t[i].delay}, std::move(task), Handler{&b, i});
    }
    template<class W>
    void submit(const W& w, Board& b, int i)
    {
        if (b.t[i].mode == 2) submit_as<W, sch::optional_delay_from_this_timepoint>(w, b, i, [](Board& b, int i) { return sch::delay_from_this_timepoint{ns{b.t[i].again}}; });
        else if (b.t[i].mode == 3) submit_as<W, sch::optional_delay_to>(w, b, i, [](Board& b, int i) { return sch::delay_to{sch::time_point{ns{b.start + b.t[i].again * b.done[i]}}}; });
        else submit_as<W, sch::optional_delay_from_now>(w, b, i, [](Board& b, int i) { return sch::delay_from_now{ns{b.t[i].again}}; });
    }
    inline int64_t any_ns(const char* n, int64_t hi = 1000) { return sym_i64(n, 0, hi); }
    // n tasks for arbitrary time points, also such which have passed already; the first one re-schedules itself, possibly into the past
    inline void any_absolute_board(Board& b, int n)
    {
        rt_clock_advance(5000);
        b.n = n; b.absolute = true; b.start = rt_clock_ns();
        for (int i = 0; i < n; ++i) b.t[i].delay = sym_i64("offset", -1000, 1000);
        b.t[0].mode = (int)sym_concrete(sym_u64("mode", 1, 3));
        b.t[0].runs = (int)sym_concrete(sym_u64("runs", 1, 2));
        b.t[0].again = sym_i64("again", -1000, 1000);
        if (sym_bool("slow")) b.t[0].slow = sym_i64("slowness", 1, 1000);
    }
    // n tasks, arbitrary delays
    inline void any_board(Board& b, int n, bool repeat, bool extras)
    {
        b.n = n;
        b.start = rt_clock_ns();
        for (int i = 0; i < n; ++i) b.t[i].delay = any_ns("delay");
        if (repeat)
        {
            b.t[0].mode = (int)sym_concrete(sym_u64("mode", 1, 3));
            b.t[0].runs = (int)sym_concrete(sym_u64("runs", 2, THOROUGH ? 4 : 3));
            b.t[0].again = any_ns("again");
            if (sym_bool("slow")) b.t[0].slow = sym_i64("slowness", 1, 1000);
        }
        if (extras)
        {
            switch (sym_concrete(sym_u64("extra", 0, 3)))
            {
            case 1: b.t[0].disposes = (int)sym_concrete(sym_u64("victim", 0, n - 1)); break;
            case 2: b.t[0].throws = (int)sym_concrete(sym_u64("throws", 0, 1)); break;
            case 3: b.t[n - 1].slow = any_ns("slowness2"); break;
            }
        }
    }
}
