//@ bound: every sequence of up to 5 (thorough: 6) operations subscribe/unsubscribe/value/error/completion/dispose over up to 3 observers, one re-entrant operation (subscribe, unsubscribe self or other, emit, complete) from inside any callback; replay counts 0..4 and durations/time steps 0..1000 ns arbitrary; up to 140 observers for growth during delivery
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace sub = rpp::subjects;
static const int N = THOROUGH ? 6 : 5;
enum { SUBSCRIBE, UNSUB, VALUE, ERROR, COMPLETE, DISPOSE };
enum { PUBLISH, BEHAVIOR, REPLAY };
struct Act { int op = -1, who = 0, val = 0; };
template<class S>
struct World
{
    static constexpr int MAXO = 5;
    struct O { Rec r; Exp e; rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make(); bool used = false, live = false; };
    S&  s;
    int type;
    std::optional<decltype(std::declval<S>().get_observer())> in;
    O   o[MAXO];
    int no = 0, mno = 0, up = 0;
    // re-entrant action: performed by observer `hookAt` on its `hookWhen`-th notification
    Act hook; int hookAt = -1, hookWhen = 0; bool fired = false, mfired = false; int rsub = -1, msub = -1;
    // model
    int list[MAXO]{}, nl = 0; bool term = false, disposed = false, ending = false; int tk = 0, tv = 0;
    int64_t limit = -1, dur = -1; int64_t vals[16]{}, times[16]{}; int nv = 0;
    World(S& x, int t) : s{x}, type{t} { in.emplace(x.get_observer()); in->set_upstream(rpp::make_callback_disposable([this]() noexcept { ++up; })); }
    int cnt(int i) { return o[i].r.n; }
    // (emitting from inside a terminal callback, or into oneself while still being subscribed, is left out)
    bool ok(int i, bool subscribing, int kind) { return hook.op != VALUE || (!subscribing && kind == NEXT); }
    void react(int i) { if (i == hookAt && !fired && o[i].r.n == hookWhen + 1 && ok(i, rsub == i, o[i].r.kind[o[i].r.n - 1])) { fired = true; real(hook); } }
    void mreact(int i) { if (i == hookAt && !mfired && o[i].e.n == hookWhen + 1 && ok(i, msub == i, o[i].e.kind[o[i].e.n - 1])) { mfired = true; model(hook); } }
    void real(const Act& a)
    {
        switch (a.op)
        {
        case SUBSCRIBE:
        {
            if (no == MAXO) return;
            const int i = no++;
            const int outer = std::exchange(rsub, i);
            s.get_observable().subscribe(o[i].d, [this, i](int v) { o[i].r.on_next(v); react(i); }, [this, i](const std::exception_ptr& e) { o[i].r.on_error(e); react(i); }, [this, i] { o[i].r.on_completed(); react(i); });
            rsub = outer;
            break;
        }
        case UNSUB: if (a.who < no) o[a.who].d.dispose(); break;
        case VALUE: in->on_next(a.val); break;
        case ERROR: in->on_error(mkerr(a.val & 1023)); break;
        case COMPLETE: in->on_completed(); break;
        case DISPOSE: s.get_disposable().dispose(); break;
        }
    }
    void give(int i, int k, int64_t v)
    {
        if (!o[i].live) return;
        if (k == NEXT) o[i].e.next(v); else { o[i].live = false; if (k == ERR) o[i].e.error((int)v); else o[i].e.done(); }
        mreact(i);
    }
    void expire() { while (nv && dur >= 0 && rt_clock_ns() - times[0] > dur) pop(); }
    void pop() { for (int k = 0; k + 1 < nv; ++k) { vals[k] = vals[k + 1]; times[k] = times[k + 1]; } --nv; }
    void model(const Act& a)
    {
        switch (a.op)
        {
        case SUBSCRIBE:
        {
            if (mno == MAXO) return;
            const int i = mno++;
            o[i].used = o[i].live = true;
            const int outer = std::exchange(msub, i);
            // while the subject is ending, the latest value may or may not be handed out
            if (type == BEHAVIOR && ((!term && !disposed) || (ending && o[i].r.n && o[i].r.kind[0] == NEXT && o[i].r.val[0] == vals[0]))) give(i, NEXT, vals[0]);
            if (type == REPLAY) { expire(); int64_t c[16]; const int n = nv; for (int k = 0; k < n; ++k) c[k] = vals[k]; for (int k = 0; k < n; ++k) give(i, NEXT, c[k]); }
            if (term) give(i, tk, tv);
            else if (!disposed && o[i].live) list[nl++] = i;
            msub = outer;
            break;
        }
        case UNSUB:
            if (a.who < mno) { o[a.who].live = false; for (int k = 0; k < nl; ++k) if (list[k] == a.who) { for (int x = k; x + 1 < nl; ++x) list[x] = list[x + 1]; --nl; break; } }
            break;
        case VALUE:
        {
            if (term || disposed) return;
            if (type == BEHAVIOR) vals[0] = a.val;
            if (type == REPLAY) { while (limit >= 0 && nv >= limit) pop(); expire(); vals[nv] = a.val; times[nv++] = rt_clock_ns(); }
            int l[MAXO]; const int n = nl; for (int k = 0; k < n; ++k) l[k] = list[k];
            for (int k = 0; k < n; ++k) give(l[k], NEXT, a.val);
            break;
        }
        case ERROR: case COMPLETE:
        {
            if (term || disposed) return;
            term = true; tk = a.op == ERROR ? ERR : DONE; tv = a.op == ERROR ? a.val & 1023 : 0;
            const int n = nl; nl = 0;
            ending = true;
            for (int k = 0; k < n; ++k) give(list[k], tk, tv);
            ending = false;
            break;
        }
        case DISPOSE: disposed = !term; nl = 0; break;
        }
    }
    void check()
    {
        sym_check(no == mno, "observers");
        for (int i = 0; i < no; ++i)
        {
            o[i].e.check(o[i].r, "an observer of the subject got the wrong events");
            if (o[i].r.term) sym_check(o[i].d.is_disposed(), "subscription not disposed although the subject has terminated");
        }
        sym_check(up == ((term || disposed) ? 1 : 0), "what feeds the subject must be released exactly once, when the subject ends");
        sym_check(in->is_disposed() == (term || disposed), "the subject's observer must see the end");
    }
};
static Act any_act(int lo, int hi, int observers)
{
    Act a;
    a.op = (int)sym_concrete(sym_u64("op", lo, hi));
    if (a.op == UNSUB) a.who = (int)sym_concrete(sym_u64("who", 0, observers));
    if (a.op == VALUE || a.op == ERROR) a.val = any_int("v");
    return a;
}
template<class S, class Mk>
static void play(int type, bool nested_emit, Mk mk)
{
    sym_want("reentrant"); sym_want("late subscriber");
    const uint64_t live = sym_heap_live();
    {
        S s = mk();
        World<S> w{s, type};
        if constexpr (requires { s.get_value(); }) { w.vals[0] = s.get_value(); w.nv = 1; }
        const bool hooked = sym_bool("hooked");
        if (hooked)
        {
            w.hookAt = (int)sym_concrete(sym_u64("hook_at", 0, 1));
            w.hookWhen = (int)sym_concrete(sym_u64("hook_when", 0, 1));
            w.hook = any_act(SUBSCRIBE, nested_emit ? DISPOSE : UNSUB, 1);
        }
        const int n = hooked ? N - 1 : N;
        for (int i = 0; i < n; ++i)
        {
            Act a = i == 0 && type == PUBLISH ? Act{SUBSCRIBE} : any_act(SUBSCRIBE, DISPOSE, 1);
            if (a.op == SUBSCRIBE && w.no >= 3) return;
            if (a.op == UNSUB && a.who >= w.no) return;
            if (a.op == SUBSCRIBE && (w.term)) sym_cover("late subscriber");
            w.real(a);
            w.model(a);
            w.check();
            if constexpr (requires { s.get_value(); }) if (!w.term && !w.disposed) sym_check((int)s.get_value() == w.vals[0], "get_value() is the latest value");
        }
        if (w.fired) sym_cover("reentrant");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_publish() { play<sub::publish_subject<val_t>>(PUBLISH, true, [] { return sub::publish_subject<val_t>{}; }); }
extern "C" void H_publish_serialized() { play<sub::serialized_publish_subject<val_t>>(PUBLISH, false, [] { return sub::serialized_publish_subject<val_t>{}; }); }
extern "C" void H_behavior() { const int v = any_int("initial"); play<sub::behavior_subject<val_t>>(BEHAVIOR, true, [v] { return sub::behavior_subject<val_t>{v}; }); }
extern "C" void H_behavior_serialized() { const int v = any_int("initial"); play<sub::serialized_behavior_subject<val_t>>(BEHAVIOR, false, [v] { return sub::serialized_behavior_subject<val_t>{v}; }); }
extern "C" void H_replay() { play<sub::replay_subject<val_t>>(REPLAY, true, [] { return sub::replay_subject<val_t>{}; }); }
template<class S>
static void limits()
{
    sym_want("dropped"); sym_want("expired"); sym_want("kept");
    const uint64_t live = sym_heap_live();
    {
        const bool timed = sym_bool("timed");
        const int64_t count = (int64_t)sym_concrete(sym_u64("count", 0, 4)), dur = timed ? sym_i64("duration", 0, 1000) : 0;
        S s = timed ? S{(size_t)count, std::chrono::nanoseconds{dur}} : S{(size_t)count};
        World<S> w{s, REPLAY};
        w.limit = count ? count : 1;
        if (timed) w.dur = dur;
        const int n = (int)sym_concrete(sym_u64("n", 0, N - 1));
        for (int i = 0; i < n; ++i)
        {
            if (timed) rt_clock_advance(sym_i64("pause", 0, 1000));
            Act a{VALUE, 0, any_int("v")};
            w.real(a); w.model(a);
        }
        if (sym_bool("complete")) { w.real({COMPLETE}); w.model({COMPLETE}); }
        if (timed) rt_clock_advance(sym_i64("pause", 0, 1000));
        w.real({SUBSCRIBE}); w.model({SUBSCRIBE});
        w.check();
        if (n > w.limit) sym_cover("dropped");
        if (timed && w.nv == 0 && n > 1) sym_cover("expired");
        if (w.nv > 1) sym_cover("kept");
        Act a{VALUE, 0, 5};
        w.real(a); w.model(a);
        w.check();
        w.real({SUBSCRIBE}); w.model({SUBSCRIBE});
        w.check();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_replay_limits() { limits<sub::replay_subject<val_t>>(); }
extern "C" void H_replay_limits_serialized() { limits<sub::serialized_replay_subject<val_t>>(); }
// many observers; more subscribe while an event is being delivered
extern "C" void H_growth()
{
    const int first = (int)sym_concrete(sym_u64("log2", 0, 3)) , n = first == 0 ? 1 : first == 1 ? 32 : first == 2 ? 65 : 140, more = sym_bool("more") ? 140 : 5;
    sub::publish_subject<val_t> s{};
    int got = 0, late = 0;
    bool grown = false;
    for (int i = 0; i < n; ++i)
        s.get_observable().subscribe([&, i](int v) {
            ++got;
            if (!grown) { grown = true; for (int k = 0; k < more; ++k) s.get_observable().subscribe([&](int) { ++late; }); }
        });
    const int v = any_int("v");
    s.get_observer().on_next(v);
    sym_check(got == n && late == 0, "an event goes to exactly the observers subscribed when it was emitted");
    s.get_observer().on_next(v);
    sym_check(got == 2 * n && late == more, "an event goes to exactly the observers subscribed when it was emitted");
}
// several observers behind one subscription handle
extern "C" void H_shared_handle()
{
    const uint64_t live = sym_heap_live();
    {
        sub::publish_subject<val_t> s{};
        Rec r[3];
        auto d = rpp::composite_disposable_wrapper::make();
        const int n = (int)sym_concrete(sym_u64("n", 1, 3)), inside = (int)sym_concrete(sym_u64("inside", 0, 3));
        for (int i = 0; i < n; ++i) s.get_observable().subscribe(d, [&, i](int v) { r[i].on_next(v); if (i == inside) d.dispose(); }, [&, i](const std::exception_ptr& e) { r[i].on_error(e); }, [&, i] { r[i].on_completed(); });
        Rec other;
        s.get_observable().subscribe(sink(other));
        const int v = any_int("v");
        s.get_observer().on_next(v);
        d.dispose();
        s.get_observer().on_next(v);
        s.get_observer().on_completed();
        for (int i = 0; i < n; ++i) sym_check(r[i].n == (i <= inside ? 1 : 0), "disposed observers must not be notified");
        sym_check(other.n == 3 && other.completed(), "other observers must get everything");
    }
    sym_check(sym_heap_live() == live, "leak");
}
