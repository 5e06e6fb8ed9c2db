//@ bound: two concurrent sources of up to 2 and 1 (thorough: 2 and 2) values plus any termination each, every schedule with at most 2 preemptions (thorough: 3); merge, merge_with, combine_latest, zip, with_latest_from, take_until, each alone and followed by take(1); inner observables emitting on threads of their own for merge, concat, switch_on_next, flat_map, source::concat; openings/closings/values of window_toggle on different threads
//@ assume: preemption only at synchronisation operations; data races are reported separately
//@ preempt: 2
//@ preempt_thorough: 3
#define H_VALUE V
#include "C27_models.hpp"
using namespace h;
namespace op = rpp::operators;
struct Src
{
    Ev  e[4]{}; int n = 0, released = 0;
    std::optional<rpp::dynamic_observer<val_t>> o;
    void any(int maxn, int base)
    {
        const int m = (int)sym_concrete(sym_u64("n", THOROUGH ? 0 : maxn - 1, maxn)), t = (int)sym_concrete(sym_u64("term", 0, 2));
        for (int i = 0; i < m; ++i) e[n++] = {NEXT, base + i};
        if (t) e[n++] = {t, t == ERR ? base : 0};
    }
    auto obs()
    {
        return rpp::source::create<val_t>([this](auto&& ob) { ob.set_upstream(rpp::make_callback_disposable([this]() noexcept { ++released; })); o.emplace(std::move(ob).as_dynamic()); });
    }
    void play() { for (int i = 0; i < n; ++i) emit(*o, e[i].kind, e[i].val); }
};
template<class M, class Build>
static void two(Build build, const char* what)
{
    sym_want("ends"); sym_want("alive");
    const uint64_t live = sym_heap_live();
    {
        Src a, b; Rec r;
        a.any(2, 1); b.any(THOROUGH ? 2 : 1, 101);
        const int limit = (int)sym_concrete(sym_u64("take", 0, 1));
        auto d = rpp::composite_disposable_wrapper::make();
        if (limit) (build(a, b) | op::take(1)).subscribe(sink(d, r)); else build(a, b).subscribe(sink(d, r));
        std::thread t{[&] { b.play(); }};
        a.play();
        t.join();
        sym_check(possible(a, b, 0, 0, M{}, Exp{}, r, limit), what);
        if (r.term)
        {
            sym_check(d.is_disposed(), "not disposed although the stream has ended");
            sym_check(a.released == 1 && b.released == 1, "a source is not released although the stream has ended");
            sym_cover("ends");
        }
        else sym_cover("alive");
        d.dispose();
        sym_check(a.released == 1 && b.released == 1, "a source is not released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_merge_with() { two<MMerge>([](Src& a, Src& b) { return a.obs() | op::merge_with(b.obs()); }, "merge_with lost, invented or re-ordered something"); }
extern "C" void H_combine_latest() { two<MLatest>([](Src& a, Src& b) { return a.obs() | op::combine_latest(pair_, b.obs()); }, "combine_latest: no interleaving of the sources explains the result"); }
extern "C" void H_zip() { two<MZip>([](Src& a, Src& b) { return a.obs() | op::zip(pair_, b.obs()); }, "zip: no interleaving of the sources explains the result"); }
extern "C" void H_with_latest_from() { two<MWith>([](Src& a, Src& b) { return a.obs() | op::with_latest_from(pair_, b.obs()); }, "with_latest_from: no interleaving of the sources explains the result"); }
extern "C" void H_take_until() { two<MUntil>([](Src& a, Src& b) { return a.obs() | op::take_until(b.obs()); }, "take_until: no interleaving of the sources explains the result"); }

// inner observables emitting on threads of their own
struct Async
{
    std::thread t[2]; int started = 0; std::atomic<int> released{0};
    // values base, base+1, ... and `term`, emitted from a thread started by the subscription
    auto obs(int n, int base, int term)
    {
        return rpp::source::create<val_t>([this, n, base, term](auto&& ob) {
            auto o = std::make_shared<std::decay_t<decltype(ob)>>(std::move(ob));
            o->set_upstream(rpp::make_callback_disposable([this]() noexcept { ++released; }));
            sym_check(started < 2, "subscribed too often");
            t[started++] = std::thread{[o, n, base, term] { for (int i = 0; i < n; ++i) o->on_next(base + i); if (term) emit(*o, term, base); }};
        });
    }
    void join() { for (int i = 0; i < started; ++i) if (t[i].joinable()) t[i].join(); }
};
using Dyn = rpp::dynamic_observable<val_t>;
template<class Mk>
static void inners(Mk mk, int which)   // which: 0 merge, 1 concat, 2 switch
{
    sym_want("all");
    const uint64_t live = sym_heap_live();
    {
        Async as; Rec r;
        const int n = (int)sym_concrete(sym_u64("n", 0, THOROUGH ? 2 : 1)), term = (int)sym_concrete(sym_u64("term", 1, 2)), second = (int)sym_concrete(sym_u64("second", 0, 2)), done = (int)sym_concrete(sym_u64("outer", 0, 1));
        {
            std::optional<rpp::dynamic_observer<Dyn>> outer;
            auto src = rpp::source::create<Dyn>([&](auto&& o) { outer.emplace(std::move(o).as_dynamic()); });
            auto d = rpp::composite_disposable_wrapper::make();
            const bool plain = sym_bool("plain");     // plain callbacks: a statically sized subscription
            if (plain) mk(src).subscribe([&r](int v) { r.on_next(v); }, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); });
            else mk(src).subscribe(sink(d, r));
            outer->on_next(as.obs(n, 1, term).as_dynamic());
            if (second == 1) outer->on_next(as.obs(1, 101, DONE).as_dynamic());
            if (second == 2) outer->on_next(rpp::source::just(val_t{101}).as_dynamic());
            if (done) outer->on_completed();
            // the threads may be started by one another

            sym_join_all(); as.join();
            int first = 0, sec = 0, last1 = 0, pos101 = -1;
            for (int i = 0; i < r.n; ++i)
            {
                if (r.kind[i] != NEXT) continue;
                if (r.val[i] == 101) { ++sec; pos101 = i; }
                else { sym_check(r.val[i] == last1 + 1 && r.val[i] <= n, "values of one source lost, repeated or re-ordered"); last1 = (int)r.val[i]; ++first; if (which != 0) sym_check(pos101 < 0 || which == 0, "a value of an older source after one of a newer source"); }
            }
            sym_check(sec <= (second != 0), "repeated");
            if (which == 2)
            {
                // the first source can be cut off by the second one
                if (!r.errored() && second) sym_check(sec == 1, "the values of the newest source must be mirrored");
                if (!second) sym_check(first == n, "a value was lost");
                if (!r.errored()) sym_check(r.term == (done == 1 && (second || term == DONE)), "completes exactly when the outer and the newest inner have completed");
                if (r.errored()) sym_check(term == ERR && r.val[r.n - 1] == 1, "wrong error");
                if (term == ERR && !second) sym_check(r.errored(), "the error was lost");
            }
            else
            {
                if (term == ERR)
                {
                    sym_check(r.errored() && r.val[r.n - 1] == 1, "the error was lost");
                    sym_check(first == n, "a value was lost");
                    if (which == 1) sym_check(sec == 0, "subscribed to the next source after an error");
                }
                else
                {
                    sym_check(first == n && sec == (second != 0), "a value was lost");
                    sym_check(r.term == (done == 1) && !r.errored(), "completes exactly when everything has completed");
                    sym_cover("all");
                }
            }
            if (which == 2 && r.completed()) sym_cover("all");
            if (r.term) sym_check((plain || d.is_disposed()) && as.released == as.started, "not released although the stream has ended");
            if (!plain) { d.dispose(); sym_check(as.released == as.started, "not released exactly once"); }
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_merge() { inners([](const auto& s) { return s | op::merge(); }, 0); }
extern "C" void H_flat_map() { inners([](const auto& s) { return s | op::flat_map([](const Dyn& o) { return o; }); }, 0); }
extern "C" void H_concat() { inners([](const auto& s) { return s | op::concat(); }, 1); }
extern "C" void H_switch_on_next() { inners([](const auto& s) { return s | op::switch_on_next(); }, 2); }
// the next source is subscribed from the thread on which the previous one completed
extern "C" void H_source_concat()
{
    const uint64_t live = sym_heap_live();
    {
        Async as; Rec r;
        const int form = (int)sym_concrete(sym_u64("form", 0, 2)), n = (int)sym_concrete(sym_u64("n", 0, 1));
        if (form == 0) rpp::source::concat(as.obs(n, 1, DONE), as.obs(1, 101, DONE)).subscribe(sink(r));
        else if (form == 1) (as.obs(n, 1, DONE) | op::repeat(2)).subscribe(sink(r));
        else (as.obs(n, 1, ERR) | op::retry(1)).subscribe(sink(r));
        sym_join_all();
        as.join();
        Exp e;
        for (int k = 0; k < 2; ++k) { if (form == 0 && k) e.next(101); else for (int i = 0; i < n; ++i) e.next(1 + i); }
        if (form == 2) e.error(1); else e.done();
        e.check(r, "values lost, repeated or re-ordered");
        sym_check(as.released == 2, "not released");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// window_toggle: values, openings and closings on different threads; each window gets serialised notifications and one end
extern "C" void H_window_toggle()
{
    sym_want("closed early"); sym_want("value");
    const uint64_t live = sym_heap_live();
    {
        Src a, op_, cl; Rec outer, w;
        const int t = (int)sym_concrete(sym_u64("term", 0, 2)), how = (int)sym_concrete(sym_u64("closing", 0, 2));
        a.e[a.n++] = {NEXT, 1};
        if (t) a.e[a.n++] = {t, 5};
        cl.e[cl.n++] = {how == 0 ? (int)NEXT : how == 1 ? (int)DONE : (int)ERR, 6};
        auto d = rpp::composite_disposable_wrapper::make();
        (a.obs() | op::window_toggle(op_.obs(), [&](int) { return cl.obs(); })).subscribe(d,
            [&](const auto& win) { outer.on_next(0); win.subscribe([&w](int v) { w.on_next(v); }, [&w](const std::exception_ptr& e) { w.on_error(e); }, [&w] { w.on_completed(); }); },
            [&](const std::exception_ptr& e) { outer.on_error(e); }, [&] { outer.on_completed(); });
        const int where = (int)sym_concrete(sym_u64("opening", 0, 1));
        if (where == 0) { op_.o->on_next(0); }
        std::thread th{[&] { if (where) op_.o->on_next(0); if (cl.o) cl.play(); }};
        a.play();
        th.join();
        sym_check(outer.nexts() <= 1 && (where || outer.nexts() == 1), "one window per opening");
        if (w.completed() && w.n == 1) sym_cover("closed early");
        if (w.nexts()) sym_cover("value");
        if (outer.nexts() && (how != 2 || t)) sym_check(w.term, "a window must end when it is closed or the stream ends");
        if (w.errored()) sym_check(t == ERR || how == 2, "unexpected error");
        if (t == 0 && how != 2) sym_check(!outer.term, "the outer stream must stay alive");
        else sym_check(outer.term, "the outer stream must end");
        d.dispose();
    }
    sym_check(sym_heap_live() == live, "leak");
}
