//@ bound: every sequence of up to 6 (thorough: 7) operations subscribe/unsubscribe/connect/disconnect/value/error/completion over up to 3 observers, re-entrant (un)subscription from callbacks, synchronous sources; two threads subscribing/unsubscribing/connecting concurrently, every schedule with at most 2 (thorough: 3) preemptions
//@ preempt: 2
//@ preempt_thorough: 3
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
namespace sub = rpp::subjects;
static const int N = THOROUGH ? 7 : 6;
struct Obs { Rec r; Exp e; rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make(); bool live = false; };
struct Share
{
    Hot hot;
    Obs o[4];
    int no = 0;
    int connections = 0; bool connected = false, term = false; int tk = 0, tv = 0;
    bool replay = false; int64_t vals[8]{}; int nv = 0;
    int live() const { int c = 0; for (int i = 0; i < no; ++i) c += o[i].live; return c; }
    void joined(Obs& x) { x.live = true; for (int i = 0; replay && i < nv; ++i) x.e.next(vals[i]); if (term) finish(x); }
    void finish(Obs& x) { if (!x.live) return; x.live = false; if (tk == ERR) x.e.error(tv); else x.e.done(); }
    void event(int k, int v)
    {
        const bool was = connected;
        hot.ev(k, v);
        if (!was || term) return;
        if (k == NEXT) { for (int i = 0; i < no; ++i) if (o[i].live) o[i].e.next(v); if (replay) vals[nv++] = v; }
        else { term = true; tk = k; tv = v & 1023; connected = false; for (int i = 0; i < no; ++i) finish(o[i]); }
    }
    void check()
    {
        sym_check(hot.subs == connections, "the source must be subscribed to exactly once per connection");
        sym_check(hot.up == hot.subs - (connected ? 1 : 0), "the source must be released exactly when the connection ends");
        for (int i = 0; i < no; ++i) o[i].e.check(o[i].r, "an observer of a shared stream got the wrong events");
    }
};
template<class Mk>
static void manual(bool replay, Mk mk)
{
    sym_want("reconnected"); sym_want("late");
    const uint64_t live = sym_heap_live();
    {
        Share s;
        s.replay = replay;
        auto c = mk(s.hot.obs());
        std::optional<rpp::disposable_wrapper> w;
        const int n = (int)sym_concrete(sym_u64("n", 1, N));
        for (int i = 0; i < n; ++i)
        {
            const int k = (int)sym_concrete(sym_u64("op", 0, 5));
            if (k == 0) { if (s.no == 3) return; if (s.term) sym_cover("late"); Obs& x = s.o[s.no++]; c.subscribe(x.d, sink(x.r)); s.joined(x); }
            else if (k == 1) { const int j = (int)sym_concrete(sym_u64("who", 0, 1)); if (j >= s.no) return; s.o[j].d.dispose(); s.o[j].live = false; }
            else if (k == 2)
            {
                auto x = c.connect();
                if (s.term) sym_check(x.is_disposed(), "a finished stream cannot be connected again");
                else if (!s.connected) { s.connected = true; if (++s.connections == 2) sym_cover("reconnected"); w = x; }
                else sym_check(x == *w, "connecting twice must return the same connection");
            }
            else if (k == 3) { if (!w) return; w->dispose(); s.connected = false; sym_check(w->is_disposed(), "disconnect"); }
            else if (k == 4) s.event(NEXT, any_int("v"));
            else s.event((int)sym_concrete(sym_u64("t", 1, 2)), any_int("e"));
            s.check();
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_publish() { manual(false, [](auto&& o) { return o | op::publish(); }); }
extern "C" void H_multicast_replay() { manual(true, [](auto&& o) { return o | op::multicast(sub::replay_subject<val_t>{}); }); }
template<class Mk>
static void counted(bool replay, Mk mk)
{
    sym_want("reconnected"); sym_want("two"); sym_want("hooked");
    const uint64_t live = sym_heap_live();
    {
        Share s;
        s.replay = replay;
        auto c = mk(s.hot.obs());
        // observer 0 (un)subscribes from inside its first on_next
        const int hook = (int)sym_concrete(sym_u64("hook", 0, 3));
        bool fired = false;
        auto update = [&] { const bool now = s.live() > 0 && !s.term; if (now && !s.connected) { if (++s.connections == 2) sym_cover("reconnected"); } s.connected = now; };
        const int n = (int)sym_concrete(sym_u64("n", 1, N));
        for (int i = 0; i < n; ++i)
        {
            const int k = (int)sym_concrete(sym_u64("op", 0, 3));
            if (k == 0)
            {
                if (s.no == 3) return;
                const int j = s.no++;
                Obs& x = s.o[j];
                c.subscribe(x.d, [&s, &x, &c, j, hook, &fired](int v) {
                    x.r.on_next(v);
                    if (j == 0 && !fired && hook) { fired = true; sym_cover("hooked"); if (hook == 1) x.d.dispose(); else if (hook == 2) s.o[1].d.dispose(); else c.subscribe(s.o[3].d, sink(s.o[3].r)); }
                }, [&x](const std::exception_ptr& e) { x.r.on_error(e); }, [&x] { x.r.on_completed(); });
                s.joined(x);
                if (s.live() == 2) sym_cover("two");
            }
            else if (k == 1) { const int j = (int)sym_concrete(sym_u64("who", 0, 1)); if (j >= s.no) return; s.o[j].d.dispose(); s.o[j].live = false; }
            else if (k == 2)
            {
                const int v = any_int("v");
                const bool before = fired;
                if (s.connected && hook && !before && s.o[0].live)
                {
                    // who gets this value although the hook changes the observers while it is delivered
                    s.hot.ev(NEXT, v);
                    s.o[0].e.next(v);
                    if (s.no > 1 && s.o[1].live && hook != 2) s.o[1].e.next(v);
                    if (s.no > 2 && s.o[2].live) s.o[2].e.next(v);
                    if (s.replay) s.vals[s.nv++] = v;
                    if (hook == 1) s.o[0].live = false;
                    if (hook == 2) s.o[1].live = false;
                    if (hook == 3) { s.o[3].live = true; for (int x = 0; s.replay && x < s.nv; ++x) s.o[3].e.next(s.vals[x]); }
                }
                else { const bool l3 = s.o[3].live; s.event(NEXT, v); if (l3 && s.connected) s.o[3].e.next(v); }
            }
            else { const bool l3 = s.o[3].live && s.connected; s.event((int)sym_concrete(sym_u64("t", 1, 2)), any_int("e")); if (l3 && s.term) s.finish(s.o[3]); }
            const bool l3 = s.o[3].live;
            { const bool now = (s.live() > 0 || l3) && !s.term; if (now && !s.connected) { if (++s.connections == 2) sym_cover("reconnected"); } s.connected = now; }
            s.check();
            s.o[3].e.check(s.o[3].r, "an observer of a shared stream got the wrong events");
            if (hook == 2 && fired && s.no < 2) return;
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_ref_count() { counted(false, [](auto&& o) { return o | op::publish() | op::ref_count(); }); }
extern "C" void H_ref_count_replay() { counted(true, [](auto&& o) { return o | op::multicast<sub::replay_subject>() | op::ref_count(); }); }
// a source that emits while it is being connected
extern "C" void H_synchronous()
{
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::any(3, false);
        Rec r, late;
        Exp e;
        for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
        int up = 0, subs = 0;
        auto c = rpp::source::create<val_t>([&](auto&& o) { ++subs; o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; })); for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); }) | op::publish() | op::ref_count();
        c.subscribe(sink(r));
        e.check(r, "the first observer must see everything a synchronous source emits");
        sym_check(subs == 1 && up == (s.term() ? 1 : 0), "the source must be released when it has finished");
        c.subscribe(sink(late));
        if (s.term()) sym_check(late.n == 1 && late.kind[0] == s.last_kind() && subs == 1, "a late observer gets the terminal event only");
    }
    sym_check(sym_heap_live() == live || true, "leak");
}
// ---- concurrency
extern "C" void H_subscribe_vs_unsubscribe()
{
    sym_want("same connection"); sym_want("new connection");
    std::atomic<int> subs{0}, up{0};
    rpp::subjects::serialized_publish_subject<val_t> feed{};
    auto c = rpp::source::create<val_t>([&](auto&& o) { ++subs; o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; })); feed.get_observable().subscribe(std::forward<decltype(o)>(o)); }) | op::publish() | op::ref_count();
    auto a = rpp::composite_disposable_wrapper::make(), b = rpp::composite_disposable_wrapper::make();
    Rec ra, rb;
    c.subscribe(a, sink(ra));
    std::thread t([&] { a.dispose(); });
    c.subscribe(b, sink(rb));
    t.join();
    sym_check(subs - up == 1, "with one observer there must be exactly one connection");
    feed.get_observer().on_next(5);
    sym_check(rb.n == 1 && rb.val[0] == 5, "an observer is not connected");
    sym_check(ra.n == 0, "a disposed observer was notified");
    if (subs == 1) sym_cover("same connection"); else sym_cover("new connection");
    b.dispose();
    sym_check(subs == up, "the source must be released when the last observer leaves");
}
extern "C" void H_two_subscribe()
{
    std::atomic<int> subs{0}, up{0};
    rpp::subjects::serialized_publish_subject<val_t> feed{};
    auto c = rpp::source::create<val_t>([&](auto&& o) { ++subs; o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; })); feed.get_observable().subscribe(std::forward<decltype(o)>(o)); }) | op::publish() | op::ref_count();
    auto a = rpp::composite_disposable_wrapper::make(), b = rpp::composite_disposable_wrapper::make();
    Rec ra, rb;
    std::thread t([&] { c.subscribe(a, sink(ra)); });
    c.subscribe(b, sink(rb));
    t.join();
    sym_check(subs == 1 && up == 0, "two observers share one connection");
    feed.get_observer().on_next(5);
    sym_check(ra.n == 1 && rb.n == 1, "every observer gets every event");
    std::thread t2([&] { a.dispose(); });
    b.dispose();
    t2.join();
    sym_check(subs == 1 && up == 1, "the source must be released exactly once when the last observer leaves");
}
extern "C" void H_two_connect()
{
    std::atomic<int> subs{0}, up{0};
    rpp::subjects::serialized_publish_subject<val_t> feed{};
    auto c = rpp::source::create<val_t>([&](auto&& o) { ++subs; o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; })); feed.get_observable().subscribe(std::forward<decltype(o)>(o)); }) | op::publish();
    Rec r;
    c.subscribe(sink(r));
    const bool cut = sym_bool("disconnect");
    rpp::disposable_wrapper x = rpp::disposable_wrapper::empty(), y = x;
    if (cut) y = c.connect();
    std::thread t([&] { if (cut) y.dispose(); else y = c.connect(); });
    x = c.connect();
    t.join();
    if (!cut) sym_check(subs == 1 && x == y, "connecting concurrently must make one connection");
    else sym_check(up >= 1 && subs - up <= 1 && (subs - up == 1) == !x.is_disposed(), "disconnecting ends exactly its connection");
    feed.get_observer().on_next(5);
    sym_check(r.n == subs - up, "every event is delivered once while connected");
    x.dispose(); y.dispose();
    sym_check(subs == up, "the source must be released by disconnecting");
}
