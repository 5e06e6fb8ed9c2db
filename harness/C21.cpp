//@ bound: 2 threads (3 for thorough in some entries), 1-2 operations each on one subject: emission, termination, subscription, unsubscription, subject disposal; every schedule with at most 2 (thorough: 3) preemptions
//@ preempt: 2
//@ preempt_thorough: 3
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace sub = rpp::subjects;
static int suffix(const Rec& r, int first, int last)   // the values of r are first..last for some first; returns the number
{
    const int n = r.nexts();
    for (int i = 0; i < n; ++i) sym_check(r.kind[i] == NEXT && r.val[i] == last - n + 1 + i, "an observer must get a gapless run of the emissions");
    return n;
}
// one thread emits, another subscribes a second observer
template<class S, class Mk>
static void subscribe_vs_emit(Mk mk)
{
    sym_want("all"); sym_want("none");
    const uint64_t live = sym_heap_live();
    {
        S s = mk();
        Rec a, b;
        s.get_observable().subscribe(sink(a));
        const bool finish = sym_bool("finish");
        std::atomic<int> started{0};
        int before = -1;
        std::thread t([&] { auto o = s.get_observer(); for (int i = 1; i <= 2; ++i) { started.store(i); o.on_next(i); } if (finish) { started.store(3); o.on_completed(); } });
        s.get_observable().subscribe(sink(b));
        before = started.load();
        t.join();
        sym_check(a.nexts() == 2 && a.completed() == finish, "an observer subscribed before must get everything");
        sym_check(b.completed() == finish, "a remaining observer must get the terminal event exactly once");
        const int n = suffix(b, 1, 2);
        sym_check(n >= 2 - before, "an emission which started after subscribing must be delivered");
        a.log(); b.log();
        if (n == 2) sym_cover("all");
        if (n == 0) sym_cover("none");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_subscribe_vs_emit() { subscribe_vs_emit<sub::publish_subject<val_t>>([] { return sub::publish_subject<val_t>{}; }); }
extern "C" void H_subscribe_vs_emit_serialized() { subscribe_vs_emit<sub::serialized_publish_subject<val_t>>([] { return sub::serialized_publish_subject<val_t>{}; }); }
// unsubscribing (from another thread) while an event is delivered
template<class S>
static void unsubscribe_vs_emit()
{
    sym_want("cut"); sym_want("delivered");
    const uint64_t live = sym_heap_live();
    {
        S s{};
        Rec a, c;
        std::atomic<int> got{0}; std::atomic<bool> gone{false};
        auto d = rpp::composite_disposable_wrapper::make();
        s.get_observable().subscribe(d, [&](int) { ++got; });
        s.get_observable().subscribe(sink(a));
        const bool finish = sym_bool("finish");
        bool late = false;
        std::thread t([&] { auto o = s.get_observer(); for (int i = 1; i <= 2; ++i) { const bool g = gone.load(); const int n = got.load(); o.on_next(i); if (g && got.load() != n) late = true; } if (finish) o.on_completed(); });
        d.dispose();
        gone.store(true);
        t.join();
        sym_check(!late, "an emission which started after unsubscribing was delivered");
        sym_check(a.nexts() == 2 && a.completed() == finish, "unsubscribing one observer must not affect another");
        s.get_observable().subscribe(sink(c));
        sym_check(c.completed() == finish && c.nexts() == 0, "a late subscriber gets the terminal event only");
        sym_log(got);
        if (got == 0) sym_cover("cut");
        if (got == 2) sym_cover("delivered");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_unsubscribe_vs_emit() { unsubscribe_vs_emit<sub::publish_subject<val_t>>(); }
extern "C" void H_unsubscribe_vs_emit_serialized() { unsubscribe_vs_emit<sub::serialized_publish_subject<val_t>>(); }
// two threads emit and finish through a serialized subject
template<class S, class Mk>
static void serialized(Mk mk, int extra)
{
    sym_want("both");
    const uint64_t live = sym_heap_live();
    {
        S s = mk();
        Rec a, b;
        int up = 0;
        s.get_observable().subscribe(sink(a));
        s.get_observable().subscribe(sink(b));
        auto in = s.get_observer();
        in.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; }));
        const int k1 = (int)sym_concrete(sym_u64("k1", 0, 2)), k2 = (int)sym_concrete(sym_u64("k2", 0, 2));
        std::thread t([&] { auto o = s.get_observer(); emit(o, k1, 1); });
        { auto o = s.get_observer(); o.on_next(2); emit(o, k2, 3); }
        t.join();
        a.log(); b.log();
        sym_check(a.n == b.n, "all observers of a serialized subject must see the same events");
        for (int i = 0; i < a.n; ++i) sym_check(a.kind[i] == b.kind[i] && a.val[i] == b.val[i], "all observers of a serialized subject must see the same events in the same order");
        const bool ends = k1 != NEXT || k2 != NEXT;
        sym_check(a.term == ends, "every observer must get exactly one terminal event");
        sym_check(up == (ends ? 1 : 0), "what feeds the subject must be released exactly once");
        if (!ends) { sym_check(a.n == 3 + extra, "an emission was lost"); sym_cover("both"); }
        if (k1 == NEXT && k2 != NEXT) sym_check(a.nexts() >= 1 + extra, "an emission made before the terminal event was lost");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_serialized_publish() { serialized<sub::serialized_publish_subject<val_t>>([] { return sub::serialized_publish_subject<val_t>{}; }, 0); }
extern "C" void H_serialized_behavior() { serialized<sub::serialized_behavior_subject<val_t>>([] { return sub::serialized_behavior_subject<val_t>{9}; }, 1); }
extern "C" void H_serialized_replay() { serialized<sub::serialized_replay_subject<val_t>>([] { return sub::serialized_replay_subject<val_t>{}; }, 0); }
// subscribing and unsubscribing from two threads
extern "C" void H_subscribe_vs_unsubscribe()
{
    sub::publish_subject<val_t> s{};
    Rec a, b;
    auto d = rpp::composite_disposable_wrapper::make();
    s.get_observable().subscribe(d, sink(a));
    const bool both = sym_bool("both");
    std::thread t([&] { d.dispose(); });
    auto e = rpp::composite_disposable_wrapper::make();
    s.get_observable().subscribe(e, sink(b));
    if (both) e.dispose();
    t.join();
    s.get_observer().on_next(7);
    s.get_observer().on_completed();
    sym_check(a.n == 0, "unsubscribed observer was notified");
    sym_check(both ? b.n == 0 : (b.n == 2 && b.val[0] == 7 && b.completed()), "a concurrent subscription was lost");
}
// the subject ends while somebody subscribes
extern "C" void H_subscribe_vs_end()
{
    sub::publish_subject<val_t> s{};
    Rec b;
    const int k = (int)sym_concrete(sym_u64("k", 1, 3));
    auto d = rpp::composite_disposable_wrapper::make();
    std::thread t([&] { if (k == 3) s.get_disposable().dispose(); else emit(s.get_observer(), k, 1); });
    s.get_observable().subscribe(d, sink(b));
    t.join();
    b.log();
    if (k == 3) sym_check(b.n == 0, "disposing a subject must not notify");
    else { sym_check(b.n == 1 && b.kind[0] == k, "a subscriber must get the terminal event exactly once"); sym_check(d.is_disposed(), "subscription not disposed although the subject has terminated"); }
}
// observers which come while a behavior/replay subject emits
template<class S, class Mk>
static void stateful(Mk mk, int initial)
{
    S s = mk();
    Rec b;
    const bool finish = sym_bool("finish");
    std::thread t([&] { auto o = s.get_observer(); o.on_next(1); o.on_next(2); if (finish) o.on_completed(); });
    s.get_observable().subscribe(sink(b));
    t.join();
    b.log();
    sym_check(b.completed() == finish, "a subscriber must get the terminal event exactly once");
    for (int i = 0; i + 1 < b.nexts(); ++i) sym_check(b.val[i] <= b.val[i + 1], "values out of order");
    if (initial == 0 && !finish) sym_check(b.nexts() >= 1 && b.val[b.nexts() - 1] == 2, "a subscriber missed a value emitted while it subscribed");
    if (initial < 0) { bool one = false, two = false; for (int i = 0; i < b.nexts(); ++i) { one |= b.val[i] == 1; two |= b.val[i] == 2; } sym_check(one && two, "a subscriber missed a value emitted while it subscribed"); }
}
extern "C" void H_behavior_late() { stateful<sub::serialized_behavior_subject<val_t>>([] { return sub::serialized_behavior_subject<val_t>{0}; }, 0); }
extern "C" void H_replay_late() { stateful<sub::serialized_replay_subject<val_t>>([] { return sub::serialized_replay_subject<val_t>{}; }, -1); }
