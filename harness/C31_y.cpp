//@ preempt: 0
#include "C31_life.hpp"
using namespace h;
// connectables: connections, observers and the connectable itself go in every order
extern "C" void H_connectable()
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Hot h; Consumer a, b; std::atomic<int> cb_alive{0};
        const int how = (int)sym_concrete(sym_u64("end", 0, 4)), subj = (int)sym_concrete(sym_u64("subject", 0, 2));
        const bool keep = sym_concrete(sym_u64("keep", 0, 1));
        auto run = [&](auto&& con) {
            auto c = con;
            c.subscribe(a.observer());
            c.subscribe(b.observer());
            auto d = c.connect();
            h.ev(NEXT, any_int("v"));
            if (how == COMPLETE) h.ev(DONE, 0);
            if (how == FAIL) h.ev(ERR, 1);
            if (how == DISPOSE) { d.dispose(); sym_check(h.up == 1, "disposing the connection releases the source"); }
            if (how == INSIDE) { a.d.dispose(); b.d.dispose(); sym_check(a.alive <= 3 && b.alive <= 3, "observers"); }
            if (keep) h.o.reset();
        };
        {
        auto src = h.obs() | op::map([k = Cap{&cb_alive}](int v) { return v; });
        if (subj == 0) run(src | op::publish());
        else if (subj == 1) { rpp::subjects::replay_subject<int> s{1}; run(src | op::multicast(s)); }
        else { rpp::subjects::behavior_subject<int> s{1}; run(src | op::multicast(s)); }
        }
        a.d = b.d = rpp::composite_disposable_wrapper::empty();
        h.o.reset();
        sym_check(a.alive == 0 && b.alive == 0, "an observer outlives the connectable");
        sym_check(cb_alive == 0, "the source outlives the connectable");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_ref_count()
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Hot h; Consumer a, b; std::atomic<int> cb_alive{0};
        const int how = (int)sym_concrete(sym_u64("end", 0, 3));
        auto o = h.obs() | op::map([k = Cap{&cb_alive}](int v) { return v; }) | op::publish() | op::ref_count();
        o.subscribe(a.observer());
        if (sym_concrete(sym_u64("two", 0, 1))) o.subscribe(b.observer());
        h.ev(NEXT, any_int("v"));
        if (how == COMPLETE) h.ev(DONE, 0);
        if (how == FAIL) h.ev(ERR, 1);
        if (how == DISPOSE) { a.d.dispose(); b.d.dispose(); sym_check(h.up == h.subs, "without subscribers the source is released"); }
        if (how == INSIDE) { a.d.dispose(); }
        if (how != INSIDE) { a.d = b.d = rpp::composite_disposable_wrapper::empty(); sym_check(how == COMPLETE || how == FAIL || a.alive == 0 && b.alive == 0, "disposed subscribers are freed although the observable lives"); }
        if (how == INSIDE) { b.d.dispose(); a.d = b.d = rpp::composite_disposable_wrapper::empty(); }
        h.o.reset();
        sym_check(a.alive == 0 && b.alive == 0, "a finished subscriber outlives its subscription");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// groups and windows which are kept, dropped, subscribed late or never
template<class O> static void inner(O pipeline)
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Hot h; std::atomic<int> alive{0}, cb_alive{0}; Rec outer_r;
        auto d = rpp::composite_disposable_wrapper::make(), di = rpp::composite_disposable_wrapper::make();
        const int how = (int)sym_concrete(sym_u64("end", 0, 4)), mode = (int)sym_concrete(sym_u64("inner", 0, 3));      // never subscribed, subscribed, subscribed with its own handle, kept
        const int n = (int)sym_concrete(sym_u64("n", 1, 3));
        {
            auto o = pipeline(h.obs() | op::map([k = Cap{&cb_alive}](int v) { return v; }));
            using G = rpp::utils::extract_observable_type_t<decltype(o)>;
            std::vector<G> kept;
            auto on = [&, c = Cap{&alive}](const G& g) {
                if (mode == 1) g.subscribe([c = Cap{&alive}](int) {}, [c = Cap{&alive}](const std::exception_ptr&) {}, [] {});
                if (mode == 2) g.subscribe(di, [c = Cap{&alive}](int) {}, [](const std::exception_ptr&) {}, [] {});
                if (mode == 3) kept.push_back(g);
            };
            o.subscribe(d, on, [&](const std::exception_ptr& e) { outer_r.on_error(e); }, [&] { outer_r.on_completed(); });
            for (int i = 0; i < n; ++i) h.ev(NEXT, (int)sym_concrete(sym_u64("v", 0, 1)));
            if (mode == 3 && sym_concrete(sym_u64("subscribe kept", 0, 1))) for (auto& g : kept) g.subscribe(di, [c = Cap{&alive}](int) {}, [](const std::exception_ptr&) {}, [] {});
            if (how == COMPLETE) h.ev(DONE, 0);
            if (how == FAIL) h.ev(ERR, 1);
            if (how == DISPOSE) { d.dispose(); di.dispose(); if (mode != 1) sym_check(h.up == h.subs, "with the outer and every inner subscription disposed the source is released"); }
            if (how == INSIDE) { di.dispose(); d.dispose(); if (mode != 1) sym_check(h.up == h.subs, "with the outer and every inner subscription disposed the source is released"); }
            d = di = rpp::composite_disposable_wrapper::empty();
        }
        h.o.reset();
        sym_check(alive == 0 && cb_alive == 0, "a callback outlives the groups or windows");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_group_by() { inner([](const auto& o) { return o | op::group_by([](int v) { return v & 1; }); }); }
extern "C" void H_window() { inner([](const auto& o) { return o | op::window(2); }); }
extern "C" void H_window_toggle() { inner([](const auto& o) { return o | op::window_toggle(o, [](int) { return src::never<int>(); }); }); }
extern "C" void H_window_toggle2() { inner([](const auto& o) { return o | op::window_toggle(src::just(rpp::schedulers::immediate{}, 1, 2), [o](int) { return o; }); }); }
// subjects: observers and values
template<class S> static void subject(S make)
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Consumer a, b;
        const int how = (int)sym_concrete(sym_u64("end", 0, 3));
        auto s = make();
        s.get_observable().subscribe(a.observer());
        s.get_observable().subscribe(b.observer());
        if (sym_concrete(sym_u64("value", 0, 1))) s.get_observer().on_next(any_int("v"));
        if (how == INSIDE) { a.dispose_at = a.seen; s.get_observer().on_next(1); a.d = rpp::composite_disposable_wrapper::empty(); sym_check(a.alive == 0, "an observer which disposed itself is freed"); }
        if (how == COMPLETE) s.get_observer().on_completed();
        if (how == FAIL) s.get_observer().on_error(mkerr(3));
        if (how == DISPOSE) { a.d.dispose(); a.d = rpp::composite_disposable_wrapper::empty(); sym_check(a.alive == 0 && b.alive == 3, "a disposed observer is freed, the other one is not"); s.get_disposable().dispose(); }
        if (how != INSIDE) { a.d = b.d = rpp::composite_disposable_wrapper::empty(); sym_check(a.alive == 0 && b.alive == 0, "a finished or disposed subject keeps observers"); }
        // the observer side alone keeps nothing but the subject
        auto o = s.get_observer();
        { auto drop = std::move(s); }
        if (sym_concrete(sym_u64("late", 0, 1))) o.on_next(5);
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_publish_subject() { subject([] { return rpp::subjects::publish_subject<int>{}; }); }
extern "C" void H_serialized_publish_subject() { subject([] { return rpp::subjects::serialized_publish_subject<int>{}; }); }
extern "C" void H_behavior_subject() { subject([] { return rpp::subjects::behavior_subject<int>{4}; }); }
extern "C" void H_replay_subject() { subject([] { return rpp::subjects::replay_subject<int>{2}; }); }
extern "C" void H_dynamic_subject() { subject([] { return rpp::subjects::publish_subject<int>{}; }); }
// the user stores the handle inside his own callback
extern "C" void H_self_reference()
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Hot h; std::atomic<int> alive{0};
        const int how = (int)sym_concrete(sym_u64("end", 0, 2));
        {
            auto d = rpp::composite_disposable_wrapper::make();
            (h.obs() | op::map([](int v) { return v; }) | op::take(5)).subscribe(d, [d = d.as_weak(), c = Cap{&alive}](int v) { if (v == 3) d.dispose(); });
            h.ev(NEXT, 3 + (how == 0));
            if (how == 1) h.ev(DONE, 0);
            if (how == 2) d.dispose();
        }
        h.o.reset();
        sym_check(alive == 0, "the callback is kept alive");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// thread schedulers: after the threads have ended nothing is left
template<class Sch> static void threads(Sch make)
{
    sym_preempt(1);
    const uint64_t live = sym_heap_live();
    {
        Consumer c; c.r.check_overlap = false; std::atomic<int> cb_alive{0};
        const int how = (int)sym_concrete(sym_u64("end", 0, 1));
        {
            auto s = make();
            (src::just(rpp::schedulers::immediate{}, 1, 2) | op::map([k = Cap{&cb_alive}](int v) { return v; }) | op::observe_on(s)).subscribe(c.observer());
            if (how) c.d.dispose();
        }
        sym_join_all();
        c.d = rpp::composite_disposable_wrapper::empty();
        sym_check(c.alive == 0 && cb_alive == 0, "callbacks outlive the threads");
    }
    (void)live;
}
extern "C" void H_new_thread() { threads([] { return rpp::schedulers::new_thread{}; }); }
