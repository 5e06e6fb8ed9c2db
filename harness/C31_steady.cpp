//@ bound: operators whose stream goes on while sub-streams, windows, groups, tasks or observers come and go: after 3..4 warm-up rounds, 3 more rounds (each of an arbitrary, equal shape) leave nothing more on the heap
//@ preempt: 0
#include "C31_life.hpp"
using namespace h;
using rpp::schedulers::test_scheduler;
using std::chrono::nanoseconds;
// One round may grow a table once (hence the slack of one block); what a round leaves behind for ever shows up three times.
template<class R> static void steady(R&& round, int slack = 2)
{
    for (int i = 0; i < 4; ++i) round(i);
    const uint64_t warm = sym_heap_live();
    for (int i = 4; i < 8; ++i) round(i);
    sym_cover("rounds");
    sym_check(sym_heap_live() <= warm + slack, "every round leaves something behind although all of it is finished");
}
template<class F> static void hot(F f, bool whole = true)
{
    sym_want("rounds");
    const uint64_t live = sym_heap_live();
    {
        Hot h; Rec r; const auto d = rpp::composite_disposable_wrapper::make();
        f(h, [&](const auto& o) { o.subscribe(d, [](const auto&) {}, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); }); });
        sym_check(r.term == 0, "the stream is still going on");
        d.dispose(); h.o.reset();
    }
    if (whole) sym_check(sym_heap_live() == live, "leak");
}
static int shape() { return (int)sym_concrete(sym_u64("shape", 0, 3)); }
static int cnt(const char* n, int hi) { return (int)sym_concrete(sym_u64(n, 0, (uint64_t)hi)); }
extern "C" void H_steady_window() { hot([](Hot& h, auto go) { const int n = cnt("n", 2) + 1; go(h.obs() | op::window(n)); steady([&](int) { for (int i = 0; i < n; ++i) h.ev(NEXT, i); }); }); }
extern "C" void H_steady_window_merge() { hot([](Hot& h, auto go) { const int n = cnt("n", 2) + 1; go(h.obs() | op::window(n) | op::merge()); steady([&](int) { for (int i = 0; i < n; ++i) h.ev(NEXT, i); }); }); }
extern "C" void H_steady_window_switch() { hot([](Hot& h, auto go) { const int n = cnt("n", 2) + 1; go(h.obs() | op::window(n) | op::map([](const auto& w) { return w | op::take(1); }) | op::switch_on_next()); steady([&](int) { for (int i = 0; i < n; ++i) h.ev(NEXT, i); }); }); }
extern "C" void H_steady_buffer() { hot([](Hot& h, auto go) { const int n = cnt("n", 2) + 1; go(h.obs() | op::buffer(n)); steady([&](int) { for (int i = 0; i < n; ++i) h.ev(NEXT, i); }); }); }
extern "C" void H_steady_group()
{
    hot([](Hot& h, auto go) {
        const int k = shape();
        if (k == 0) go(h.obs() | op::group_by([](int v) { return v & 1; }));
        else if (k == 1) go(h.obs() | op::group_by([](int v) { return v & 1; }) | op::merge());
        else if (k == 2) go(h.obs() | op::group_by([](int v) { return v & 1; }) | op::map([](const auto& g) { return g | op::take(1); }) | op::merge());
        else go(h.obs() | op::group_by([](int v) { return v & 1; }) | op::switch_on_next());
        steady([&](int) { h.ev(NEXT, 0); h.ev(NEXT, 1); });
    });
}
// window_toggle: a window is opened and closed by its own closing source in every round
struct Ends
{
    std::optional<rpp::dynamic_observer<val_t>> o;
    auto obs() { return rpp::source::create<val_t>([this](auto&& ob) { ob.set_upstream(rpp::make_callback_disposable([]() noexcept {})); o.emplace(std::move(ob).as_dynamic()); }); }
    void end(int kind) { auto x = std::move(*o); o.reset(); if (kind) { emit(x, NEXT, 1); } if (kind != 2) emit(x, DONE, 1); }
};
extern "C" void H_steady_toggle()
{
    Hot open; Ends c;
    hot([&](Hot& h, auto go) {
        const int kind = cnt("kind", 2), n = cnt("n", 1), merged = cnt("merged", 1);
        auto o = h.obs() | op::window_toggle(open.obs(), [&c](int) { return c.obs(); });
        if (merged) go(o | op::merge()); else go(o);
        steady([&](int) { open.ev(NEXT, 1); for (int i = 0; i < n; ++i) h.ev(NEXT, i); c.end(kind); });
    }, false);
    open.o.reset();
}
// inner sources which come and finish
template<class Op> static void inner(Op op_)
{
    hot([&](Hot& h, auto go) {
        const int n = cnt("n", 2), early = cnt("early", 1);
        Ends in;
        go(h.obs() | op::map([&in, early](int) { auto o = in.obs(); return early ? (o | op::take(1)).as_dynamic() : o.as_dynamic(); }) | op_);
        steady([&](int) { h.ev(NEXT, 1); auto x = *in.o; for (int i = 0; i < n && !x.is_disposed(); ++i) emit(x, NEXT, i); in.o.reset(); emit(x, DONE, 0); });
    });
}
extern "C" void H_steady_merge() { inner(op::merge()); }
extern "C" void H_steady_concat() { inner(op::concat()); }
extern "C" void H_steady_switch() { inner(op::switch_on_next()); }
// an inner source is replaced while it is still running
extern "C" void H_steady_switch_replaced()
{
    hot([&](Hot& h, auto go) {
        const int n = cnt("n", 1);
        Ends in;
        go(h.obs() | op::map([&in](int) { return in.obs(); }) | op::switch_on_next());
        steady([&](int) { h.ev(NEXT, 1); for (int i = 0; i < n; ++i) emit(*in.o, NEXT, i); });
        in.o.reset();
    });
}
// a source which is subscribed again and again
extern "C" void H_steady_repeat()
{
    hot([&](Hot&, auto go) {
        Ends in; const int n = cnt("n", 2), which = shape();
        if (which == 0) go(in.obs() | op::repeat());
        else if (which == 1) go(in.obs() | op::repeat(100));
        else if (which == 2) go(in.obs() | op::retry());
        else go(in.obs() | op::retry_when([](const std::exception_ptr&) { return rpp::source::just(rpp::schedulers::immediate{}, 1); }));
        steady([&](int) { auto x = std::move(*in.o); in.o.reset(); for (int i = 0; i < n; ++i) emit(x, NEXT, i); emit(x, which < 2 ? DONE : ERR, 1); });
        in.o.reset();
    });
}
// timed operators: tasks which ran leave nothing
template<class F> static void timed(F f, bool wait_each = true)
{
    const uint64_t live = sym_heap_live();
    {
    test_scheduler ts{};
    hot([&](Hot& h, auto go) {
        const int n = cnt("n", 2), gap = cnt("gap", 3);
        go(f(h.obs(), ts));
        steady([&](int) { for (int i = 0; i < n; ++i) { h.ev(NEXT, i); ts.time_advance(nanoseconds{gap}); } if (wait_each) ts.time_advance(nanoseconds{100}); }, 3);
    }, false);
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_steady_delay() { timed([](const auto& o, const auto& ts) { return o | op::delay(nanoseconds{2}, ts); }); }
extern "C" void H_steady_observe_on() { timed([](const auto& o, const auto& ts) { return o | op::observe_on(ts); }); }
extern "C" void H_steady_debounce() { timed([](const auto& o, const auto& ts) { return o | op::debounce(nanoseconds{2}, ts); }); }
extern "C" void H_steady_throttle() { timed([](const auto& o, const auto&) { return o | op::throttle<test_scheduler>(nanoseconds{2}); }); }
extern "C" void H_steady_timeout() { timed([](const auto& o, const auto& ts) { return o | op::timeout(nanoseconds{1000000}, ts); }); }
// observers which come and go on something which lives on
template<class S> static void guests(S s)
{
    sym_want("rounds");
    const int n = cnt("n", 2), keep = cnt("keep", 1);
    Rec r; const auto d = rpp::composite_disposable_wrapper::make();
    if (keep) s.get_observable().subscribe(d, sink(r));
    steady([&](int i) {
        rpp::composite_disposable_wrapper g[2] = {rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make()};
        for (auto& x : g) s.get_observable().subscribe(x, [](const auto&) {}, [](const std::exception_ptr&) {});
        for (int k = 0; k < n; ++k) s.get_observer().on_next(val_t{i});
        g[i & 1].dispose(); g[1 - (i & 1)].dispose();
    }, 3);
    d.dispose();
}
extern "C" void H_steady_guests_publish() { guests(rpp::subjects::publish_subject<val_t>{}); }
extern "C" void H_steady_guests_serialized() { guests(rpp::subjects::serialized_publish_subject<val_t>{}); }
extern "C" void H_steady_guests_behavior() { guests(rpp::subjects::behavior_subject<val_t>{val_t{1}}); }
extern "C" void H_steady_guests_replay() { guests(rpp::subjects::replay_subject<val_t>{2}); }
// guests of a group, of an open window and of a shared connection
template<class O> static void visit(const O& o, Hot& h, int n)
{
    steady([&](int i) {
        rpp::composite_disposable_wrapper g[2] = {rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make()};
        for (auto& x : g) o.subscribe(x, [](const auto&) {}, [](const std::exception_ptr&) {});
        for (int k = 0; k < n; ++k) h.ev(NEXT, 2);
        g[i & 1].dispose(); g[1 - (i & 1)].dispose();
    }, 3);
}
template<class Op> static void sub_guests(Op op_)
{
    sym_want("rounds");
    const uint64_t live = sym_heap_live();
    {
        Hot h; const int n = cnt("n", 2), keep = cnt("keep", 1); bool done = false;
        const auto d = rpp::composite_disposable_wrapper::make(); const auto k = rpp::composite_disposable_wrapper::make();
        (h.obs() | op_).subscribe(d, [&](const auto& g) {
            if (std::exchange(done, true)) return;
            if (keep) g.subscribe(k, [](const auto&) {});
            // the sub-stream is visited while its first value is on its way
            steady([&](int i) {
                rpp::composite_disposable_wrapper x[2] = {rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make()};
                for (auto& y : x) g.subscribe(y, [](const auto&) {}, [](const std::exception_ptr&) {});
                x[i & 1].dispose(); x[1 - (i & 1)].dispose();
            }, 3);
        }, [](const std::exception_ptr&) {});
        h.ev(NEXT, 2);
        for (int i = 0; i < n; ++i) h.ev(NEXT, 2);
        k.dispose(); d.dispose(); h.o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_steady_group_guests() { sub_guests(op::group_by([](int v) { return v & 1; })); }
extern "C" void H_steady_window_guests() { sub_guests(op::window(100)); }
extern "C" void H_steady_toggle_guests()
{
    sym_want("rounds");
    const uint64_t live = sym_heap_live();
    {
        Hot open; Ends c; const auto d = rpp::composite_disposable_wrapper::make();
        {
            auto o = rpp::source::never<val_t>() | op::window_toggle(open.obs(), [&c](int) { return c.obs(); });
            o.subscribe(d, [&](const auto& w) {
                steady([&](int i) {
                    rpp::composite_disposable_wrapper x[2] = {rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make()};
                    for (auto& y : x) w.subscribe(y, [](const auto&) {}, [](const std::exception_ptr&) {});
                    x[i & 1].dispose(); x[1 - (i & 1)].dispose();
                }, 3);
            }, [](const std::exception_ptr&) {});
        }
        open.ev(NEXT, 1);
        if (cnt("closed", 1)) c.end(0);
        d.dispose(); c.o.reset(); open.o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_steady_shared_guests()
{
    sym_want("rounds");
    const uint64_t live = sym_heap_live();
    {
        Hot h; const auto d = rpp::composite_disposable_wrapper::make();
        auto o = h.obs() | op::publish() | op::ref_count();
        o.subscribe(d, [](const auto&) {}, [](const std::exception_ptr&) {});
        visit(o, h, cnt("n", 2));
        sym_check(h.subs == 1 && h.up == 0, "the connection is shared");
        d.dispose(); h.o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}
// connections which are made and ended
static void connects(bool handle)
{
    sym_want("rounds");
    const int which = cnt("which", 1), n = cnt("n", 1);
    std::optional<rpp::dynamic_observer<val_t>> o;
    auto c = rpp::source::create<val_t>([&o, handle](auto&& ob) { if (handle) ob.set_upstream(rpp::make_callback_disposable([]() noexcept {})); o.emplace(std::move(ob).as_dynamic()); }) | op::publish();
    auto rc = c | op::ref_count();
    steady([&](int) {
        auto d = rpp::composite_disposable_wrapper::make();
        if (which)
        {
            rc.subscribe(d, [](const auto&) {}, [](const std::exception_ptr&) {});
            for (int k = 0; k < n; ++k) emit(*o, NEXT, k);
            d.dispose();
        }
        else
        {
            c.subscribe(d, [](const auto&) {}, [](const std::exception_ptr&) {});
            auto x = c.connect();
            for (int k = 0; k < n; ++k) emit(*o, NEXT, k);
            d.dispose(); x.dispose();
        }
        o.reset();
    }, 3);
}
extern "C" void H_steady_connect() { connects(false); }
extern "C" void H_steady_connect_handle() { connects(true); }
// children which are added and removed, or dispose themselves
extern "C" void H_steady_composite()
{
    sym_want("rounds");
    const int how = cnt("how", 2);
    const auto d = rpp::composite_disposable_wrapper::make();
    const auto rc = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make().lock();
    steady([&](int) {
        auto c = rpp::make_callback_disposable([]() noexcept {});
        if (how == 0) { d.add(c); d.remove(c); }
        else if (how == 1) { d.add(c); d.clear(); }
        else { auto ref = rc->add_ref(); ref.add(c); ref.dispose(); }
    });
}
