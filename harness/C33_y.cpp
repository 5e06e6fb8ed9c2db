//@ bound: every overload of subscribe, subscribe_with_disposable and operators::subscribe, over sources of up to 2 values with any termination (errors only where an error callback is given), with a live, a disposed and an empty handle, disposed before, inside or after the run; values arbitrary 32-bit
#include "pipes.hpp"
using namespace h;
using W = rpp::composite_disposable_wrapper;
struct strat
{
    Rec* r;
    void on_next(int v) const { r->on_next(v); }
    void on_error(const std::exception_ptr& e) const { r->on_error(e); }
    void on_completed() const { r->on_completed(); }
    static void set_upstream(const rpp::disposable_wrapper&) {}
    static bool is_disposed() { return false; }
};
static_assert(rpp::constraint::observer_strategy<strat, int>);
// Callbacks record what they were built to record; `has` says which kinds of events the form can see
struct Ctx
{
    Rec r; W d = W::empty(); bool given = false, returned = false;
    W ret = W::empty();
};
enum { N1 = 1, E1 = 2, C1 = 4, ALL = 7 };
// F(o, ctx, next, err, done): attaches; has: kinds seen; h: 0 form without handle, 1 handle given by the user, 2 handle returned
template<class F>
static void form(int has, int h, F attach)
{
    sym_want("events");
    if (h == 1) { sym_want("dead handle"); sym_want("cut"); }
    const uint64_t live = sym_heap_live();
    {
        Ctx c;
        const int n = (int)sym_concrete(sym_u64("n", 0, 2));
        int v[2]{};
        for (int i = 0; i < n; ++i) v[i] = any_int("v");
        const int term = (int)sym_concrete(sym_u64("term", 0, 2));
        sym_assume(term != ERR || (has & E1));
        const int handle = h == 1 ? (int)sym_concrete(sym_u64("handle", 0, 2)) : 0;     // live, disposed, empty
        const int cut = h ? (int)sym_concrete(sym_u64("cut", 0, 3)) : 0;                // dispose after `cut` values (0: never)
        const bool from_outside = sym_bool("outside");
        int subs = 0, up = 0;
        rpp::subjects::publish_subject<int> subj{};
        auto run = [&](const auto& o) {
            for (int i = 0; i < n; ++i)
            {
                o.on_next(int(v[i]));
                if (cut == i + 1) { if (h == 1) c.d.dispose(); else c.ret.dispose(); }
            }
            if (term == ERR) o.on_error(mkerr(5)); else if (term == DONE) o.on_completed();
        };
        auto src = rpp::source::create<int>([&](auto&& o) {
            ++subs;
            o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up; }));
            if (from_outside) subj.get_observable().subscribe(std::move(o)); else run(o);
        });
        if (h == 1 && handle != 2) { c.d = W::make(); if (handle == 1) c.d.dispose(); }
        auto next = [&c](int x) { c.r.on_next(x); };
        auto err = [&c](const std::exception_ptr& e) { c.r.on_error(e); };
        auto done = [&c] { c.r.on_completed(); };
        attach(src, c, next, err, done);
        if (from_outside) run(subj.get_observer());
        c.r.log();
        Exp e;
        const bool dead = handle != 0;
        const int stop = cut && cut <= n && (h == 1 || (from_outside && h == 2)) ? cut : 0;    // a returned handle does not exist yet while the source runs synchronously
        if (!dead)
        {
            for (int i = 0; i < (stop ? stop : n); ++i) e.next(v[i]);
            if (!stop && term == ERR) e.error(5);
            if (!stop && term == DONE && (has & C1)) e.done();
            sym_cover("events");
            if (stop) sym_cover("cut");
        }
        else { sym_check(subs == 0, "subscribed although the given handle was disposed already"); sym_cover("dead handle"); }
        e.check(c.r, "the subscription form changes the events");
        const bool over = !dead && (term || stop);
        if (h == 1) sym_check(c.ret == c.d, "subscribe(disposable, ...) must return the disposable it was given");
        if (h && !dead) sym_check(c.ret.is_disposed() == over, "the handle does not tell whether the subscription is over");
        sym_check(up == (over || (!h && !from_outside) ? 1 : 0), "source released at the wrong moment");
        if (h) { c.ret.dispose(); sym_check(up == subs, "source not released by the handle"); }
        subj.get_disposable().dispose();
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define FORM(name, has, h, expr) extern "C" void H_form_##name() { form(has, h, [](const auto& o, Ctx& c, auto next, auto err, auto done) { (void)next; (void)err; (void)done; expr; }); }
#ifndef FORMS_ONLY
// without a handle
FORM(n, N1, 0, o.subscribe(next))
FORM(ne, N1 | E1, 0, o.subscribe(next, err))
FORM(nc, N1 | C1, 0, o.subscribe(next, done))
FORM(strategy, ALL, 0, o.subscribe(strat{&c.r}))
FORM(dynamic, ALL, 0, (o.subscribe(rpp::make_lambda_observer<int>(next, err, done).as_dynamic())))
// handle given
FORM(d_n, N1, 1, c.ret = o.subscribe(c.d, next))
FORM(d_nc, N1 | C1, 1, c.ret = o.subscribe(c.d, next, done))
FORM(d_nec, ALL, 1, c.ret = o.subscribe(c.d, next, err, done))
FORM(d_strategy, ALL, 1, c.ret = o.subscribe(c.d, strat{&c.r}))
FORM(d_observer, ALL, 1, (c.ret = o.subscribe(c.d, rpp::make_lambda_observer<int>(next, err, done))))
// handle returned
FORM(w_n, N1, 2, c.ret = o.subscribe_with_disposable(next))
FORM(w_nc, N1 | C1, 2, c.ret = o.subscribe_with_disposable(next, done))
FORM(w_nec, ALL, 2, c.ret = o.subscribe_with_disposable(next, err, done))
FORM(w_strategy, ALL, 2, c.ret = o.subscribe_with_disposable(strat{&c.r}))
FORM(w_observer, ALL, 2, (c.ret = o.subscribe_with_disposable(rpp::make_lambda_observer<int>(next, err, done))))
FORM(w_dynamic, ALL, 2, (c.ret = o.subscribe_with_disposable(rpp::make_lambda_observer<int>(next, err, done).as_dynamic())))
// an observer which is disposed already is not subscribed and the returned handle says so
extern "C" void H_form_dead_observer()
{
    int subs = 0;
    auto src = rpp::source::create<int>([&](auto&& o) { ++subs; o.on_completed(); });
    Rec r;
    auto d = W::make();
    if (sym_bool("disposed")) d.dispose(); else d = W::empty();
    auto ret = src.subscribe_with_disposable(rpp::make_lambda_observer<int>(d, [&](int v) { r.on_next(v); }, [&](const std::exception_ptr& e) { r.on_error(e); }, [&] { r.on_completed(); }));
    sym_check(ret.is_disposed(), "the handle of a subscription that never happened must report it as over");
    src.subscribe(rpp::make_lambda_observer<int>(d, [&](int v) { r.on_next(v); }, [&](const std::exception_ptr& e) { r.on_error(e); }, [&] { r.on_completed(); }));
    sym_check(subs == 0 && r.n == 0, "a disposed observer was subscribed");
}
#endif
