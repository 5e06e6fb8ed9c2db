// Counting what a subscription keeps alive.
#pragma once
#include "pipes.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
namespace h
{
    struct Cap      // lives wherever the callback which captured it lives
    {
        std::atomic<int>* n;
        explicit Cap(std::atomic<int>* p) : n{p} { ++*n; }
        Cap(const Cap& o) : n{o.n} { ++*n; }
        Cap(Cap&& o) noexcept : n{o.n} { ++*n; }
        Cap& operator=(const Cap&) = delete;
        ~Cap() { sym_check((*n)-- > 0, "destroyed twice"); }
    };
    struct Consumer
    {
        std::atomic<int> alive{0}; Rec r; rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
        int  dispose_at = -1, seen = 0;
        template<class T = int> auto observer()
        {
            return rpp::make_lambda_observer<T>(d, [this, c = Cap{&alive}](const T&) { r.on_next(0); if (seen++ == dispose_at) { auto x = d; d = rpp::composite_disposable_wrapper::empty(); x.dispose(); } }, [this, c = Cap{&alive}](const std::exception_ptr& e) { r.on_error(e); }, [this, c = Cap{&alive}] { r.on_completed(); });
        }
    };
    enum End { COMPLETE, FAIL, DISPOSE, INSIDE, DROPPED };
    // a source which keeps its observer; the observer is dropped last
    template<class F> void life_source(F pipeline)
    {
        sym_preempt(0);
        const uint64_t live = sym_heap_live();
        {
            Hot h; Consumer c; std::atomic<int> up_alive{0}, cb_alive{0};
            const int how = (int)sym_concrete(sym_u64("end", 0, 4)), n = (int)sym_concrete(sym_u64("n", 0, 2));
            const bool late_handle = how == DISPOSE || sym_concrete(sym_u64("handle", 0, 1));
            if (how == INSIDE) c.dispose_at = (int)sym_concrete(sym_u64("at", 0, 1));
            {
                auto src = h.obs() | op::map([k = Cap{&cb_alive}](int v) { return v; }) | op::finally([k = Cap{&up_alive}]() noexcept {});
                pipeline(src).subscribe(c.observer());
            }
            if (!late_handle) c.d = rpp::composite_disposable_wrapper::empty();
            for (int i = 0; i < n; ++i) h.ev(NEXT, any_int("v"));
            if (how == COMPLETE) { h.ev(DONE, 0); sym_cover("completed"); }
            if (how == FAIL) h.ev(ERR, 1);
            if (how == DISPOSE) { c.d.dispose(); c.d = rpp::composite_disposable_wrapper::empty(); }
            if (c.r.term || how == DISPOSE) sym_check(h.up == h.subs, "the source must be released");
            c.d = rpp::composite_disposable_wrapper::empty();
            h.o.reset();
            sym_check(c.alive == 0, "a callback outlives the subscription and its source");
            sym_check(cb_alive == 0 && up_alive == 0, "a callback of an operator outlives the subscription and its source");
            c.r.log();
        }
        sym_check(sym_heap_live() == live, "leak");
    }
    // a subject which outlives the subscription
    template<class F> void life_subject(F pipeline)
    {
        sym_preempt(0);
        const uint64_t live = sym_heap_live();
        {
            rpp::subjects::publish_subject<int> s{}; Consumer c; std::atomic<int> cb_alive{0}; Rec other;
            s.get_observable().subscribe(sink(other));
            const uint64_t mid = sym_heap_live();
            const int how = (int)sym_concrete(sym_u64("end", 0, 3)), n = (int)sym_concrete(sym_u64("n", 0, 2));
            if (how == INSIDE) c.dispose_at = (int)sym_concrete(sym_u64("at", 0, 1));
            pipeline(s.get_observable() | op::map([k = Cap{&cb_alive}](int v) { return v; })).subscribe(c.observer());
            for (int i = 0; i < n; ++i) s.get_observer().on_next(any_int("v"));
            if (how == COMPLETE) s.get_observer().on_completed();
            if (how == FAIL) s.get_observer().on_error(mkerr(1));
            if (how == DISPOSE || !c.r.term) { auto x = c.d; c.d = rpp::composite_disposable_wrapper::empty(); x.dispose(); }
            c.d = rpp::composite_disposable_wrapper::empty();
            sym_check(c.alive == 0 && cb_alive == 0, "a subject keeps a finished or disposed subscription alive");
            sym_cover("subject alive");
            if (how == DISPOSE || how == INSIDE)
            {
                sym_check(sym_heap_live() <= mid + 1, "memory of a disposed subscription is kept by the subject");
                s.get_observer().on_next(1);
                sym_check(other.n == n + 1, "the other observer goes on");
            }
        }
        sym_check(sym_heap_live() == live, "leak");
    }
}
#define S(name, expr) extern "C" void H_src_##name() { life_source([](const auto& o) { return expr; }); }
#define U(name, expr) extern "C" void H_subject_##name() { sym_want("subject alive"); life_subject([](const auto& o) { return expr; }); }
