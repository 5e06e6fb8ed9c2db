//@ bound: a source that ignores every rule: up to 3 (thorough: 4) events of arbitrary kind and value from one thread, continuing after terminal events and after disposal, also emitting re-entrantly from inside the callbacks; through direct subscription and through operator chains
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 4 : 3;
static void model(const Script& s, Exp& e)
{
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
}
extern "C" void H_direct()
{
    sym_want("after");
    Script s = Script::any(N, true);
    if (s.legal < s.n) sym_cover("after");
    Exp e; model(s, e);
    drive(s, [](const auto& o) { return o; }, e, "the observer must see exactly the events up to the first terminal one");
}
// every member of the family of ways to subscribe sees the same protocol
extern "C" void H_subscribe_forms()
{
    Script s = Script::any(N, true);
    Exp e; model(s, e);
    Rec r;
    const int form = (int)sym_concrete(sym_u64("form", 0, 7));
    auto src = rpp::source::create<int>([&](auto&& o) { for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
    auto nx = [&](int v) { r.on_next(v); };
    auto er = [&](const std::exception_ptr& x) { r.on_error(x); };
    auto co = [&] { r.on_completed(); };
    auto d = rpp::composite_disposable_wrapper::make();
    bool has_d = true;
    switch (form)
    {
    case 0: src.subscribe(nx, er, co); has_d = false; break;
    case 1: src.subscribe(d, nx, er, co); break;
    case 2: d = src.subscribe_with_disposable(nx, er, co); break;
    case 3: src.subscribe(d, sink(r)); break;
    case 4: d = src.subscribe_with_disposable(sink(r)); break;
    case 5: src.subscribe(sink(r).as_dynamic()); has_d = false; break;
    case 6: d = src.subscribe_with_disposable(sink(r).as_dynamic()); break;
    case 7: src | op::subscribe(d, nx, er, co); break;
    }
    e.check(r, "every form of subscribe must deliver the same notifications");
    if (has_d) sym_check(d.is_disposed() == e.terminated(), "the returned disposable is disposed exactly when the stream has ended");
    // already disposed subscription: nothing at all
    Rec r2;
    auto dd = rpp::composite_disposable_wrapper::make();
    dd.dispose();
    bool called = false;
    auto src2 = rpp::source::create<int>([&](auto&& o) { called = true; for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
    if (sym_bool("f2")) src2.subscribe(dd, [&](int v) { r2.on_next(v); }, [&](const std::exception_ptr& x) { r2.on_error(x); }, [&] { r2.on_completed(); });
    else src2.subscribe(dd, sink(r2));
    sym_check(r2.n == 0 && !called, "a disposed subscription must not start the source");
}
// two sources misbehaving into one pipeline one after the other (subject fed by both)
extern "C" void H_chain()
{
    Script s = Script::any(N, true);
    Exp e; 
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next((int)((unsigned)s.val[i] + 1u)); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
    drive(s, [](const auto& o) { return o | op::map([](int v) { return (int)((unsigned)v + 1u); }) | op::filter([](int) { return true; }) | op::tap([](int) {}) | op::skip(0) | op::scan([](int, int b) { return b; }); }, e, "chain", 1);
}
// the observer's callbacks re-enter the source
extern "C" void H_reentrant()
{
    sym_want("nested");
    Rec r; r.check_overlap = false;
    rpp::subjects::publish_subject<int> subj{};
    const int at = (int)sym_concrete(sym_u64("at", 0, 2)), inner = (int)sym_concrete(sym_u64("inner", 0, 2)), v1 = any_int("v"), v2 = any_int("w");
    const int last = (int)sym_concrete(sym_u64("last", 0, 2));
    auto o = subj.get_observer();
    bool nested = false;
    auto pipe = subj.get_observable() | op::map([](int v) { return v; });
    auto again = [&] { if (!nested) { nested = true; emit(o, inner, v2); sym_cover("nested"); } };
    pipe.subscribe([&](int v) { r.on_next(v); if (at == 0) again(); }, [&](const std::exception_ptr& x) { r.on_error(x); if (at == 1) again(); }, [&] { r.on_completed(); if (at == 2) again(); });
    emit(o, NEXT, v1);
    emit(o, last, v1);
    emit(o, NEXT, v2);
    emit(o, DONE, 0);
    r.log();
    // the grammar itself is asserted by Rec; the content:
    sym_check(r.n >= 1 && r.kind[0] == NEXT && r.val[0] == v1, "first value lost");
    sym_check(r.term, "termination lost");
}
// a source which throws out of its subscription function after having emitted
extern "C" void H_own_observer()
{
    // user supplied observers wrapped by hand
    Script s = Script::any(N, true);
    Exp e; model(s, e);
    Rec r;
    const bool dyn = sym_bool("dyn");
    int up = 0;
    auto up_d = rpp::make_callback_disposable([&]() noexcept { ++up; });
    if (dyn)
    {
        auto o = sink(r).as_dynamic(); auto copy = o;
        o.set_upstream(up_d);
        for (int i = 0; i < s.n; ++i) emit((i & 1) ? copy : o, s.kind[i], s.val[i]);
        sym_check(o.is_disposed() == e.terminated() && copy.is_disposed() == e.terminated(), "observer is_disposed() must turn true exactly at the terminal event");
    }
    else
    {
        auto o = sink(r);
        o.set_upstream(up_d);
        for (int i = 0; i < s.n; ++i) { emit(o, s.kind[i], s.val[i]); }
        sym_check(o.is_disposed() == e.terminated(), "observer is_disposed() must turn true exactly at the terminal event");
        int up2 = 0;
        o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up2; }));
        sym_check(up2 == (e.terminated() ? 1 : 0), "an upstream handed to a finished observer must be disposed at once");
    }
    sym_check(up == 1 || !e.terminated(), "upstream must be disposed at the terminal event");
    e.check(r, "observer must see exactly the events up to the first terminal one");
}
