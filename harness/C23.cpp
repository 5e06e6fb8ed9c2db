//@ bound: containers of 0..4 (thorough: 5) arbitrary values (vector, list, array, an infinite and a throwing range), unsubscription inside any on_next, schedulers immediate/current_thread/run_loop/new_thread, stack and shared storage
//@ preempt: 1
#define H_VALUE V
#include "sched.hpp"
#include <list>
#include <array>
using namespace h;
namespace op = rpp::operators;
namespace source = rpp::source;
static const int N = THOROUGH ? 5 : 4;
// a subscriber that leaves inside its at-th value
struct Leaver
{
    Rec r; int at; bool gone = false;
    rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
    int tids = 0, tid = -1;
    explicit Leaver(int a) : at{a} {}
    template<class T = int, class O> void listen(const O& o)
    {
        o.subscribe(d, [this](const T& v) { seen(); r.on_next((int64_t)v); if (r.nexts() == at) { d.dispose(); gone = true; sym_cover("left"); } }, [this](const std::exception_ptr& e) { seen(); r.on_error(e); }, [this] { seen(); r.on_completed(); });
    }
    void seen() { sym_check(!gone, "notification after dispose()"); if (tid < 0) tid = sym_tid(); sym_check(tid == sym_tid(), "notifications must come from one thread"); }
    // what remains of the expectation when leaving early
    Exp cut(const Exp& e) const
    {
        Exp x; int k = 0;
        for (int i = 0; i < e.n; ++i) { x.kind[x.n] = e.kind[i]; x.val[x.n++] = e.val[i]; if (e.kind[i] == NEXT && ++k == at) break; }
        return x;
    }
};
// runs f(scheduler) on an arbitrary scheduler and lets everything it has scheduled finish
template<class F>
static void on_scheduler(Leaver& l, bool threads, F&& f)
{
    const int k = (int)sym_concrete(sym_u64("scheduler", 0, threads ? 3 : 2));
    if (k == 0) f(sch::immediate{});
    else if (k == 1) f(sch::current_thread{});
    else if (k == 2)
    {
        sch::run_loop loop{};
        f(loop);
        sym_check(l.r.n == 0, "nothing may be emitted before the run_loop is dispatched");
        while (!loop.is_empty()) loop.dispatch();
    }
    else
    {
        { f(sch::new_thread{}); sym_join_all(); }
        if (l.tid >= 0) sym_check(l.tid != sym_tid(), "the values must be emitted on the new thread");
    }
    if (k < 3 && l.tid >= 0) sym_check(l.tid == sym_tid(), "the values must be emitted on the calling thread");
}
extern "C" void H_from_iterable()
{
    sym_want("left"); sym_want("all");
    const uint64_t live = sym_heap_live();
    {
        const int n = (int)sym_concrete(sym_u64("n", 0, N));
        std::vector<val_t> v;
        Exp e;
        for (int i = 0; i < n; ++i) { v.push_back(any_int("v")); e.next(v.back()); }
        e.done();
        const std::vector<val_t> keep = v;
        Leaver l{(int)sym_concrete(sym_u64("at", 0, n))};
        const int form = (int)sym_concrete(sym_u64("form", 0, 3));
        on_scheduler(l, form == 0, [&](const auto& s) {
            if (form == 0) l.listen(source::from_iterable(v, s));
            else if (form == 1) l.listen(source::from_iterable<rpp::memory_model::use_shared>(v, s));
            else if (form == 2) l.listen(source::from_iterable(std::list<val_t>(v.begin(), v.end()), s));
            else { const auto o = source::from_iterable(std::vector<val_t>(v), s); v.clear(); l.listen(o); v = keep; }
        });
        l.cut(e).check(l.r, "from_iterable must emit exactly the elements in order, then complete");
        sym_check(v == keep, "the user's container must not be modified");
        if (l.r.completed() && n == N) sym_cover("all");
        if (l.at == 0) sym_check(l.d.is_disposed(), "subscription disposed after completion");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_just()
{
    sym_want("left");
    const uint64_t live = sym_heap_live();
    {
        const int a = any_int("a"), b = any_int("b"), c = any_int("c");
        const int n = (int)sym_concrete(sym_u64("n", 1, 3)), form = (int)sym_concrete(sym_u64("form", 0, 1));
        Exp e; e.next(a); if (n > 1) e.next(b); if (n > 2) e.next(c); e.done();
        Leaver l{(int)sym_concrete(sym_u64("at", 0, n))};
        on_scheduler(l, n == 2, [&](const auto& s) {
            if (form == 0) { if (n == 1) l.listen(source::just(s, a)); else if (n == 2) l.listen(source::just(s, a, b)); else l.listen(source::just(s, a, b, c)); }
            else { using S = rpp::memory_model::use_shared; if (n == 1) l.listen(source::just<S>(s, a)); else if (n == 2) l.listen(source::just<S>(s, a, b)); else l.listen(source::just<S>(s, a, b, c)); }
        });
        l.cut(e).check(l.r, "just must emit exactly its arguments in order, then complete");
        Leaver m{0};
        if (form == 0) m.listen(source::just(a, b)); else m.listen(source::just<rpp::memory_model::use_shared>(a, b));
        Exp f; f.next(a); f.next(b); f.done();
        f.check(m.r, "just without a scheduler");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// a range whose operations can throw at an arbitrary place, and which may be endless
struct Range
{
    int size, first, bad_begin = 0, bad_deref = -1, bad_inc = -1;
    struct It
    {
        using iterator_category = std::forward_iterator_tag; using value_type = int; using difference_type = int64_t; using pointer = const int*; using reference = const int&;
        const Range* r = nullptr; int i = 0; mutable int v = 0;
        const int& operator*() const { if (i == r->bad_deref) throw Err{600 + i}; v = (int)((unsigned)r->first + (unsigned)i); return v; }
        It& operator++() { sym_check(i < 12, "iteration goes on although the subscriber has left"); if (i == r->bad_inc) throw Err{700 + i}; ++i; return *this; }
        It operator++(int) { It c = *this; ++*this; return c; }
        bool operator==(const It& o) const { return i == o.i; }
    };
    It begin() const { if (bad_begin) throw Err{800}; return It{this, 0}; }
    It end() const { return It{this, size}; }
};
extern "C" void H_throwing_range()
{
    sym_want("deref"); sym_want("inc"); sym_want("begin"); sym_want("left");
    const uint64_t live = sym_heap_live();
    {
        Range x{(int)sym_concrete(sym_u64("size", 0, 3)), any_int("first")};
        const int what = (int)sym_concrete(sym_u64("what", 0, 3)), where = (int)sym_concrete(sym_u64("where", 0, 2));
        if (what == 1) x.bad_begin = 1;
        if (what == 2) x.bad_deref = where;
        if (what == 3) x.bad_inc = where;
        Exp e;
        if (what == 1) { e.error(800); sym_cover("begin"); }
        else for (int i = 0;; ++i)
        {
            if (i == x.size) { e.done(); break; }
            if (i == x.bad_deref) { e.error(600 + i); sym_cover("deref"); break; }
            e.next((int)((unsigned)x.first + (unsigned)i));
            if (i == x.bad_inc) { e.error(700 + i); sym_cover("inc"); break; }
        }
        Leaver l{(int)sym_concrete(sym_u64("at", 0, 2))};
        on_scheduler(l, false, [&](const auto& s) { l.listen(source::from_iterable(x, s)); });
        l.cut(e).check(l.r, "an exception of the range must become the error after the elements before it");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_endless_range()
{
    sym_want("left");
    const uint64_t live = sym_heap_live();
    {
        Range x{1000, any_int("first")};
        const int how = (int)sym_concrete(sym_u64("how", 0, 1)), k = (int)sym_concrete(sym_u64("k", 1, 3));
        Exp e; for (int i = 0; i < k; ++i) e.next((int)((unsigned)x.first + (unsigned)i));
        if (how) e.done();
        Leaver l{how ? 0 : k};
        on_scheduler(l, true, [&](const auto& s) { if (how) l.listen(source::from_iterable(x, s) | op::take((size_t)k)); else l.listen(source::from_iterable(x, s)); });
        e.check(l.r, "an endless source must stop when the subscriber leaves");
        sym_cover("left");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_callable()
{
    sym_want("threw"); sym_want("value"); sym_want("void");
    const uint64_t live = sym_heap_live();
    {
        const int v = any_int("v"), thr = (int)sym_concrete(sym_u64("throws", 0, 1)), form = (int)sym_concrete(sym_u64("form", 0, 2));
        int calls = 0;
        Leaver l{(int)sym_concrete(sym_u64("at", 0, 1))};
        auto fn = [&] { ++calls; if (thr) throw Err{thr + 41}; return v; };
        Exp e;
        if (thr) { e.error(42); sym_cover("threw"); } else { e.next(form == 2 ? 5 : v); e.done(); }
        if (form == 0) { const auto o = source::from_callable(fn); sym_check(calls == 0, "the callable must not run before the subscription"); l.listen(o); sym_cover("value"); }
        else if (form == 1) l.listen(source::from_callable<rpp::memory_model::use_shared>(fn));
        else { l.listen(source::from_callable([&] { fn(); }) | op::map([](rpp::utils::none) { return 5; })); sym_cover("void"); }
        l.cut(e).check(l.r, "from_callable must emit the result, or the exception as error");
        sym_check(calls == 1, "the callable must run once per subscription");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_simple()
{
    const uint64_t live = sym_heap_live();
    {
        Leaver a{0}, b{0}, c{0};
        int made = 0;
        const int id = (int)sym_concrete(sym_u64("id", 0, 3));
        a.listen(source::empty<val_t>()); b.listen(source::error<val_t>(mkerr(id))); c.listen(source::never<val_t>());
        Exp x, y, z; x.done(); y.error(id);
        x.check(a.r, "empty"); y.check(b.r, "error"); z.check(c.r, "never");
        sym_check(a.d.is_disposed() && b.d.is_disposed() && !c.d.is_disposed(), "only never leaves the subscription alive");
        // defer: a fresh source for every subscription
        Script s = Script::any(3, true);
        auto o = source::defer([&] { const int k = ++made; return source::create<val_t>([&s, k](const auto& ob) { ob.on_next(k); for (int i = 0; i < s.n; ++i) emit(ob, s.kind[i], s.val[i]); }); });
        sym_check(made == 0, "defer must not call the factory before the subscription");
        for (int k = 1; k <= 2; ++k)
        {
            Leaver d{(int)sym_concrete(sym_u64("at", 0, 2))};
            d.listen(o);
            Exp e; e.next(k);
            for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
            d.cut(e).check(d.r, "defer/create must deliver what the source emits");
            sym_check(made == k, "defer must call the factory once per subscription");
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_concat()
{
    sym_want("left");
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::wellformed(1), t = Script::wellformed(1, "w");
        auto mk = [](Script& x, int& subs) { return source::create<val_t>([&x, &subs](auto&& o) { ++subs; for (int i = 0; i < x.n; ++i) emit(o, x.kind[i], x.val[i]); }); };
        int s1 = 0, s2 = 0, s3 = 0;
        Script u; u.n = u.legal = 1; u.kind[0] = DONE;
        Exp e;
        auto add = [&](const Script& x) { for (int i = 0; i < x.legal; ++i) { if (x.kind[i] == NEXT) e.next(x.val[i]); else if (x.kind[i] == ERR) e.error(x.val[i] & 1023); } return x.last_kind() == DONE; };
        const bool second = add(s), third = second && add(t);
        if (third) e.done();
        Leaver l{(int)sym_concrete(sym_u64("at", 0, 2))};
        const int form = (int)sym_concrete(sym_u64("form", 0, 2));
        if (form == 0) l.listen(source::concat(mk(s, s1), mk(t, s2), mk(u, s3)));
        else if (form == 1) l.listen(source::concat(std::vector<rpp::dynamic_observable<val_t>>{mk(s, s1).as_dynamic(), mk(t, s2).as_dynamic(), mk(u, s3).as_dynamic()}));
        else l.listen(source::concat<rpp::memory_model::use_shared>(mk(s, s1), mk(t, s2).as_dynamic(), mk(u, s3)));
        l.cut(e).check(l.r, "concat must deliver source after source");
        if (!l.gone) sym_check(s1 == 1 && s2 == second && s3 == third, "concat must subscribe to a source only when the previous one has completed");
        // a throwing range of sources
        Leaver m{0};
        struct Bad { int mode; Script* s; int* n; rpp::dynamic_observable<val_t> mkd() const { return source::just(sch::immediate{}, val_t{4}).as_dynamic(); }
            struct It { using iterator_category = std::forward_iterator_tag; using value_type = rpp::dynamic_observable<val_t>; using difference_type = int64_t; using pointer = const value_type*; using reference = value_type; const Bad* b = nullptr; int i = 0;
                value_type operator*() const { if (b->mode == 1 && i == 1) throw Err{11}; return b->mkd(); } It& operator++() { if (b->mode == 2 && i == 1) throw Err{12}; ++i; return *this; } It operator++(int) { It c = *this; ++*this; return c; } bool operator==(const It& o) const { return i == o.i; } };
            It begin() const { if (mode == 0) throw Err{10}; return {this, 0}; } It end() const { return {this, 2}; } } bad{(int)sym_concrete(sym_u64("bad", 0, 2)), &s, &s1};
        m.listen(source::concat(bad));
        Exp f; if (bad.mode == 0) f.error(10); else { f.next(4); f.error(bad.mode == 1 ? 11 : 12); }
        f.check(m.r, "an exception of the range of sources must become the error");
    }
    sym_check(sym_heap_live() == live, "leak");
}
