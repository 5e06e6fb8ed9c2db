// Shared pieces of the harnesses: recording observers, symbolic sources and expected traces.
#pragma once
#include <rpp/rpp.hpp>
#include "sym.h"
#include <climits>
#include <thread>
#include <string>
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace h
{
    enum Kind { NEXT = 0, ERR = 1, DONE = 2 };
    struct Err { int id; };                                                    // the exception type used by every harness
    inline std::exception_ptr mkerr(int id) { return std::make_exception_ptr(Err{id}); }
    inline int err_id(const std::exception_ptr& e)
    {
        if (!e) return -7;
        try { std::rethrow_exception(e); }
        catch (const Err& x) { return x.id; }
        catch (const rpp::utils::timeout_reached&) { return 9001; }
        catch (const rpp::utils::not_enough_emissions&) { return 9002; }
        catch (const rpp::utils::out_of_range&) { return 9003; }
        catch (const rpp::utils::more_disposables_than_expected&) { return 9004; }
        catch (...) { return -1; }
    }
    inline int any_int(const char* n) { return (int)(uint32_t)sym_u64(n, 0, 0xffffffffu); }

    // A value with a destructive move: reading it afterwards is an error. A harness opts in with #define H_VALUE V.
    struct V
    {
        int v; bool live = true;
        V(int x) : v{x} {}
        V(const V& o) : v{o.v}, live{o.live} { sym_check(live, "a moved-from value was copied"); }
        V(V&& o) noexcept : v{o.v}, live{o.live} { o.kill(); }
        V& operator=(const V& o) { v = o.v; live = o.live; sym_check(live, "a moved-from value was copied"); return *this; }
        V& operator=(V&& o) noexcept { if (this != &o) { v = o.v; live = o.live; o.kill(); } return *this; }
        operator int() const { sym_check(live, "a moved-from value was delivered"); return v; }
        void kill() { v = -77777777; live = false; }
        friend bool operator==(const V& a, const V& b) { return (int)a == (int)b; }
    };
}
template<> struct std::hash<h::V> { size_t operator()(const h::V& x) const { return (size_t)((int)x & 1); } };      // weak on purpose: collisions are common
namespace h
{
#ifndef H_VALUE
#define H_VALUE int
#endif
    using val_t = H_VALUE;
    // Records everything an observer sees and asserts the notification grammar while doing so.
    struct Rec
    {
        static constexpr int MAX = 24;
        int     n = 0, kind[MAX]{};
        int64_t val[MAX]{};
        bool    term = false;
        int     inside = 0;
        bool    check_overlap = true;
        struct In
        {
            Rec& r;
            In(Rec& x, const char* what) : r{x} { if (r.check_overlap) sym_check(r.inside == 0, what); ++r.inside; }
            ~In() { --r.inside; }
        };
        void push(int k, int64_t v)
        {
            sym_check(!term, "notification delivered after on_error/on_completed");
            sym_check(n < MAX, "more notifications than the source produced");
            kind[n] = k; val[n] = v; ++n;
            if (k != NEXT) term = true;
        }
        void on_next(int64_t v) { In i{*this, "overlapping notifications"}; push(NEXT, v); }
        void on_error(const std::exception_ptr& e) { In i{*this, "overlapping notifications"}; push(ERR, err_id(e)); }
        void on_completed() { In i{*this, "overlapping notifications"}; push(DONE, 0); }
        int  count(int k) const { int c = 0; for (int i = 0; i < n; ++i) c += kind[i] == k; return c; }
        int  nexts() const { return count(NEXT); }
        bool errored() const { return n && kind[n - 1] == ERR; }
        bool completed() const { return n && kind[n - 1] == DONE; }
        void log() const { sym_log(n); for (int i = 0; i < n; ++i) { sym_log(kind[i]); sym_log(val[i]); } }
    };
    // Expected trace.
    struct Exp
    {
        int     n = 0, kind[Rec::MAX]{};
        int64_t val[Rec::MAX]{};
        void next(int64_t v) { kind[n] = NEXT; val[n++] = v; }
        void error(int id) { kind[n] = ERR; val[n++] = id; }
        void done() { kind[n] = DONE; val[n++] = 0; }
        bool terminated() const { return n && kind[n - 1] != NEXT; }
        int  nexts_() const { int c = 0; for (int i = 0; i < n; ++i) c += kind[i] == NEXT; return c; }
        void check(const Rec& r, const char* what) const
        {
            r.log();
            sym_check(r.n == n, what);
            for (int i = 0; i < n; ++i) { sym_check(r.kind[i] == kind[i], what); sym_check(r.val[i] == val[i], what); }
        }
    };
    template<class T = val_t>
    auto sink(Rec& r)
    {
        return rpp::make_lambda_observer<T>([&r](T v) { r.on_next((int64_t)v); }, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); });
    }
    template<class T = val_t>
    auto sink(const rpp::composite_disposable_wrapper& d, Rec& r)
    {
        return rpp::make_lambda_observer<T>(d, [&r](T v) { r.on_next((int64_t)v); }, [&r](const std::exception_ptr& e) { r.on_error(e); }, [&r] { r.on_completed(); });
    }
    // An observer that implements the strategy interface itself.
    template<class T = val_t>
    struct strategy_sink
    {
        Rec* r;
        void on_next(const T& v) const { r->on_next((int64_t)v); }
        void on_error(const std::exception_ptr& e) const { r->on_error(e); }
        void on_completed() const { r->on_completed(); }
        static void set_upstream(const rpp::disposable_wrapper&) {}
        static bool is_disposed() { return false; }
    };

    // A symbolic source: at most N events of arbitrary kind and value; events after the first terminal one are the source
    // misbehaving.
    struct Script
    {
        static constexpr int MAX = 6;
        int n = 0, kind[MAX]{}, val[MAX]{};
        int legal = 0;      // number of events up to and including the first terminal event
        static Script any(int maxn, bool misbehave, const char* vn = "v", const char* kn = "k")
        {
            Script s;
            s.n = (int)sym_concrete(sym_u64("n", 0, maxn));
            bool t = false;
            for (int i = 0; i < s.n; ++i)
            {
                if (t && !misbehave) { s.n = i; break; }
                s.kind[i] = (int)sym_concrete(sym_u64(kn, 0, 2));
                s.val[i]  = any_int(vn);
                if (!t) s.legal = i + 1;
                if (s.kind[i] != NEXT) t = true;
            }
            return s;
        }
        // a well-behaved script of exactly/up to maxn values followed by an arbitrary termination (none, error, completion)
        static Script wellformed(int maxn, const char* vn = "v")
        {
            Script s;
            int m = (int)sym_concrete(sym_u64("n", 0, maxn));
            for (int i = 0; i < m; ++i) { s.kind[i] = NEXT; s.val[i] = any_int(vn); }
            int t = (int)sym_concrete(sym_u64("term", 0, 2));
            if (t) { s.kind[m] = t; s.val[m] = any_int("eid") & 1023; ++m; }
            s.n = s.legal = m;
            return s;
        }
        int  nvals() const { int c = 0; for (int i = 0; i < legal; ++i) c += kind[i] == NEXT; return c; }
        bool term() const { return legal && kind[legal - 1] != NEXT; }
        int  last_kind() const { return legal ? kind[legal - 1] : NEXT; }
    };
    struct UpLog
    {
        int  disposed = 0;    // how often the source's own disposable was disposed
        bool registered = false;
        int  subs = 0;
    };
    template<class O>
    void emit(const O& o, int kind, int val)
    {
        if (kind == NEXT)
        {
            if constexpr (std::is_same_v<rpp::utils::extract_observer_type_t<O>, V>)
            {
                static thread_local unsigned turn = 0;       // values are handed over by reference and by move in turn
                V x{val};
                if (++turn & 1) { o.on_next(std::as_const(x)); sym_check(x.live, "a value which was passed by reference was modified"); }
                else o.on_next(std::move(x));
            }
            else o.on_next(val);
        }
        else if (kind == ERR) o.on_error(mkerr(val & 1023));
        else o.on_completed();
    }
    // an observer made for the value type of the observable
    template<class O, class M>
    void attach(const O& o, M&& make) { o.subscribe(make(std::type_identity<rpp::utils::extract_observable_type_t<O>>{})); }
    // Subscribes pipeline(source) and checks: the observed trace equals `e`; the upstream is released exactly once and as
    // soon as the downstream is finished; nothing leaks.  `mode` selects the kind of source/observer.
    template<class F>
    void drive(const Script& s, F&& pipeline, const Exp& e, const char* what, int modes = 4)
    {
        const uint64_t live = sym_heap_live();
        {
            Rec   r;
            UpLog up;
            const int mode = (int)sym_concrete(sym_u64("mode", 0, modes - 1));
            auto  play = [&](const auto& o) {
                for (int i = 0; i < s.n; ++i)
                {
                    emit(o, s.kind[i], s.val[i]);
                    if (r.term && mode != 3) { sym_check(o.is_disposed(), "source still sees a live observer after the stream ended"); sym_check(!up.registered || up.disposed == 1, "source disposable not released exactly once when the stream ended"); }
                    if (i + 1 == s.legal && s.kind[i] != NEXT) sym_check(!up.registered || up.disposed == 1, "source disposable not released when the source finished");
                }
            };
            if (mode == 3)
            {
                rpp::subjects::publish_subject<val_t> subj{};
                auto src = subj.get_observable();
                attach(pipeline(src), [&](auto t) { return sink<typename decltype(t)::type>(r); });
                play(subj.get_observer());
            }
            else
            {
                auto src = rpp::source::create<val_t>([&](auto&& o) {
                    ++up.subs;
                    if (mode != 1) { up.registered = true; o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up.disposed; })); }
                    play(o);
                });
                if (mode == 0) attach(pipeline(src), [&](auto t) { return sink<typename decltype(t)::type>(r); });
                else if (mode == 1) attach(pipeline(src), [&](auto t) { return strategy_sink<typename decltype(t)::type>{&r}; });
                else { auto d = rpp::composite_disposable_wrapper::make(); attach(pipeline(src.as_dynamic()), [&](auto t) { return sink<typename decltype(t)::type>(d, r).as_dynamic(); }); if (r.term) sym_check(d.is_disposed(), "subscription not disposed after the stream ended"); }
            }
            e.check(r, what);
            sym_check(up.disposed <= 1, "source disposable released more than once");
        }
        sym_check(sym_heap_live() == live, "leak: objects outlive the subscription");
    }

    // A source driven from outside; the harness decides when which source emits what.
    struct Hot
    {
        std::optional<rpp::dynamic_observer<val_t>> o;
        int  up = 0, subs = 0;
        bool finished = false, busy = false;
        std::vector<rpp::disposable_wrapper> keep;      // the source keeps its own handles: only an explicit disposal releases it
        bool current_released = false;
        void (*hook)(void*, Hot&) = nullptr;   // called when somebody has subscribed
        void* ctx = nullptr;
        auto obs()
        {
            return rpp::source::create<val_t>([this](auto&& ob) {
                ++subs;
                finished = false;
                current_released = false;
                keep.push_back(rpp::make_callback_disposable([this, id = subs]() noexcept { ++up; if (id == subs) current_released = true; }));
                ob.set_upstream(keep.back());
                o.emplace(std::move(ob).as_dynamic());
                if (hook) hook(ctx, *this);
            });
        }
        void ev(int kind, int val) { if (o && !finished && !o->is_disposed()) sym_check(!current_released, "a source was released although its observer is still listening"); if (kind != NEXT) finished = true; if (o) { auto c = *o; busy = true; emit(c, kind, val); busy = false; } }
    };
    // Drives `nsrc` sources with up to `maxev` events in arbitrary order, of arbitrary kind and value, with an optional
    // disposal between two events; `m.on(src, kind, val, Exp&)` is the reference model (called for legal events only).
    struct MultiOpt { int maxev = 3; bool dispose = true; bool misbehave = true; bool nested = false; };
    template<int NS, class B, class M>
    void multi(B&& build, M&& m, const char* what, MultiOpt opt = {})
    {
        const uint64_t live = sym_heap_live();
        {
            Hot  hot[NS];
            Rec  r;
            Exp  e;
            auto d = rpp::composite_disposable_wrapper::make();
            bool disposed = false;
            // one event that happens while a source is being subscribed: of that source itself or of another one
            auto inner = [&, budget = opt.nested ? 1 : 0](Hot& who) mutable {
                if (!budget || !sym_bool("nested")) return;
                --budget;
                const int src = NS == 1 ? 0 : (int)sym_concrete(sym_u64("src", 0, NS - 1)), kind = (int)sym_concrete(sym_u64("k", 0, 2)), val = any_int("v");
                (void)who;
                if (hot[src].busy || hot[src].finished || !hot[src].o) return;
                if (!e.terminated() && !disposed) m.on(src, kind, val, e);
                hot[src].ev(kind, val);
                sym_cover("nested");
            };
            if (opt.nested) { sym_want("nested"); for (auto& h : hot) { h.ctx = &inner; h.hook = [](void* c, Hot& who) { (*static_cast<decltype(inner)*>(c))(who); }; } }
            build(hot, [&](const auto& o) { attach(o, [&](auto t) { return sink<typename decltype(t)::type>(d, r); }); });
            const int n = (int)sym_concrete(sym_u64("n", 0, opt.maxev));
            const int disp = opt.dispose ? (int)sym_concrete(sym_u64("dispose_at", 0, n + 1)) : n + 1;
            for (int i = 0; i < n; ++i)
            {
                if (i == disp) { d.dispose(); disposed = true; for (auto& h : hot) sym_check(h.up == h.subs, "a source is not released by dispose()"); }
                const int src = NS == 1 ? 0 : (int)sym_concrete(sym_u64("src", 0, NS - 1)), kind = (int)sym_concrete(sym_u64("k", 0, 2)), val = any_int("v");
                if (!opt.misbehave && hot[src].finished) continue;
                if (!hot[src].o) continue;
                if (!hot[src].finished && !disposed && !e.terminated()) m.on(src, kind, val, e);
                hot[src].ev(kind, val);
                sym_check(r.n == e.n, what);
                if (e.terminated() && !disposed)
                {
                    sym_check(d.is_disposed(), "subscription not disposed although the stream has ended");
                    for (auto& h : hot) sym_check(h.up == h.subs, "a source is not released although the stream has ended");
                }
                if (kind != NEXT) sym_check(hot[src].up >= 1, "a finished source is not released");
            }
            e.check(r, what);
            for (auto& h : hot) sym_check(h.up <= h.subs, "a source is released more than once");
            if (!e.terminated() && !disposed) { sym_check(!d.is_disposed(), "subscription disposed although the stream is alive"); }
            d.dispose();
            for (auto& h : hot) sym_check(h.up == h.subs, "a source is not released by dispose()");
            for (auto& h : hot) { if (h.o) sym_check(h.o->is_disposed(), "a source still sees a live observer after dispose()"); }
        }
        sym_check(sym_heap_live() == live, "leak");
    }
}
