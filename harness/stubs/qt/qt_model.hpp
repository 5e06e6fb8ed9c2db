// Model of the parts of Qt which the adapter relies on, limited to the documented contract: single-shot timers run their
// functor once in the thread of the event loop; a precise timer never fires early, a coarse one up to 5% early; a
// functor is dropped when its context object is destroyed; equal due times fire in any order. Signals call the functors
// connected to them in the order of connection; a destroyed object emits destroyed() and forgets its connections.
#pragma once
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <memory>
#include <mutex>
#include <type_traits>
#include <utility>
#include <vector>
#include "sym.h"
namespace Qt
{
    enum TimerType { PreciseTimer, CoarseTimer, VeryCoarseTimer };
    enum ConnectionType { AutoConnection, DirectConnection, QueuedConnection };
}
namespace qt_model
{
    template<class T> struct pmf;
    template<class C, class R, class... A> struct pmf<R (C::*)(A...)>
    {
        using object = C;
        static const void* tag() { static char t; return &t; }
    };
    struct slot_base { const void* tag; virtual ~slot_base() = default; };
    template<class... A> struct call_base : slot_base { virtual void call(A...) = 0; };
    template<class F, class... A> void invoke_first(F& f, A&&... a)
    {
        if constexpr (std::is_invocable_v<F&, A...>) f(std::forward<A>(a)...);
        else if constexpr (std::is_invocable_v<F&>) f();
    }
    template<class Sig> struct slot;
    template<class C, class R, class... A> struct slot<R (C::*)(A...)> : call_base<A...>
    {
        R (C::*sig)(A...);
    };
    template<class F, class Sig> struct functor_slot;
    template<class F, class C, class R, class... A> struct functor_slot<F, R (C::*)(A...)> final : slot<R (C::*)(A...)>
    {
        F f;
        explicit functor_slot(F&& x) : f(std::move(x)) {}
        void call(A... a) override
        {
            if constexpr (std::is_invocable_v<F&, A...>) f(a...);
            else f();
        }
    };
}
class QObject
{
public:
    explicit QObject(QObject* = nullptr) {}
    QObject(const QObject&) = delete;
    virtual ~QObject();
    void destroyed(QObject* o = nullptr) { activate(&QObject::destroyed, o); }
    template<class C, class R, class... A, class F>
    static void connect(const typename std::type_identity<C>::type* sender, R (C::*sig)(A...), F f) { add(sender, sig, std::move(f)); }
    template<class C, class R, class... A, class F>
    static void connect(const typename std::type_identity<C>::type* sender, R (C::*sig)(A...), const QObject*, F f, Qt::ConnectionType = Qt::AutoConnection) { add(sender, sig, std::move(f)); }
    // emits: to be called by the signals of derived classes
    template<class C, class R, class... A, class... V>
    void activate(R (C::*sig)(A...), V&&... v)
    {
        const auto list = conns;
        for (const auto& c : list)
            if (c->tag == qt_model::pmf<R (C::*)(A...)>::tag())
            {
                auto* s = static_cast<qt_model::slot<R (C::*)(A...)>*>(c.get());
                if (s->sig == sig) s->call(v...);
            }
    }
private:
    template<class C, class R, class... A, class F>
    static void add(const QObject* o, R (C::*sig)(A...), F&& f)
    {
        auto s = std::make_shared<qt_model::functor_slot<std::decay_t<F>, R (C::*)(A...)>>(std::move(f));
        s->tag = qt_model::pmf<R (C::*)(A...)>::tag();
        s->sig = sig;
        o->conns.push_back(std::move(s));
    }
    mutable std::vector<std::shared_ptr<qt_model::slot_base>> conns;
};
class QCoreApplication : public QObject
{
public:
    struct timer
    {
        std::chrono::steady_clock::time_point at; const QObject* ctx;
        virtual ~timer() = default;
        virtual void call() = 0;
    };
    QCoreApplication() { self = this; }
    QCoreApplication(int&, char**) { self = this; }
    ~QCoreApplication() override { drop(this); self = nullptr; std::vector<std::unique_ptr<timer>>{}.swap(timers); }
    static QCoreApplication* instance() { return self; }
    static bool has_instance() { return self; }
    // runs the event loop until nothing is pending (exec() of the model); at most `max` functors
    static int run(int max = 1000)
    {
        int n = 0;
        std::unique_lock l{m};
        loop = true;
        while (n < max && !timers.empty())
        {
            std::chrono::steady_clock::time_point best = timers[0]->at; size_t c = 0;
            for (auto& t : timers) { if (t->at < best) { best = t->at; c = 1; } else if (t->at == best) ++c; }
            if (best > std::chrono::steady_clock::now()) { cv.wait_until(l, best); continue; }
            size_t pick = c > 1 ? (size_t)sym_concrete(sym_u64("qt_tie", 0, c - 1)) : 0;
            std::unique_ptr<timer> t;
            for (size_t i = 0; i < timers.size(); ++i)
                if (timers[i]->at == best && pick-- == 0) { t = std::move(timers[i]); timers.erase(timers.begin() + (long)i); break; }
            l.unlock();
            ++n;
            t->call();
            t.reset();
            l.lock();
        }
        loop = false;
        return n;
    }
    static void add(std::unique_ptr<timer> t) { std::lock_guard l{m}; timers.push_back(std::move(t)); cv.notify_all(); }
    static void drop(const QObject* ctx)
    {
        std::vector<std::unique_ptr<timer>> out;
        std::lock_guard l{m};
        for (size_t i = 0; i < timers.size();)
            if (timers[i]->ctx == ctx) { out.push_back(std::move(timers[i])); timers.erase(timers.begin() + (long)i); }
            else ++i;
    }
    static inline bool loop = false;
    static size_t pending() { std::lock_guard l{m}; return timers.size(); }
private:
    static inline QCoreApplication* self = nullptr;
    static inline std::mutex m;
    static inline std::condition_variable cv;
    static inline std::vector<std::unique_ptr<timer>> timers;
};
inline QObject::~QObject() { destroyed(this); if (QCoreApplication::has_instance()) QCoreApplication::drop(this); }
class QTimer : public QObject
{
    template<class F> struct shot final : QCoreApplication::timer { F f; explicit shot(F&& x) : f(std::move(x)) {} void call() override { f(); } };
    template<class F> static void start(int ms, Qt::TimerType type, const QObject* ctx, F&& f)
    {
        if (ms < 0) { sym_check(false, "QTimer: a timer cannot have a negative timeout"); }
        auto t = std::make_unique<shot<std::decay_t<F>>>(std::forward<F>(f));
        int64_t ns = (int64_t)ms * 1000000;
        if (type != Qt::PreciseTimer && ms && sym_bool("qt_coarse_early")) ns -= type == Qt::CoarseTimer ? ns / 20 : std::min<int64_t>(ns, 500000000);
        t->at = std::chrono::steady_clock::now() + std::chrono::nanoseconds{ns};
        t->ctx = ctx;
        QCoreApplication::add(std::move(t));
    }
    static int msec(int v) { return v; }
    static int msec(std::chrono::milliseconds v) { return (int)v.count(); }
public:
    static Qt::TimerType defaultTypeFor(int ms) { return ms >= 2000 ? Qt::CoarseTimer : Qt::PreciseTimer; }
    template<class D, class F> static void singleShot(D d, F f) requires std::is_invocable_v<F&> { start(msec(d), defaultTypeFor(msec(d)), nullptr, std::move(f)); }
    template<class D, class F> static void singleShot(D d, Qt::TimerType t, F f) requires std::is_invocable_v<F&> { start(msec(d), t, nullptr, std::move(f)); }
    template<class D, class F> static void singleShot(D d, const QObject* c, F f) { start(msec(d), defaultTypeFor(msec(d)), c, std::move(f)); }
    template<class D, class F> static void singleShot(D d, Qt::TimerType t, const QObject* c, F f) { start(msec(d), t, c, std::move(f)); }
};
