// Model of the parts of Asio which the strand scheduler relies on. Only the documented contract is modelled: a posted
// handler is invoked once by a thread running the context, handlers bound to one strand never run at the same time and
// keep their order, a timer handler becomes ready once its time has come (equal expiry times: any order), and a pending
// wait ends with an error when its timer is cancelled or destroyed. Pending handlers are destroyed with the context.
#pragma once
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <type_traits>
#include <utility>
#include <vector>
#include "sym.h"
namespace asio
{
    struct error_code { int v = 0; explicit operator bool() const { return v != 0; } int value() const { return v; } };
    namespace error { inline error_code operation_aborted{125}; }
    namespace model
    {
        using clock = std::chrono::steady_clock;
        struct strand_impl { bool busy = false; };
        using strand_ptr = std::shared_ptr<strand_impl>;
        struct op
        {
            strand_ptr s; error_code ec{}; const void* timer = nullptr; clock::time_point at{};
            virtual ~op() = default;
            virtual void call() = 0;
        };
        template<class F> struct post_op final : op { F f; explicit post_op(F&& x) : f(std::move(x)) {} void call() override { f(); } };
        template<class F> struct wait_op final : op { F f; explicit wait_op(F&& x) : f(std::move(x)) {} void call() override { f(std::as_const(ec)); } };
        using op_ptr = std::unique_ptr<op>;
        struct core
        {
            std::mutex m; std::condition_variable cv;
            std::vector<op_ptr> ready, waiting;
            int running = 0; bool closed = false, stopped = false;
            void push(op_ptr o) { { std::lock_guard l{m}; if (!closed) { ready.push_back(std::move(o)); cv.notify_all(); return; } } }
            void wait(op_ptr o) { { std::lock_guard l{m}; if (!closed) { waiting.push_back(std::move(o)); cv.notify_all(); return; } } }
            size_t cancel(const void* timer)
            {
                std::lock_guard l{m};
                size_t n = 0;
                for (size_t i = 0; i < waiting.size();)
                    if (waiting[i]->timer == timer) { waiting[i]->ec = error::operation_aborted; ready.push_back(std::move(waiting[i])); waiting.erase(waiting.begin() + (long)i); ++n; }
                    else ++i;
                if (n) cv.notify_all();
                return n;
            }
            void close()
            {
                std::vector<op_ptr> a, b;
                { std::lock_guard l{m}; closed = true; a.swap(ready); b.swap(waiting); }
            }
            void expire()
            {
                const auto now = clock::now();
                while (true)
                {
                    clock::time_point best{}; int n = 0;
                    for (auto& w : waiting)
                        if (w->at <= now) { if (!n || w->at < best) { best = w->at; n = 1; } else if (w->at == best) ++n; }
                    if (!n) return;
                    int pick = n > 1 ? (int)sym_concrete(sym_u64("asio_tie", 0, (uint64_t)n - 1)) : 0;
                    for (size_t i = 0; i < waiting.size(); ++i)
                        if (waiting[i]->at == best && pick-- == 0) { ready.push_back(std::move(waiting[i])); waiting.erase(waiting.begin() + (long)i); break; }
                }
            }
            // the first handler of every strand which is not running right now may be next
            op_ptr next()
            {
                std::vector<size_t> c;
                for (size_t i = 0; i < ready.size(); ++i)
                {
                    bool ok = !(ready[i]->s && ready[i]->s->busy);
                    for (size_t k = 0; k < i; ++k) if (ready[i]->s && ready[k]->s == ready[i]->s) ok = false;
                    if (ok) c.push_back(i);
                }
                if (c.empty()) return {};
                const size_t i = c.size() > 1 ? c[(size_t)sym_concrete(sym_u64("asio_pick", 0, c.size() - 1))] : c[0];
                op_ptr o = std::move(ready[i]);
                ready.erase(ready.begin() + (long)i);
                return o;
            }
            bool one(bool block, bool until_empty)
            {
                std::unique_lock l{m};
                while (!stopped)
                {
                    expire();
                    if (auto o = next())
                    {
                        struct done { core& c; std::unique_lock<std::mutex>& l; op_ptr& o; ~done() { auto s = o->s; o.reset(); l.lock(); if (s) s->busy = false; --c.running; c.cv.notify_all(); } };
                        if (o->s) o->s->busy = true;
                        ++running;
                        l.unlock();
                        { done d{*this, l, o}; o->call(); }
                        return true;
                    }
                    if (!block || (ready.empty() && waiting.empty() && (!until_empty || running == 0))) return false;
                    clock::time_point t = clock::time_point::max();
                    for (auto& w : waiting) if (w->at < t) t = w->at;
                    if (t == clock::time_point::max()) cv.wait(l);
                    else cv.wait_until(l, t);
                }
                return false;
            }
        };
    }
    class io_context
    {
    public:
        io_context() = default;
        explicit io_context(int) {}
        io_context(const io_context&) = delete;
        ~io_context() { c->close(); }
        struct executor_type
        {
            io_context* ctx;
            io_context& context() const { return *ctx; }
            bool operator==(const executor_type&) const = default;
        };
        class strand
        {
        public:
            explicit strand(io_context& x) : ctx{&x} {}
            io_context& context() const { return *ctx; }
            executor_type get_inner_executor() const { return {ctx}; }
            bool operator==(const strand& o) const { return s == o.s; }
            io_context* ctx; model::strand_ptr s = std::make_shared<model::strand_impl>();
        };
        executor_type get_executor() { return {this}; }
        size_t run() { size_t n = 0; while (c->one(true, true)) ++n; return n; }
        size_t run_one() { return c->one(true, true); }
        size_t poll() { size_t n = 0; while (c->one(false, true)) ++n; return n; }
        size_t poll_one() { return c->one(false, true); }
        void stop() { std::lock_guard l{c->m}; c->stopped = true; c->cv.notify_all(); }
        void restart() { std::lock_guard l{c->m}; c->stopped = false; }
        bool stopped() const { return c->stopped; }
        std::shared_ptr<model::core> c = std::make_shared<model::core>();
    };
    template<class E> class strand : public io_context::strand
    {
    public:
        explicit strand(const E& e) : io_context::strand{e.context()} {}
    };
    inline strand<io_context::executor_type> make_strand(io_context& c) { return strand<io_context::executor_type>{c.get_executor()}; }
    inline strand<io_context::executor_type> make_strand(const io_context::executor_type& e) { return strand<io_context::executor_type>{e}; }
    template<class F, class E> struct executor_binder
    {
        E e; F f;
        template<class... A> decltype(auto) operator()(A&&... a) { return f(std::forward<A>(a)...); }
        const E& get_executor() const { return e; }
    };
    template<class E, class F> executor_binder<std::decay_t<F>, E> bind_executor(const E& e, F&& f) { return {e, std::forward<F>(f)}; }
    namespace model
    {
        inline std::shared_ptr<core> core_of(io_context& c) { return c.c; }
        inline std::shared_ptr<core> core_of(const io_context::executor_type& e) { return e.ctx->c; }
        inline std::shared_ptr<core> core_of(const io_context::strand& s) { return s.ctx->c; }
        template<class T> strand_ptr strand_of(const T&) { return {}; }
        inline strand_ptr strand_of(const io_context::strand& s) { return s.s; }
        template<class E> strand_ptr strand_of(const strand<E>& s) { return s.s; }
        template<class F, class E> strand_ptr strand_of(const executor_binder<F, E>& b) { return strand_of(b.e); }
        template<class F, class E> std::shared_ptr<core> core_of(const executor_binder<F, E>& b) { return core_of(b.e); }
        template<class F> void submit(const std::shared_ptr<core>& c, strand_ptr s, F&& f)
        {
            auto o = std::make_unique<post_op<std::decay_t<F>>>(std::decay_t<F>(std::forward<F>(f)));
            o->s = std::move(s);
            c->push(std::move(o));
        }
    }
    template<class F> void post(F&& f) { auto c = model::core_of(f); auto s = model::strand_of(f); model::submit(c, std::move(s), std::forward<F>(f)); }
    template<class X, class F> void post(const X& x, F&& f) { auto s = model::strand_of(f); if (!s) s = model::strand_of(x); model::submit(model::core_of(x), std::move(s), std::forward<F>(f)); }
    template<class F> void post(io_context& x, F&& f) { auto s = model::strand_of(f); model::submit(x.c, std::move(s), std::forward<F>(f)); }
    template<class... A> void defer(A&&... a) { post(std::forward<A>(a)...); }
    template<class Clock, class = void> class basic_waitable_timer
    {
    public:
        using time_point = typename Clock::time_point;
        using duration = typename Clock::duration;
        template<class X> explicit basic_waitable_timer(X&& x) : c{model::core_of(x)} {}
        template<class X> basic_waitable_timer(X&& x, const time_point& t) : c{model::core_of(x)}, at{t} {}
        template<class X> basic_waitable_timer(X&& x, const duration& d) : c{model::core_of(x)}, at{Clock::now() + d} {}
        basic_waitable_timer(const basic_waitable_timer&) = delete;
        ~basic_waitable_timer() { cancel(); }
        size_t cancel() { return c->cancel(this); }
        size_t expires_at(const time_point& t) { const size_t n = cancel(); at = t; return n; }
        size_t expires_after(const duration& d) { const size_t n = cancel(); at = Clock::now() + d; return n; }
        time_point expiry() const { return at; }
        template<class F> void async_wait(F&& f)
        {
            auto s = model::strand_of(f);
            auto o = std::make_unique<model::wait_op<std::decay_t<F>>>(std::decay_t<F>(std::forward<F>(f)));
            o->s = std::move(s); o->timer = this; o->at = at;
            c->wait(std::move(o));
        }
    private:
        std::shared_ptr<model::core> c; time_point at{};
    };
    using steady_timer = basic_waitable_timer<std::chrono::steady_clock>;
}
