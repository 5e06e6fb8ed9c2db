//@ bound: gRPC: every reactor, up to 4 (thorough: 5) steps chosen freely among emitting, completing or failing the observer, messages coming in, reads and writes ending well or badly, cancellation, the status coming in; then the transport ends what is outstanding in any order; two threads (transport against transport, user against transport) where reactions are concurrent
//@ assume: gRPC itself is a model of the documented contract of its callback API (harness/stubs/grpc); messages are ints
//@ include: $V/harness/stubs/grpc $REPO/src/extensions/rppgrpc
//@ preempt: 2
//@ preempt_thorough: 3
#include "common.hpp"
#include <rppgrpc/rppgrpc.hpp>
using namespace h;
using grpc_model::call;
struct Wire
{
    call c; Rec r; int live = 0;
    int in[8]{}, ins = 0;            // delivered messages
    int sent[8]{}, sents = 0;        // emitted to the observer
    int ended = 0;                   // 1 completed, 2 failed
    Wire() { grpc_model::current = &c; }
};
template<class R> constexpr bool reads = requires(R& r) { r.StartRead((int*)nullptr); };
template<class R> constexpr bool writes = requires(R& r) { r.StartWrite((int*)nullptr); };
template<class R> static void watch(Wire& w, R* reactor)
{
    reactor->get_observable().subscribe([&w](auto&& v) { if constexpr (std::is_same_v<std::decay_t<decltype(v)>, int>) w.r.on_next(v); else sym_fail("nothing is read by this reactor"); },
                                        [&w](const std::exception_ptr& e) { try { std::rethrow_exception(e); } catch (const rppgrpc::utils::reactor_failed&) { w.r.push(ERR, 1); } },
                                        [&w] { w.r.on_completed(); });
}
template<class R> static void start(Wire& w, R* reactor)
{
    if constexpr (requires { reactor->init(); }) reactor->init();
    else { sym_check(w.c.meta, "the initial metadata must be sent"); w.c.bind(); }
}
// whatever the transport still has to do
static void drain(Wire& w, bool server)
{
    call& c = w.c;
    for (int i = 0; i < 12 && !c.done; ++i)
    {
        if (server && !c.finished && !c.cancelled) c.cancel();
        else if (!server && !c.over) c.receive_status(grpc::Status::OK);
        else if (c.can_read() && (!c.can_write() || sym_bool("read first"))) c.deliver(false);
        else if (c.can_write()) c.written(!c.broken && sym_bool("written"));
        else if (c.half_pending) c.half_closed(false);
        else c.settle();
    }
    sym_check(c.done, "the RPC must end once the transport has ended everything");
}
static void check_reads(Wire& w, bool failed)
{
    sym_check(w.r.n == w.ins + 1, "the observable must emit every message once and then end");
    for (int i = 0; i < w.ins; ++i) { sym_check(w.r.kind[i] == NEXT, "the observable must emit the messages in order"); sym_check(w.r.val[i] == w.in[i], "the observable must emit the messages in order"); }
    sym_check(failed ? w.r.errored() : w.r.completed(), failed ? "a failed or cancelled RPC must end its observable with an error" : "an RPC that ends well must complete its observable");
}
static void check_writes(Wire& w, bool all)
{
    sym_check(w.c.outs <= w.sents, "a message was sent that nobody emitted");
    for (int i = 0; i < w.c.outs; ++i) sym_check(w.c.out[i] == w.sent[i], "the messages must be sent in the order of their emission");
    if (all) sym_check(w.c.outs == w.sents, "a message was lost");
}
enum Ev { IN, WRITTEN, READ_END, EMIT, COMPLETE, FAIL, BREAK, EVS };
template<class R>
static void any_history(bool server)
{
    sym_want("end"); sym_want("broken");
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Wire w; call& c = w.c;
        auto* reactor = new R{};
        watch(w, reactor);
        using Obs = decltype([](R* r) { if constexpr (writes<R>) return r->get_observer(); else return 0; }(reactor));
        std::optional<Obs> obs;
        if constexpr (writes<R>) obs.emplace(reactor->get_observer());
        const bool early = sym_bool("early");
        if (!early) start(w, reactor);
        bool cancel_first = false, read_ended = false;
        const int steps = (THOROUGH ? 5 : 4);
        for (int i = 0; i < steps; ++i)
        {
            if (early && i == 1) { if (c.done) break; start(w, reactor); }
            const int ev = (int)sym_concrete(sym_u64("event", 0, EVS - 1));
            if (ev == IN && reads<R> && c.can_read() && !c.broken) { const int v = any_int("message"); w.in[w.ins++] = v; c.deliver(true, v); }
            else if (ev == READ_END && reads<R> && c.can_read()) { c.deliver(false); read_ended = true; }
            else if (ev == WRITTEN && c.can_write()) c.written(!c.broken);
            else if (ev == BREAK && (server ? c.bound : c.started)) { if (server) { if (!c.finished) cancel_first = true; c.cancel(); } else if (!c.over) c.receive_status(sym_bool("status") ? grpc::Status::OK : grpc::Status{grpc::StatusCode::UNAVAILABLE, "gone"}); }
            else if constexpr (writes<R>)
            {
                if (ev == EMIT && !w.ended) { const int v = any_int("value"); if (!c.done && !c.cancelled) w.sent[w.sents++] = v; obs->on_next(v); }
                else if (ev == COMPLETE && !w.ended) { w.ended = 1; obs->on_completed(); }
                else if (ev == FAIL && !w.ended) { w.ended = 2; obs->on_error(std::make_exception_ptr(Err{1})); }
                else sym_assume(false);
            }
            else sym_assume(false);
            if (c.done) break;
        }
        if (early && !c.bound && !c.started) start(w, reactor);
        if (server && !c.finished && !c.cancelled) cancel_first = true;
        drain(w, server);
        if (c.broken) sym_cover("broken");
        const bool was_cancelled = server && c.cancelled;
        if constexpr (reads<R>) check_reads(w, server ? was_cancelled : !c.status.ok());
        else sym_check(w.r.n == 1 && (server ? (was_cancelled ? w.r.errored() : w.r.completed()) : c.status.ok() ? w.r.completed() : w.r.errored()), "the observable must end exactly once, the way the RPC ended");
        check_writes(w, server ? c.finished && !c.broken && w.ended : !c.broken && w.ended);
        if (server && writes<R> && !c.broken)
        {
            if (w.ended == 1) sym_check(c.status.ok(), "completing the observer must finish the RPC with OK");
            if (w.ended == 2) sym_check(c.status.error_code() == grpc::StatusCode::INTERNAL, "an error given to the observer must finish the RPC with an error");
        }
        if (server && writes<R> && cancel_first && !w.ended) sym_check(!c.status.ok(), "a cancelled RPC must not finish with OK");
        if constexpr (writes<R>) { obs->on_next(7); obs->on_completed(); } // late: nothing may happen
        sym_log(c.outs); sym_log(w.r.n);
        sym_cover("end");
        (void)read_ended;
    }
    grpc_model::current = nullptr;
    sym_check(sym_heap_live() == live, "leak: the reactor must go away with its RPC");
}
extern "C" void H_server_bidi() { any_history<rppgrpc::server_bidi_reactor<int, int>>(true); }
extern "C" void H_server_write() { any_history<rppgrpc::server_write_reactor<int>>(true); }
extern "C" void H_server_read() { any_history<rppgrpc::server_read_reactor<int>>(true); }
extern "C" void H_client_bidi() { any_history<rppgrpc::client_bidi_reactor<int, int>>(false); }
extern "C" void H_client_write() { any_history<rppgrpc::client_write_reactor<int>>(false); }
extern "C" void H_client_read() { any_history<rppgrpc::client_read_reactor<int>>(false); }

// reactions are concurrent: a message comes in while the RPC is cancelled
template<class R>
static void read_vs_cancel()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        Wire w; call& c = w.c;
        auto* reactor = new R{};
        watch(w, reactor);
        start(w, reactor);
        const int v = any_int("message");
        { std::lock_guard l{c.m}; ++c.refs; }
        std::thread t{[&] { c.deliver(true, v); c.deliver(false); c.leave(); }};
        c.cancel();
        t.join();
        drain(w, true);
        sym_check(c.cancelled ? w.r.errored() : w.r.completed(), "the observable must end the way the RPC ended");
        sym_check(w.r.n <= 2, "too many notifications");
        if (w.r.n == 2) sym_check(w.r.val[0] == v, "the observable must emit the messages");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: the reactor must go away with its RPC");
}
extern "C" void H_server_bidi_read_vs_cancel() { read_vs_cancel<rppgrpc::server_bidi_reactor<int, int>>(); }
extern "C" void H_server_read_vs_cancel() { read_vs_cancel<rppgrpc::server_read_reactor<int>>(); }
// the user emits while the transport completes writes
template<class R>
static void emit_vs_transport(bool server)
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        Wire w; call& c = w.c;
        auto* reactor = new R{};
        watch(w, reactor);
        start(w, reactor);
        const int how = server ? (int)sym_concrete(sym_u64("end", 1, 2)) : 1, n = 2;
        for (int i = 0; i < n; ++i) w.sent[w.sents++] = any_int("value");
        { std::lock_guard l{c.m}; ++c.refs; }
        std::thread t{[&] { c.written(true); c.written(true); c.leave(); }};
        {
            const auto obs = reactor->get_observer();
            for (int i = 0; i < n; ++i) obs.on_next(w.sent[i]);
            if (how == 1) obs.on_completed(); else obs.on_error(std::make_exception_ptr(Err{1}));
        }
        t.join();
        for (int i = 0; i < n; ++i) if (!c.done && c.can_write()) c.written(true);
        sym_check(c.outs == n, "a message was lost");
        check_writes(w, true);
        sym_check(server ? c.finished : c.half, "the end of the observer must end the writes");
        if (server) sym_check(c.status.ok() == (how == 1), "the RPC must finish the way its observer ended");
        drain(w, server);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: the reactor must go away with its RPC");
}
extern "C" void H_server_bidi_emit_vs_transport() { emit_vs_transport<rppgrpc::server_bidi_reactor<int, int>>(true); }
extern "C" void H_server_write_emit_vs_transport() { emit_vs_transport<rppgrpc::server_write_reactor<int>>(true); }
extern "C" void H_client_bidi_emit_vs_transport() { emit_vs_transport<rppgrpc::client_bidi_reactor<int, int>>(false); }
extern "C" void H_client_write_emit_vs_transport() { emit_vs_transport<rppgrpc::client_write_reactor<int>>(false); }
// the user emits while the RPC is cancelled and goes away
template<class R>
static void emit_vs_cancel()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        Wire w; call& c = w.c;
        auto* reactor = new R{};
        watch(w, reactor);
        start(w, reactor);
        const int how = (int)sym_concrete(sym_u64("end", 0, 2));
        {
            const auto obs = reactor->get_observer();
            std::thread t{[&] { c.cancel(); c.written(false); c.deliver(false); }};
            w.sent[w.sents++] = 5;
            obs.on_next(5);
            if (how == 1) obs.on_completed(); else if (how == 2) obs.on_error(std::make_exception_ptr(Err{1}));
            t.join();
        }
        drain(w, true);
        sym_check(w.r.n == 1 && w.r.errored(), "a cancelled RPC must end its observable with an error");
        check_writes(w, false);
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: the reactor must go away with its RPC");
}
extern "C" void H_server_bidi_emit_vs_cancel() { emit_vs_cancel<rppgrpc::server_bidi_reactor<int, int>>(); }
extern "C" void H_server_write_emit_vs_cancel() { emit_vs_cancel<rppgrpc::server_write_reactor<int>>(); }
// the RPC fails as soon as it is started
template<class R>
static void fails_at_once()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        Wire w; call& c = w.c;
        auto* reactor = new R{};
        watch(w, reactor);
        std::thread t{[&] { bool go; { std::lock_guard l{c.m}; go = c.started; } if (go) { c.receive_status(grpc::Status{grpc::StatusCode::UNAVAILABLE, "gone"}); c.deliver(false); } }};
        start(w, reactor);
        t.join();
        c.receive_status(grpc::Status{grpc::StatusCode::UNAVAILABLE, "gone"});
        drain(w, false);
        sym_check(w.r.n == 1 && w.r.errored(), "a failed RPC must end its observable with an error");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: the reactor must go away with its RPC");
}
extern "C" void H_client_bidi_fails_at_once() { fails_at_once<rppgrpc::client_bidi_reactor<int, int>>(); }
extern "C" void H_client_read_fails_at_once() { fails_at_once<rppgrpc::client_read_reactor<int>>(); }

// the user emits while the RPC ends
template<class R>
static void emit_vs_status()
{
    sym_want("end");
    const uint64_t live = sym_heap_live();
    {
        Wire w; call& c = w.c;
        auto* reactor = new R{};
        watch(w, reactor);
        start(w, reactor);
        {
            const auto obs = reactor->get_observer();
            std::thread t{[&] { c.receive_status(grpc::Status{grpc::StatusCode::UNAVAILABLE, "gone"}); c.deliver(false); c.written(false); }};
            w.sent[w.sents++] = 5;
            obs.on_next(5);
            obs.on_completed();
            t.join();
        }
        drain(w, false);
        sym_check(w.r.n == 1 && w.r.errored(), "a failed RPC must end its observable with an error");
        sym_cover("end");
    }
    sym_check(sym_heap_live() == live, "leak: the reactor must go away with its RPC");
}
extern "C" void H_client_bidi_emit_vs_status() { emit_vs_status<rppgrpc::client_bidi_reactor<int, int>>(); }
extern "C" void H_client_write_emit_vs_status() { emit_vs_status<rppgrpc::client_write_reactor<int>>(); }
