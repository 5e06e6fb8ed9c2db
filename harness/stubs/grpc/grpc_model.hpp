// Model of the callback API of gRPC, limited to its documented contract (grpcpp/support/{server,client}_callback.h):
// at most one read and one write outstanding, a message stays untouched until its operation is done, nothing is started
// after Finish / StartWritesDone, Finish exactly once, reactions may run concurrently, OnDone comes last: when the RPC is
// over and every operation and reaction has ended. The harness plays the transport.
#pragma once
#include <mutex>
#include <string>
#include <vector>
#include "sym.h"
namespace grpc
{
    enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16 };
    class Status
    {
    public:
        Status() = default;
        Status(StatusCode c, const std::string& m) : code{c}, msg{m} {}
        static const Status OK, CANCELLED;
        StatusCode error_code() const { return code; }
        std::string error_message() const { return msg; }
        bool ok() const { return code == StatusCode::OK; }
    private:
        StatusCode code = StatusCode::OK;
        std::string msg;
    };
    inline const Status Status::OK{};
    inline const Status Status::CANCELLED{StatusCode::CANCELLED, ""};
}
namespace grpc_model
{
    struct reactor
    {
        virtual ~reactor() = default;
        virtual void read_done(bool) {}
        virtual void write_done(bool) {}
        virtual void canceled() {}
        virtual void all_done(const grpc::Status&) {}
        virtual void writes_done_done(bool) {}
    };
    // one RPC; messages are ints
    struct call
    {
        static constexpr int MAX = 8;
        std::mutex m;
        reactor* r = nullptr;
        bool server = false, meta = false, bound = false, started = false, finished = false, half = false, half_pending = false, cancelled = false, broken = false, over = false, done = false;
        grpc::Status status{};         // server: as given to Finish; client: as received
        int* read = nullptr;
        const int* write = nullptr; int write_value = 0;
        int out[MAX]{}, outs = 0;       // the messages that went out
        int refs = 0;                   // operations and reactions under way
        void start_meta() { sym_check(!meta, "gRPC: initial metadata sent twice"); meta = true; }
        void start_call() { std::lock_guard l{m}; sym_check(!started, "gRPC: StartCall called twice"); started = true; }
        void start_read(int* p)
        {
            std::lock_guard l{m};
            sym_check(!done, "gRPC: an operation was started after the end of the RPC");
            sym_check(!read, "gRPC: a read was started while another one is outstanding");
            read = p; ++refs;
        }
        void start_write(const int* p)
        {
            std::lock_guard l{m};
            sym_check(!done, "gRPC: an operation was started after the end of the RPC");
            sym_check(!write, "gRPC: a write was started while another one is outstanding");
            sym_check(!finished && !half, "gRPC: a write was started after the end of the writes");
            write = p; write_value = *p; ++refs;
        }
        void writes_done()
        {
            std::lock_guard l{m};
            sym_check(!done, "gRPC: an operation was started after the end of the RPC");
            sym_check(!half, "gRPC: StartWritesDone called twice");
            sym_check(!write, "gRPC: the writes were ended while a write is outstanding");
            half = half_pending = true; ++refs;
        }
        void finish(const grpc::Status& s)
        {
            std::lock_guard l{m};
            sym_check(!done, "gRPC: an operation was started after the end of the RPC");
            sym_check(!finished, "gRPC: Finish called twice");
            finished = true; status = s;
        }
        // ---- the transport
        bool can_read() { std::lock_guard l{m}; return read && (server ? bound : started); }
        bool can_write() { std::lock_guard l{m}; return write && (server ? bound : started); }
        void bind() { bound = true; }
        void leave()
        {
            std::unique_lock l{m};
            --refs;
            maybe_done(l);
        }
        void maybe_done(std::unique_lock<std::mutex>& l)
        {
            if (refs == 0 && !done && (server ? bound && finished : over)) { done = true; l.unlock(); r->all_done(status); }
        }
        void deliver(bool ok, int v = 0)
        {
            { std::lock_guard l{m}; if (!read) return; if (ok) *read = v; read = nullptr; }
            r->read_done(ok);
            leave();
        }
        void written(bool ok)
        {
            {
                std::lock_guard l{m};
                if (!write) return;
                sym_check(*write == write_value, "gRPC: a message was modified before its write is done");
                if (ok) { sym_check(outs < MAX, "more messages written than emitted"); out[outs++] = write_value; }
                write = nullptr;
            }
            r->write_done(ok);
            leave();
        }
        void half_closed(bool ok)
        {
            { std::lock_guard l{m}; if (!half_pending) return; half_pending = false; }
            r->writes_done_done(ok);
            leave();
        }
        void cancel()
        {
            { std::lock_guard l{m}; if (cancelled || done) return; cancelled = broken = true; ++refs; }
            r->canceled();
            leave();
        }
        // server: the status was sent (nothing more to wait for); client: the status came in
        void settle() { std::unique_lock l{m}; maybe_done(l); }
        void receive_status(const grpc::Status& s) { { std::lock_guard l{m}; if (over) return; status = s; over = broken = true; } settle(); }
    };
    inline call* current = nullptr;
}
