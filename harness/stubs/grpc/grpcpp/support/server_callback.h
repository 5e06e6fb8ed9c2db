#pragma once
#include "grpc_model.hpp"
namespace grpc
{
    namespace model
    {
        struct server : grpc_model::reactor
        {
            grpc_model::call* c = grpc_model::current;
            server() { c->r = this; c->server = true; }
            void StartSendInitialMetadata() { c->start_meta(); }
            void Finish(grpc::Status s) { c->finish(s); }
            virtual void OnSendInitialMetadataDone(bool) {}
            virtual void OnDone() = 0;
            virtual void OnCancel() {}
        protected:
            virtual void OnReadDone(bool) {}
            virtual void OnWriteDone(bool) {}
        private:
            void read_done(bool ok) override { OnReadDone(ok); }
            void write_done(bool ok) override { OnWriteDone(ok); }
            void canceled() override { OnCancel(); }
            void all_done(const grpc::Status&) override { OnDone(); }
        };
    }
    template<class Req, class Res> struct ServerBidiReactor : model::server { void StartRead(Req* p) { c->start_read(p); } void StartWrite(const Res* p) { c->start_write(p); } };
    template<class Req> struct ServerReadReactor : model::server { void StartRead(Req* p) { c->start_read(p); } };
    template<class Res> struct ServerWriteReactor : model::server { void StartWrite(const Res* p) { c->start_write(p); } };
}
