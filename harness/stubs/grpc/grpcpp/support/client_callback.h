#pragma once
#include "grpc_model.hpp"
namespace grpc
{
    namespace model
    {
        struct client : grpc_model::reactor
        {
            grpc_model::call* c = grpc_model::current;
            client() { c->r = this; }
            void StartCall() { c->start_call(); }
            virtual void OnReadInitialMetadataDone(bool) {}
            virtual void OnDone(const grpc::Status&) {}
        protected:
            virtual void OnReadDone(bool) {}
            virtual void OnWriteDone(bool) {}
            virtual void OnWritesDoneDone(bool) {}
        private:
            void read_done(bool ok) override { OnReadDone(ok); }
            void write_done(bool ok) override { OnWriteDone(ok); }
            void writes_done_done(bool ok) override { OnWritesDoneDone(ok); }
            void all_done(const grpc::Status& s) override { OnDone(s); }
        };
    }
    template<class Req, class Res> struct ClientBidiReactor : model::client { void StartRead(Res* p) { c->start_read(p); } void StartWrite(const Req* p) { c->start_write(p); } void StartWritesDone() { c->writes_done(); } };
    template<class Res> struct ClientReadReactor : model::client { void StartRead(Res* p) { c->start_read(p); } };
    template<class Req> struct ClientWriteReactor : model::client { void StartWrite(const Req* p) { c->start_write(p); } void StartWritesDone() { c->writes_done(); } };
}
