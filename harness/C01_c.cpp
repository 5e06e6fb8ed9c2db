//@ bound: the same rule-breaking source, which also emits (an arbitrary event, or one of each kind) from inside the disposal of its own disposables: after its terminal event, after an early end by the operator, and on disposal from outside or inside a callback
#include "pipes.hpp"
using namespace h;
static const int N = THOROUGH ? 3 : 2;
// The source is told to stop and answers with more events.  Rec asserts the grammar.
template<class F>
static void rude(F&& pipeline, bool exact = false)
{
    sym_want("emitted while disposed"); sym_want("ended");
    const uint64_t live = sym_heap_live();
    {
        std::optional<rpp::dynamic_observer<val_t>> o{};
        Rec r; Exp e;
        const int extra = (int)sym_concrete(sym_u64("extra", 0, 3)), handles = 2;
        int  answered = 0, silent_after = -1; bool off = false;
        auto d = rpp::composite_disposable_wrapper::make();
        auto answer = [&] {
            if (off) return;
            ++answered;
            sym_cover("emitted while disposed");
            const int before = r.n;
            const bool ended = r.term || d.is_disposed();
            auto c = *o;
            if (extra < 3) emit(c, extra, 11); else { emit(c, NEXT, 12); emit(c, ERR, 13); emit(c, DONE, 0); emit(c, NEXT, 14); }
            if (ended) sym_check(r.n == before, "notification delivered after the end of the stream");
        };
        const int form = (int)sym_concrete(sym_u64("form", 0, 3));      // with a handle, the same and disposed in the callback, without, type-erased without
        const int at = form == 1 ? 0 : -1;
        auto src = rpp::source::create<val_t>([&](auto&& ob) {
            o.emplace(std::forward<decltype(ob)>(ob).as_dynamic());
            for (int i = 0; i < handles; ++i) o->set_upstream(rpp::make_callback_disposable([&]() noexcept { answer(); }));
        });
        if (form < 2) pipeline(src).subscribe(d, [&](val_t v) { r.on_next((int)v); if (r.n - 1 == at) { d.dispose(); silent_after = r.n; } }, [&](const std::exception_ptr& x) { r.on_error(x); }, [&] { r.on_completed(); });
        else if (form == 2) pipeline(src).subscribe(sink(r));
        else pipeline(src).subscribe(sink(r).as_dynamic());
        Script s = Script::any(N, true);
        for (int i = 0; i < s.n && o; ++i) { auto c = *o; emit(c, s.kind[i], s.val[i]); }
        if (r.term) sym_cover("ended");
        const int seen = r.n;
        if (form < 2) d.dispose();
        sym_check(r.n == seen, "notification delivered after the end of the stream");
        if (silent_after >= 0) sym_check(r.n == silent_after, "notification delivered after the disposal");
        if (o && (form < 2 || r.term)) { auto c = *o; emit(c, NEXT, 5); emit(c, DONE, 0); }
        sym_check(r.n == seen, "notification delivered after the end of the stream");
        if (exact)
        {
            for (int i = 0; i < s.legal && !(silent_after >= 0 && e.n >= silent_after); ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
            e.check(r, "the observer must see exactly the events up to the first terminal one");
        }
        off = true; o.reset();
    }
    sym_check(sym_heap_live() == live, "leak");
}


#define X(n, e) extern "C" void H_rude_##n() { rude([](const auto& o) { return e; }); }
PIPES_B(X)
#undef X
