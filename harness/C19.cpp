//@ bound: retry counts 0..3 and unlimited, up to 3 attempts (thorough: 4) with up to 2 values each and any termination, synchronous or driven from outside in every order with disposal at any point; notifier sources with any event; throwing selectors; single thread plus one schedule-exhaustive scenario in which the source fails on another thread
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int ATT = THOROUGH ? 4 : 3;
// a cold source whose i-th subscription plays the i-th script
struct Attempts
{
    Script s[5];
    int    n = 0, subs = 0, up = 0, reg = 0, rude = 0;
    bool   overlapped = false;
    static Attempts any(int attempts, int vals) { Attempts a; a.n = attempts; for (int i = 0; i < attempts; ++i) { a.s[i] = Script::wellformed(vals); if (a.s[i].last_kind() != ERR) { a.n = i + 1; break; } } return a; }
    auto obs()
    {
        return rpp::source::create<val_t>([this](auto&& o) {
            const int i = subs++;
            if (up != reg) overlapped = true;
            ++reg;
            o.set_upstream(rpp::make_callback_disposable([this]() noexcept { ++up; }));
            if (i < n) for (int k = 0; k < s[i].n; ++k) emit(o, s[i].kind[k], s[i].val[k]);
            if (i < n && s[i].last_kind() != NEXT && rude) { emit(o, NEXT, 99); emit(o, rude == 1 ? NEXT : rude == 2 ? ERR : DONE, 98); }   // a source which does not stop after its end
        });
    }
    // plays attempt i into the expectation; returns the last kind
    int play(int i, Exp& e, bool with_error) const
    {
        if (i >= n) return NEXT;
        for (int k = 0; k < s[i].legal; ++k)
        {
            if (s[i].kind[k] == NEXT) e.next(s[i].val[k]);
            else if (s[i].kind[k] == DONE) e.done();
            else if (with_error) e.error(s[i].val[k] & 1023);
        }
        return s[i].last_kind();
    }
};
extern "C" void H_retry_sync()
{
    sym_want("gave up"); sym_want("recovered"); sym_want("unlimited");
    const uint64_t live = sym_heap_live();
    {
        Attempts a = Attempts::any(ATT, 2);
        const int count = (int)sym_concrete(sym_u64("count", 0, 4));     // 4: unlimited
        a.rude = (int)sym_concrete(sym_u64("rude", 0, 3));
        Rec r; Exp e;
        int subs = 0;
        for (int i = 0;; ++i)
        {
            ++subs;
            const bool last = count != 4 && i == count;
            const int k = a.play(i, e, last);
            if (k == ERR && !last) { continue; }
            if (k == ERR) sym_cover("gave up");
            if (k == DONE && i > 0) sym_cover(count == 4 ? "unlimited" : "recovered");
            break;
        }
        auto d = rpp::composite_disposable_wrapper::make();
        if (count == 4) (a.obs() | op::retry()).subscribe(d, sink(r));
        else (a.obs() | op::retry((size_t)count)).subscribe(d, sink(r));
        e.check(r, "retry must keep all values and resubscribe after each error at most count times");
        sym_check(a.subs == subs, "retry must resubscribe exactly once per error");
        sym_check(!a.overlapped, "the failed subscription must be released before a new one is made");
        sym_check(a.up == a.reg - (e.terminated() ? 0 : 1), "released subscriptions");
        sym_check(d.is_disposed() == e.terminated(), "subscription disposed exactly when the stream has ended");
        d.dispose();
        sym_check(a.up == a.reg, "everything is released by dispose()");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_retry_hot()
{
    sym_want("gave up"); sym_want("resubscribed");
    const int count = (int)sym_concrete(sym_u64("count", 0, 2));
    struct M { int left; void on(int, int k, int v, Exp& e) { if (k == NEXT) e.next(v); else if (k == DONE) e.done(); else if (left-- == 0) { e.error(v & 1023); sym_cover("gave up"); } else sym_cover("resubscribed"); } };
    multi<1>([&](Hot* h, auto go) { go(h[0].obs() | op::retry((size_t)count)); }, M{count}, "retry", {THOROUGH ? 6 : 5, true, false});
}
// retry_when: source 0 is the retried source, source 1 the notifier (a new one for each error)
extern "C" void H_retry_when_hot()
{
    sym_want("again"); sym_want("notifier failed"); sym_want("notifier completed"); sym_want("selector threw");
    const uint64_t live = sym_heap_live();
    {
        Hot src, note;
        Rec r; Exp e;
        const int thr = (int)sym_concrete(sym_u64("throws", 0, 2));     // selector call which throws, if any
        int calls = 0, expect_calls = 0;
        bool waiting = false, disposed = false, id_ok = true;
        int  last_id = -1, subs = 1;
        auto d = rpp::composite_disposable_wrapper::make();
        (src.obs() | op::retry_when([&](const std::exception_ptr& ep) { id_ok = id_ok && err_id(ep) == last_id; if (calls++ == thr) throw Err{555}; return note.obs(); })).subscribe(d, sink(r));
        const int n = (int)sym_concrete(sym_u64("n", 0, THOROUGH ? 6 : 5));
        for (int i = 0; i < n; ++i)
        {
            const int k = (int)sym_concrete(sym_u64("k", 0, 3));
            if (k == 3) { d.dispose(); disposed = true; sym_check(src.up == src.subs && note.up == note.subs, "dispose() must release source and notifier"); continue; }
            const int v = any_int("v");
            const bool dead = e.terminated() || disposed;
            if (waiting)
            {
                // the source is silent now (it has failed); only the notifier speaks
                if (!dead)
                {
                    if (k == NEXT) { ++subs; waiting = false; sym_cover("again"); }
                    else if (k == ERR) { e.error(v & 1023); sym_cover("notifier failed"); }
                    else { e.done(); sym_cover("notifier completed"); }
                }
                note.ev(k, v);
                if (!dead && k == NEXT) sym_check(note.up == note.subs, "the notifier must be released when it has asked for the retry");
                if (!dead && k == NEXT) sym_check(src.up == src.subs - 1, "the failed subscription must be released before a new one is made");
            }
            else
            {
                if (src.finished) continue;
                if (!dead)
                {
                    if (k == NEXT) e.next(v);
                    else if (k == DONE) e.done();
                    else { last_id = v & 1023; if (expect_calls++ == thr) { e.error(555); sym_cover("selector threw"); } else waiting = true; }
                }
                src.ev(k, v);
            }
            sym_check(r.n == e.n, "retry_when delivered the wrong notifications");
            sym_check(src.subs == subs, "retry_when must resubscribe exactly once per notifier value");
            sym_check(calls == expect_calls, "the notifier selector must be asked once per error");
            if (e.terminated()) sym_check(src.up == src.subs && note.up == note.subs && d.is_disposed(), "everything must be released at the end");
        }
        sym_check(id_ok, "the selector must get the error");
        e.check(r, "retry_when");
        d.dispose();
        sym_check(src.up == src.subs && note.up == note.subs, "dispose() must release source and notifier");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// synchronous notifier and source: the resubscription happens inside the failing subscribe call
extern "C" void H_retry_when_sync()
{
    sym_want("again");
    const uint64_t live = sym_heap_live();
    {
        Attempts a = Attempts::any(ATT, 1);
        Rec r; Exp e;
        const int what = (int)sym_concrete(sym_u64("notifier", 0, 3)), limit = (int)sym_concrete(sym_u64("limit", 0, 2));
        int calls = 0, subs = 0;
        a.rude = (int)sym_concrete(sym_u64("rude", 0, 3));
        for (int i = 0;; ++i)
        {
            ++subs;
            if (a.play(i, e, false) != ERR) break;
            if (i < limit) continue;
            if (what == 0) e.error(321); else if (what == 1) e.done(); else if (what == 3) e.error(a.s[i].val[a.s[i].legal - 1] & 1023);
            break;
        }
        (a.obs() | op::retry_when([&](const std::exception_ptr& ep) -> rpp::dynamic_observable<int> {
            if (calls++ < limit) { sym_cover("again"); return rpp::source::just(rpp::schedulers::immediate{}, 1, 2).as_dynamic(); }
            if (what == 0) return rpp::source::error<int>(mkerr(321)).as_dynamic();
            if (what == 1) return rpp::source::empty<int>().as_dynamic();
            if (what == 2) return rpp::source::never<int>().as_dynamic();
            std::rethrow_exception(ep);
        })).subscribe(sink(r));
        e.check(r, "retry_when with synchronous notifiers");
        sym_check(a.subs == subs, "retry_when must resubscribe exactly once per notifier, not per notifier value");
        sym_check(!a.overlapped, "the failed subscription must be released before a new one is made");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// on_error_resume_next: source 0 fails, source 1 takes over
struct Resume
{
    bool over = false;
    void on(int s, int k, int v, Exp& e)
    {
        if ((s == 1) != over) return;
        if (k == NEXT) { e.next(v); if (over) sym_cover("resumed"); }
        else if (k == DONE) e.done();
        else if (over) { e.error(v & 1023); sym_cover("second error"); }
        else over = true;
    }
};
extern "C" void H_resume_hot()
{
    sym_want("resumed"); sym_want("second error");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::on_error_resume_next([h](const std::exception_ptr&) { return h[1].obs(); })); }, Resume{}, "on_error_resume_next", {THOROUGH ? 5 : 4, true, true});
}
extern "C" void H_resume_sync()
{
    sym_want("threw"); sym_want("chained");
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::wellformed(2), t = Script::wellformed(1, "w");
        const int thr = (int)sym_concrete(sym_u64("throws", 0, 1));
        Rec r; Exp e; int calls = 0, id = -1;
        auto play = [](const Script& x, Exp& e) { for (int i = 0; i < x.legal; ++i) { if (x.kind[i] == NEXT) e.next(x.val[i]); else if (x.kind[i] == DONE) e.done(); } };
        play(s, e);
        if (s.last_kind() == ERR)
        {
            if (thr) { e.error(555); sym_cover("threw"); }
            else { play(t, e); if (t.last_kind() == ERR) { e.next(7); e.done(); sym_cover("chained"); } }
        }
        auto mk = [](Script& x) { return rpp::source::create<val_t>([&x](auto&& o) { for (int i = 0; i < x.n; ++i) emit(o, x.kind[i], x.val[i]); }); };
        auto first = mk(s) | op::on_error_resume_next([&](const std::exception_ptr& ep) { ++calls; id = err_id(ep); if (thr) throw Err{555}; return mk(t); });
        if (thr) first.subscribe(sink(r));
        else (first | op::on_error_resume_next([](const std::exception_ptr&) { return rpp::source::just(rpp::schedulers::immediate{}, val_t{7}); })).subscribe(sink(r));
        e.check(r, "on_error_resume_next must continue with the selected source");
        sym_check(calls == (s.last_kind() == ERR), "the selector must be asked exactly once per error");
        if (calls) sym_check(id == (s.val[s.legal - 1] & 1023), "the selector must get the error");
    }
    sym_check(sym_heap_live() == live, "leak");
}
// the source fails on another thread while subscribe() is still running on the first one
extern "C" void H_retry_concurrent()
{
    sym_want("both");
    const uint64_t live = sym_heap_live();
    {
        const int form = (int)sym_concrete(sym_u64("form", 0, 1));
        std::thread t[3];
        std::atomic<int> subs{};
        Rec r;
        auto src = rpp::source::create<val_t>([&](auto&& o) {
            const int i = subs++;
            if (i > 1) { o.on_next(100 + i); o.on_completed(); return; }
            t[i] = std::thread([i, o = std::forward<decltype(o)>(o).as_dynamic()] { o.on_next(i); o.on_error(mkerr(i)); });
        });
        if (form) (src | op::retry(5)).subscribe(sink(r));
        else (src | op::retry_when([](const std::exception_ptr&) { return rpp::source::just(rpp::schedulers::immediate{}, 1); })).subscribe(sink(r));
        sym_join_all();
        for (auto& x : t) if (x.joinable()) x.join();
        sym_check(subs == 3, "retry must resubscribe exactly once per error");
        sym_check(r.n == 4 && r.val[0] == 0 && r.val[1] == 1 && r.val[2] == 102 && r.completed(), "retry lost or duplicated notifications");
        sym_cover("both");
    }
    sym_check(sym_heap_live() == live, "leak");
}
