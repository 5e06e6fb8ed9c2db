//@ bound: up to 4 events (thorough: 5) over an outer and 2 inner sources in every order, arbitrary kinds and 32-bit values, disposal at any point, also with one event of any source while one is being subscribed; concat/start_with/repeat of synchronous scripts with up to 2 values each and any termination
#define H_VALUE V
#include "inner_sync.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 4;
// concat operator: source 0 delivers inner sources 1 and 2 (cold: subscribed only when their turn comes)
struct Concat
{
    bool outer_done = false;
    int  queued = 0, started = 0;      // inner sources delivered / subscribed so far (1-based id of the active one)
    bool active = false;
    void next_inner() { if (!active && started < queued) { ++started; active = true; } }
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (s == 0)
        {
            if (k == NEXT) { if (queued < 2) { ++queued; next_inner(); } }
            else { outer_done = true; if (!active) e.done(); }
            return;
        }
        if (k == NEXT) { e.next(v); sym_cover("value"); return; }
        active = false;
        next_inner();
        if (!active && outer_done) { e.done(); sym_cover("done"); }
    }
};
static void concat_op(MultiOpt opt)
{
    sym_want("value"); sym_want("done");
    int k = 0;
    multi<3>([&](Hot* h, auto go) {
        go(h[0].obs() | op::filter([&k](int) { return k < 2; }) | op::map([h, &k](int) { ++k; return h[k].obs().as_dynamic(); }) | op::concat());
    }, Concat{}, "concat: inner sources must be delivered one after the other", opt);
}
extern "C" void H_concat_op() { concat_op({N}); }
extern "C" void H_concat_op_nested() { concat_op({N, true, false, true}); }
// concat source over hot sources: subscribes one after the other
struct Sequence
{
    int last, cur = 0;
    void on(int s, int k, int v, Exp& e)
    {
        if (s != cur) return;
        if (k == NEXT) e.next(v);
        else if (k == ERR) e.error(v & 1023);
        else if (cur++ == last) { e.done(); sym_cover("done"); }
    }
};
extern "C" void H_concat_source()
{
    sym_want("done");
    multi<3>([](Hot* h, auto go) { go(rpp::source::concat(h[0].obs(), h[1].obs(), h[2].obs())); }, Sequence{2}, "concat source", {N});
}
extern "C" void H_concat_source_nested()
{
    sym_want("done");
    multi<3>([](Hot* h, auto go) { go(rpp::source::concat(h[0].obs(), h[1].obs(), h[2].obs())); }, Sequence{2}, "concat source", {N, true, false, true});
}
extern "C" void H_concat_iterable()
{
    multi<2>([](Hot* h, auto go) { go(rpp::source::concat(std::vector{h[0].obs(), h[1].obs()})); }, Sequence{1}, "concat of a container", {N});
}
extern "C" void H_start_with()
{
    multi<2>([](Hot* h, auto go) { go(h[1].obs() | op::start_with(h[0].obs())); }, Sequence{1}, "start_with must deliver its arguments first", {N});
}
extern "C" void H_start_with_values()
{
    Script s = Script::any(3, true);
    const val_t a = any_int("a"), b = any_int("b");
    Exp e; e.next(a); e.next(b);
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
    Rec r;
    auto src = rpp::source::create<val_t>([&](auto&& o) { for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
    if (sym_bool("imm")) (src | op::start_with(rpp::schedulers::immediate{}, a, b)).subscribe(sink(r));
    else (src | op::start_with(a, b)).subscribe(sink(r));
    e.check(r, "start_with(values) must deliver the values first");
}
// repeat: resubscribes on completion only
extern "C" void H_repeat()
{
    sym_want("again"); sym_want("zero");
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::wellformed(2);
        const int times = (int)sym_concrete(sym_u64("times", 0, 4));
        const int rude = (int)sym_concrete(sym_u64("rude", 0, 3));    // what the source goes on with after its own end
        Exp e; Rec r; int subs = 0, up = 0, expect_subs = 0;
        for (int t = 0; t < times && !e.terminated(); ++t)
        {
            ++expect_subs;
            bool completed = false;
            for (int i = 0; i < s.n; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else completed = true; }
            if (!completed) break;
        }
        if (!e.terminated() && expect_subs == times && (s.last_kind() == DONE || times == 0)) e.done();
        auto src = rpp::source::create<val_t>([&](auto&& o) { ++subs; o.set_upstream(rpp::make_callback_disposable([&]() noexcept { ++up; })); sym_check(up == subs - 1, "previous subscription must be released before the next one starts"); for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); if (s.last_kind() != NEXT && rude) { emit(o, NEXT, 99); emit(o, rude - 1, 98); } });
        (src | op::repeat(times)).subscribe(sink(r));
        e.check(r, "repeat(n) must deliver n runs");
        sym_check(subs == expect_subs, "repeat(n) must subscribe exactly n times");
        sym_cover(times == 0 ? "zero" : "again");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_repeat_infinite()
{
    const uint64_t live = sym_heap_live();
    {
        const int take = (int)sym_concrete(sym_u64("take", 1, 5)); const val_t a = any_int("a"), b = any_int("b");
        Rec r; int subs = 0;
        Exp e; for (int i = 0; i < take; ++i) e.next((int)(i % 2 ? b : a));
        e.done();
        auto src = rpp::source::create<val_t>([&](auto&& o) { ++subs; o.on_next(a); o.on_next(b); o.on_completed(); });
        (src | op::repeat() | op::take(take)).subscribe(sink(r));
        e.check(r, "repeat() must repeat until disposed");
        sym_check(subs == (take + 1) / 2, "repeat() must stop resubscribing when disposed");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_concat_inner_sync() { inner_sync_op(ONE_AFTER_ANOTHER, op::concat(), "concat of sources which play on subscription"); }
extern "C" void H_concat_source_sync() { inner_sync(ONE_AFTER_ANOTHER, DONE, "concat source of sources which play on subscription", [](Played* p, const auto& d, Rec& r) { rpp::source::concat(p[0].obs(), p[1].obs()).subscribe(d, sink(r)); }); }
extern "C" void H_start_with_sync() { inner_sync(ONE_AFTER_ANOTHER, DONE, "start_with of sources which play on subscription", [](Played* p, const auto& d, Rec& r) { (p[1].obs() | op::start_with(p[0].obs())).subscribe(d, sink(r)); }); }
