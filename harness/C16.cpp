//@ bound: up to 4 events (thorough: 5) over an outer and 2 inner sources in every order, arbitrary kinds (also after terminal events) and 32-bit values, disposal at any point; also with one event of any inner source while one is being subscribed
#define H_VALUE V
#include "inner_sync.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 4;
struct Switch
{
    bool outer_done = false;
    int  cur = 0;          // active inner source, 0 = none
    int  started = 0;
    void on(int s, int k, int v, Exp& e)
    {
        if (s == 0)
        {
            if (k == ERR) { e.error(v & 1023); return; }
            if (k == NEXT) { if (started < 2) cur = ++started; }
            else { outer_done = true; if (!cur) e.done(); }
            return;
        }
        if (s != cur) { sym_cover("stale"); return; }
        if (k == NEXT) { e.next(v); sym_cover("value"); }
        else if (k == ERR) e.error(v & 1023);
        else { cur = 0; if (outer_done) { e.done(); sym_cover("done"); } }
    }
};
static void run(MultiOpt opt)
{
    sym_want("value"); sym_want("done"); sym_want("stale");
    int k = 0;
    multi<3>([&](Hot* h, auto go) {
        go(h[0].obs() | op::filter([&k](int) { return k < 2; }) | op::map([h, &k](int) { ++k; if (k == 2) sym_check(true, ""); return h[k].obs().as_dynamic(); }) | op::switch_on_next());
    }, Switch{}, "switch_on_next must mirror only the most recent inner source", opt);
}
extern "C" void H_switch() { run({N}); }
// sources emit while an inner source is being subscribed
extern "C" void H_switch_nested() { run({N, true, false, true}); }
// the previous inner source is released when a new one arrives
extern "C" void H_switch_release()
{
    Hot h[3]; Rec r;
    int k = 0;
    (h[0].obs() | op::map([&](int) { ++k; return h[k].obs().as_dynamic(); }) | op::switch_on_next()).subscribe(sink(r));
    const int v = any_int("v");
    h[0].ev(NEXT, 0);
    const int early = (int)sym_concrete(sym_u64("early", 0, 2));   // inner 1: nothing, a value, completes
    if (early) h[1].ev(early == 1 ? NEXT : DONE, v);
    h[0].ev(NEXT, 0);
    sym_check(h[1].up == 1 && h[2].up == 0 && h[2].subs == 1, "the previous inner source must be released exactly once when switching");
    h[1].ev((int)sym_concrete(sym_u64("k", 0, 2)), v);
    sym_check(r.n == (early == 1), "a superseded inner source must stay silent");
    h[0].ev(DONE, 0);
    sym_check(!r.term && h[2].up == 0, "outer completion must not end the active inner source");
    h[2].ev(NEXT, v);
    h[2].ev(DONE, v);
    sym_check(r.completed() && r.nexts() == (early == 1) + 1, "the last inner source ends the stream");
    r.log();
}
extern "C" void H_switch_inner_sync() { inner_sync_op(NEWEST, op::switch_on_next(), "switch_on_next of sources which play on subscription"); }
