//@ bound: up to 4 events (thorough: 5) over the source and the notifier in every order, arbitrary kinds (also after terminal events) and 32-bit values, disposal at any point
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 4;
struct Until
{
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) e.error(v & 1023);
        else if (k == DONE || s == 1) { e.done(); sym_cover(s == 1 ? "until" : "done"); }
        else { e.next(v); sym_cover("value"); }
    }
};
extern "C" void H_take_until()
{
    sym_want("value"); sym_want("until"); sym_want("done");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::take_until(h[1].obs())); }, Until{}, "take_until must mirror the source until the notifier fires", {N});
}
// a notifier that fires while being subscribed
extern "C" void H_immediate_notifier()
{
    Script n = Script::wellformed(1, "nv"), s = Script::any(2, true);
    Exp e; Rec r;
    if (n.legal) { if (n.kind[0] == ERR) e.error(n.val[0] & 1023); else e.done(); }
    else for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
    auto mk = [](const Script& x) { return rpp::source::create<val_t>([&x](auto&& o) { for (int i = 0; i < x.n; ++i) emit(o, x.kind[i], x.val[i]); }); };
    (mk(s) | op::take_until(mk(n))).subscribe(sink(r));
    e.check(r, "take_until with a notifier that fires at once");
}
