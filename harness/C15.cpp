//@ bound: up to 3 (thorough: 4) events over 2-3 sources in every order, of arbitrary kind (also after a source's terminal event) and 32-bit value, with disposal at any point, also with one event of any source while one is being subscribed
#define H_VALUE V
#include "inner_sync.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 4;
struct Merge
{
    int active;
    void on(int, int k, int v, Exp& e) { if (k == NEXT) e.next(v); else if (k == ERR) e.error(v & 1023); else if (--active == 0) { e.done(); sym_cover("all done"); } }
};
extern "C" void H_merge_with2()
{
    sym_want("all done");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::merge_with(h[1].obs())); }, Merge{2}, "merge_with", {N});
}
extern "C" void H_merge_with2_nested()
{
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::merge_with(h[1].obs())); }, Merge{2}, "merge_with", {N, true, false, true});
}
extern "C" void H_merge_with3()
{
    multi<3>([](Hot* h, auto go) { go(h[0].obs() | op::merge_with(h[1].obs(), h[2].obs())); }, Merge{3}, "merge_with", {N - 1});
}
// source 0 delivers the inner sources 1, 2
struct FlatMap
{
    int  outer = 1, inner = 0, started = 0;
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (s == 0) { if (k == NEXT) { if (started < 2) { ++started; ++inner; } } else outer = 0; }
        else if (k == NEXT) { e.next(v); sym_cover("inner value"); }
        else --inner;
        if (k == DONE && !outer && !inner) { e.done(); sym_cover("all done"); }
    }
};
template<class J> static void nested(J join, const char* what)
{
    sym_want("inner value"); sym_want("all done");
    int k = 0;
    multi<3>([&](Hot* h, auto go) {
        go(h[0].obs() | op::map([h, &k](int) -> rpp::dynamic_observable<val_t> { ++k; if (k == 1) return h[1].obs().as_dynamic(); if (k == 2) return h[2].obs().as_dynamic(); return rpp::source::empty<val_t>().as_dynamic(); }) | join);
    }, FlatMap{}, what, {N});
}
extern "C" void H_merge() { nested(op::merge(), "merge"); }
static void flat_map(MultiOpt opt)
{
    sym_want("inner value"); sym_want("all done");
    int k = 0;
    multi<3>([&](Hot* h, auto go) {
        go(h[0].obs() | op::flat_map([h, &k](int) -> rpp::dynamic_observable<val_t> { ++k; if (k == 1) return h[1].obs().as_dynamic(); if (k == 2) return h[2].obs().as_dynamic(); return rpp::source::empty<val_t>().as_dynamic(); }));
    }, FlatMap{}, "flat_map", opt);
}
extern "C" void H_flat_map() { flat_map({N}); }
extern "C" void H_flat_map_nested() { flat_map({N, true, false, true}); }
// synchronous inner sources
extern "C" void H_flat_map_sync()
{
    Script s = Script::wellformed(3);
    Exp e;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] == NEXT) { e.next(s.val[i]); e.next(~s.val[i]); }
        else if (s.kind[i] == ERR) e.error(s.val[i] & 1023);
        else e.done();
    }
    drive(s, [](const auto& o) { return o | op::flat_map([](int v) { return rpp::source::just(rpp::schedulers::immediate{}, val_t{v}, val_t{~v}); }); }, e, "flat_map of synchronous sources", 4);
}
extern "C" void H_merge_inner_sync() { inner_sync_op(ALL_AT_ONCE, op::merge(), "merge of sources which play on subscription"); }
extern "C" void H_merge_with_sync() { inner_sync(ALL_AT_ONCE, DONE, "merge_with of sources which play on subscription", [](Played* p, const auto& d, Rec& r) { (p[0].obs() | op::merge_with(p[1].obs())).subscribe(d, sink(r)); }); }
