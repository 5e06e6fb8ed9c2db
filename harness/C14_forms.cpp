//@ bound: every overload of concat and start_with (stack and shared memory, schedulers, containers, one to three arguments, argument types which differ) over up to 4 events in every order resp. synchronous scripts with up to 2 values
#define H_VALUE V
#include "inner_sync.hpp"
using namespace h;
namespace op = rpp::operators;
namespace rs = rpp::source;
using shared = rpp::memory_model::use_shared;
static const int N = THOROUGH ? 5 : 4;
// concat source over hot sources: subscribes one after the other
struct Sequence
{
    int last, cur = 0;
    void on(int s, int k, int v, Exp& e)
    {
        if (s != cur) return;
        if (k == NEXT) e.next(v);
        else if (k == ERR) e.error(v & 1023);
        else if (cur++ == last) { e.done(); sym_cover("done"); }
    }
};

extern "C" void H_concat_shared()
{
    sym_want("done");
    multi<3>([](Hot* h, auto go) { go(rs::concat<shared>(h[0].obs(), h[1].obs().as_dynamic(), h[2].obs())); }, Sequence{2}, "concat source", {N});
}
extern "C" void H_concat_container_shared()
{
    sym_want("done");
    multi<2>([](Hot* h, auto go) { go(rs::concat<shared>(std::array{h[0].obs(), h[1].obs()})); }, Sequence{1}, "concat of a container", {N});
}
extern "C" void H_concat_one()
{
    sym_want("done");
    multi<1>([](Hot* h, auto go) { go(rs::concat(h[0].obs())); }, Sequence{0}, "concat of one source", {N});
}
extern "C" void H_start_with_two()
{
    sym_want("done");
    multi<3>([](Hot* h, auto go) { go(h[2].obs() | op::start_with(h[0].obs(), h[1].obs().as_dynamic())); }, Sequence{2}, "start_with must deliver its arguments first, in their order", {N});
}
extern "C" void H_start_with_twice()
{
    sym_want("done");
    multi<3>([](Hot* h, auto go) { go(h[2].obs() | op::start_with(h[1].obs()) | op::start_with(h[0].obs())); }, Sequence{2}, "the last start_with is delivered first", {N});
}
extern "C" void H_start_with_values_forms()
{
    sym_want("one"); sym_want("three");
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::any(2, true);
        const val_t a = any_int("a"), b = any_int("b"), c = any_int("c");
        const int form = (int)sym_concrete(sym_u64("form", 0, 7));
        Exp e; e.next(a);
        if (form != 6) { e.next(b); e.next(c); }
        for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
        Rec r;
        auto src = rs::create<val_t>([&](auto&& o) { for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
        const rpp::schedulers::immediate imm{};
        switch (form)
        {
        case 0: (src | op::start_with_values(a, b, c)).subscribe(sink(r)); break;
        case 1: (src | op::start_with_values<shared>(a, b, c)).subscribe(sink(r)); break;
        case 2: (src | op::start_with_values(imm, a, b, c)).subscribe(sink(r)); break;
        case 3: (src | op::start_with_values<shared>(imm, a, b, c)).subscribe(sink(r)); break;
        case 4: (src | op::start_with<shared>(a, b, c)).subscribe(sink(r)); break;
        case 5: { val_t x = a; const auto o = src | op::start_with<shared>(imm, std::move(x), b, c); x = val_t{0}; o.subscribe(sink(r)); break; }
        case 6: (src | op::start_with(a)).subscribe(sink(r)); break;
        case 7: { const auto p = op::start_with(a, b, c); const auto o = src | p; { Rec r2; o.subscribe(sink(r2)); e.check(r2, "the first subscription"); } o.subscribe(sink(r)); break; }
        }
        e.check(r, "start_with(values) must deliver the values first");
        sym_cover(form == 6 ? "one" : "three");
    }
    sym_check(sym_heap_live() == live, "leak");
}
