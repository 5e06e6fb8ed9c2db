//@ bound: two or three sources (0..1 values each), each of which delivers either at once or from a thread of its own, so that it completes while, before or after its subscription returns; also ended by an error; every schedule with at most 2 (thorough: 3) preemptions
//@ preempt: 2
//@ preempt_thorough: 3
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
namespace src = rpp::source;
struct Play
{
    std::atomic<int> running{0}, started{0};
    int released = 0;
    auto source(int id, bool async, int n, int end = DONE)
    {
        return src::create<val_t>([this, id, async, n, end](auto&& o) {
            sym_check(running.fetch_add(1) == 0, "two sources are subscribed at once");
            ++started;
            auto play = [this, id, n, end](const auto& ob) {
                for (int i = 0; i < n; ++i) emit(ob, NEXT, id * 10 + i);
                running.fetch_sub(1);
                emit(ob, end, 7);
            };
            if (async) std::thread{[play, ob = std::forward<decltype(o)>(o).as_dynamic()] { play(ob); }}.detach();
            else play(o);
        });
    }
};
template<class B> static void sequence(int n, B&& build, bool rep = false)
{
    sym_want("complete"); sym_want("overlap");
    const uint64_t live = sym_heap_live();
    {
        Play p; Rec r; Exp e;
        bool async[3]; int vals[3]; int end = DONE;
        for (int i = 0; i < n; ++i) { async[i] = sym_bool("async"); vals[i] = (int)sym_concrete(sym_u64("n", i == 0 && !rep ? 0 : 1, 1)); }
        if (sym_bool("fails")) end = ERR;
        build(p, async, vals, end).subscribe(sink(r));
        if (p.running.load()) sym_cover("overlap");
        sym_join_all();
        const int rounds = rep ? 2 : 1;
        for (int k = 0; k < rounds && !e.terminated(); ++k) for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < vals[i]; ++j) e.next(i * 10 + j);
            if (i + 1 == n && end == ERR) { e.error(7); break; }
        }
        if (!e.terminated()) { e.done(); sym_cover("complete"); }
        e.check(r, "sources must be played one after the other, each of them completely");
        sym_check(p.running.load() == 0, "all sources finished");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_source_concat() { sequence(2, [](Play& p, auto& a, auto& n, int end) { return src::concat(p.source(0, a[0], n[0]).as_dynamic(), p.source(1, a[1], n[1], end).as_dynamic()); }); }
extern "C" void H_source_concat3() { sequence(3, [](Play& p, auto& a, auto& n, int end) { return src::concat(std::vector<rpp::dynamic_observable<val_t>>{p.source(0, a[0], n[0]).as_dynamic(), p.source(1, a[1], n[1]).as_dynamic(), p.source(2, a[2], n[2], end).as_dynamic()}); }); }
extern "C" void H_start_with() { sequence(2, [](Play& p, auto& a, auto& n, int end) { return p.source(1, a[1], n[1], end).as_dynamic() | op::start_with(p.source(0, a[0], n[0]).as_dynamic()); }); }
extern "C" void H_repeat() { sequence(1, [](Play& p, auto& a, auto& n, int end) { return p.source(0, a[0], n[0], end).as_dynamic() | op::repeat(2); }, true); }
extern "C" void H_concat_op()
{
    sequence(3, [](Play& p, auto& a, auto& n, int end) {
        return src::create<int>([](auto&& o) { o.on_next(0); o.on_next(1); o.on_next(2); o.on_completed(); })
             | op::map([&p, a0 = a[0], a1 = a[1], a2 = a[2], n0 = n[0], n1 = n[1], n2 = n[2], end](int i) { return p.source(i, i == 0 ? a0 : i == 1 ? a1 : a2, i == 0 ? n0 : i == 1 ? n1 : n2, i == 2 ? end : DONE).as_dynamic(); })
             | op::concat();
    });
}
// the outer source of concat() delivers on one thread while the inner sources finish on others
extern "C" void H_concat_outer()
{
    sym_want("complete");
    const uint64_t live = sym_heap_live();
    {
        Play p; Rec r; Exp e;
        const bool a0 = sym_bool("async"), a1 = sym_bool("async");
        p.running = 0;
        src::create<int>([](auto&& o) { std::thread{[ob = std::forward<decltype(o)>(o).as_dynamic()] { ob.on_next(0); ob.on_next(1); ob.on_completed(); }}.detach(); })
            | op::map([&](int i) { return p.source(i, i ? a1 : a0, 1).as_dynamic(); }) | op::concat() | op::subscribe(sink(r));
        sym_join_all();
        e.next(0); e.next(10); e.done();
        sym_cover("complete");
        e.check(r, "sources must be played one after the other, each of them completely");
    }
    sym_check(sym_heap_live() == live, "leak");
}
