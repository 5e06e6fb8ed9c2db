//@ bound: sources with up to 4 events (thorough: 5) of arbitrary kind, also after the first terminal one; values arbitrary 32-bit; a non-commutative, non-associative accumulator; buffer counts 0..6; 4 source/observer flavours
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 4;
static int acc(int s, int v) { return (int)(((unsigned)s * 31u) + ((unsigned)v ^ 0x5bd1u)); }
static void tail(const Script& s, int i, Exp& e) { if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }

extern "C" void H_scan_seed()
{
    sym_want("full");
    Script s = Script::any(N, true);
    int seed = any_int("seed"), cur = seed;
    Exp e; e.next(cur);
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] != NEXT) tail(s, i, e); else { cur = acc(cur, s.val[i]); e.next(cur); } }
    if (s.nvals() == N) sym_cover("full");
    drive(s, [=](const auto& o) { return o | op::scan(seed, [](int a, int b) { return acc(a, b); }); }, e, "scan(seed) must deliver the seed and every running accumulation");
}
extern "C" void H_scan()
{
    Script s = Script::any(N, true);
    int cur = 0; bool has = false;
    Exp e;
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] != NEXT) tail(s, i, e); else { cur = has ? acc(cur, s.val[i]) : s.val[i]; has = true; e.next(cur); } }
    drive(s, [=](const auto& o) { return o | op::scan([](int a, int b) { return acc(a, b); }); }, e, "scan must deliver every running accumulation");
}
extern "C" void H_reduce_seed()
{
    Script s = Script::any(N, true);
    int seed = any_int("seed"), cur = seed;
    Exp e;
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) cur = acc(cur, s.val[i]); else { if (s.kind[i] == DONE) e.next(cur); tail(s, i, e); } }
    drive(s, [=](const auto& o) { return o | op::reduce(seed, [](int a, int b) { return acc(a, b); }); }, e, "reduce(seed) must deliver exactly the final accumulation");
}
extern "C" void H_reduce()
{
    sym_want("one"); sym_want("many");
    Script s = Script::any(N, true);
    int cur = 0, has = 0;
    Exp e;
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) { cur = has ? acc(cur, s.val[i]) : s.val[i]; ++has; } else { if (s.kind[i] == DONE && has) e.next(cur); tail(s, i, e); } }
    if (e.n == 2 && has == 1) sym_cover("one");
    if (e.n == 2 && has > 1) sym_cover("many");
    drive(s, [=](const auto& o) { return o | op::reduce([](int a, int b) { return acc(a, b); }); }, e, "reduce must deliver exactly the final accumulation");
}
template<class Look> static void buffers(Look look)
{
    sym_want("two"); sym_want("partial");
    Script s = Script::any(N, true);
    const int c = (int)sym_concrete(sym_u64("count", 0, 6)), cc = c ? c : 1;
    // flattened: size marker followed by the values
    Exp e;
    int start = 0, i = 0, bufs = 0;
    auto flush = [&](int end) { e.next(1000000 + (end - start)); for (int j = start; j < end; ++j) e.next(s.val[j]); start = end; ++bufs; };
    for (; i < s.legal; ++i)
    {
        if (s.kind[i] == NEXT) { if (i + 1 - start == cc) flush(i + 1); continue; }
        if (s.kind[i] == DONE && i > start) { flush(i); if (bufs > 1) sym_cover("partial"); }
        tail(s, i, e);
    }
    if (bufs >= 2) sym_cover("two");
    drive(s, [=](const auto& o) { return o | op::buffer(c) | op::map(look) | op::flat_map([](const std::vector<val_t>& v) {
        return rpp::source::concat(rpp::source::just(rpp::schedulers::immediate{}, val_t{1000000 + (int)v.size()}), rpp::source::from_iterable(v, rpp::schedulers::immediate{})); }); }, e, "buffer(n) must deliver consecutive disjoint chunks of n values", 3);
}
extern "C" void H_buffer() { buffers([](const std::vector<val_t>& v) { return v; }); }
extern "C" void H_buffer_taken() { buffers([](std::vector<val_t> v) { return v; }); }      // a consumer which takes the storage away
