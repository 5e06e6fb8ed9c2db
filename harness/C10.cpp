//@ bound: sources with up to 4 events (thorough: 5) of arbitrary kind (value/error/completion, also after the first terminal one); values arbitrary 32-bit; counts of take/skip/element_at arbitrary 64-bit, of take_last 0..6; 4 source/observer flavours
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 4;
static void tail(const Script& s, int i, Exp& e) { if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }

extern "C" void H_take()
{
    sym_want("early"); sym_want("longer"); sym_want("never");
    Script s = Script::any(N, true);
    const uint64_t c = sym_u64("count", 0, UINT64_MAX);
    Exp e; uint64_t seen = 0;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] != NEXT) { tail(s, i, e); break; }
        if (seen < c) { e.next(s.val[i]); ++seen; }
        if (seen == c) { e.done(); sym_cover("early"); break; }
    }
    if (c == UINT64_MAX) sym_cover("never");
    if (s.term() && (uint64_t)s.nvals() < c) sym_cover("longer");
    drive(s, [=](const auto& o) { return o | op::take(c); }, e, "take(n) must deliver exactly the first n values");
}
extern "C" void H_skip()
{
    sym_want("some");
    Script s = Script::any(N, true);
    const uint64_t c = sym_u64("count", 0, UINT64_MAX);
    Exp e; uint64_t seen = 0;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] != NEXT) { tail(s, i, e); break; }
        if (seen < c) ++seen; else { e.next(s.val[i]); if (seen) sym_cover("some"); }
    }
    drive(s, [=](const auto& o) { return o | op::skip(c); }, e, "skip(n) must drop exactly the first n values");
}
extern "C" void H_take_last()
{
    sym_want("wrapped"); sym_want("short");
    Script s = Script::any(N, true);
    const int c = (int)sym_concrete(sym_u64("count", 0, 6));
    Exp e;
    const int nv = s.nvals();
    if (s.term())
    {
        if (s.last_kind() == DONE) for (int i = 0; i < nv; ++i) if (i >= nv - c) e.next(s.val[i]);
        tail(s, s.legal - 1, e);
        if (c && nv > c) sym_cover("wrapped");
        if (c > nv && nv) sym_cover("short");
    }
    drive(s, [=](const auto& o) { return o | op::take_last(c); }, e, "take_last(n) must deliver exactly the last n values");
}
extern "C" void H_take_while()
{
    sym_want("cut");
    Script s = Script::any(N, true);
    const int pivot = any_int("pivot");
    Exp e;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] != NEXT) { tail(s, i, e); break; }
        if (s.val[i] < pivot) e.next(s.val[i]); else { e.done(); if (i + 1 < s.legal) sym_cover("cut"); break; }
    }
    drive(s, [=](const auto& o) { return o | op::take_while([=](int v) { return v < pivot; }); }, e, "take_while must deliver the longest matching prefix", 2);
}
extern "C" void H_element_at()
{
    sym_want("hit"); sym_want("miss");
    Script s = Script::any(N, true);
    const uint64_t c = sym_u64("index", 0, UINT64_MAX - 1);
    Exp e; uint64_t seen = 0;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] == ERR) { tail(s, i, e); break; }
        if (s.kind[i] == DONE) { e.error(9003); sym_cover("miss"); break; }
        if (seen == c) { e.next(s.val[i]); e.done(); sym_cover("hit"); break; }
        ++seen;
    }
    drive(s, [=](const auto& o) { return o | op::element_at(c); }, e, "element_at(i) must deliver exactly the value at index i");
}
extern "C" void H_first()
{
    Script s = Script::any(N, true);
    Exp e;
    if (s.legal) { if (s.kind[0] == NEXT) { e.next(s.val[0]); e.done(); } else if (s.kind[0] == ERR) tail(s, 0, e); else e.error(9002); }
    drive(s, [=](const auto& o) { return o | op::first(); }, e, "first must deliver exactly the first value");
}
extern "C" void H_last()
{
    sym_want("last");
    Script s = Script::any(N, true);
    Exp e;
    if (s.term())
    {
        const int nv = s.nvals();
        if (s.last_kind() == ERR) tail(s, s.legal - 1, e);
        else if (nv) { e.next(s.val[nv - 1]); e.done(); if (nv > 1) sym_cover("last"); }
        else e.error(9002);
    }
    drive(s, [=](const auto& o) { return o | op::last(); }, e, "last must deliver exactly the last value");
}
