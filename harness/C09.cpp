//@ bound: sources with up to 3 events (thorough: 5) of arbitrary kind (value/error/completion, also after the first terminal one); values are arbitrary 32-bit integers; 4 source/observer flavours
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 3;
static int f(int x) { return (int)(((unsigned)x * 2654435761u) ^ 0x55u); }

extern "C" void H_map()
{
    sym_want("full");
    Script s = Script::any(N, true);
    Exp e;
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(f(s.val[i])); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
    drive(s, [](const auto& o) { return o | op::map([](int v) { return f(v); }); }, e, "map: output differs from the mapped input");
    if (s.nvals() == N) sym_cover("full");
}
extern "C" void H_filter()
{
    sym_want("mixed");
    Script s = Script::any(N, true);
    Exp e;
    const int pivot = any_int("pivot");
    int kept = 0, dropped = 0;
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) { if (s.val[i] < pivot) { e.next(s.val[i]); ++kept; } else ++dropped; } else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
    drive(s, [=](const auto& o) { return o | op::filter([=](int v) { return v < pivot; }); }, e, "filter: output differs from the matching input", 2);
    if (kept && dropped) sym_cover("mixed");
}
extern "C" void H_tap()
{
    sym_want("done"); sym_want("error");
    Script s = Script::any(N, true);
    Exp e;
    Rec seen;
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }
    drive(s, [&](const auto& o) { return o | op::tap([&](int v) { seen.on_next(v); }, [&](const std::exception_ptr& x) { seen.on_error(x); }, [&] { seen.on_completed(); }); }, e, "tap: output differs from the input");
    e.check(seen, "tap: callbacks did not see exactly the input");
    if (seen.completed()) sym_cover("done");
    if (seen.errored()) sym_cover("error");
}

// the shorter forms of tap (those with on_error or on_completed alone do not compile: the call is ambiguous)
extern "C" void H_tap_forms()
{
    sym_want("done");
    Script s = Script::any(N, true);
    const int form = (int)sym_concrete(sym_u64("form", 0, 2));
    Exp e; int nexts = 0, dones = 0;
    for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) { e.next(s.val[i]); ++nexts; } else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else { e.done(); ++dones; } }
    int n = 0, d = 0;
    auto on_next = [&](const val_t&) { ++n; };
    auto on_done = [&] { ++d; };
    auto src = rpp::source::create<val_t>([&](auto&& o) { for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
    Rec r;
    if (form == 0) (src | op::tap(on_next)).subscribe(sink(r));
    else if (form == 1) (src | op::tap(on_next, on_done)).subscribe(sink(r));
    else (src | op::tap()).subscribe(sink(r));
    e.check(r, "tap: output differs from the input");
    sym_check(n == (form < 2 ? nexts : 0) && d == (form == 1 ? dones : 0), "tap: callbacks did not see exactly the input");
    if (d) sym_cover("done");
}
