//@ bound: sources with up to 3 events (thorough: 4) of arbitrary kind, also after the first terminal one; values 0..15 for distinct (hash buckets), arbitrary 32-bit for distinct_until_changed; 3 source/observer flavours
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 4 : 3;
static void tail(const Script& s, int i, Exp& e) { if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); }

// a symbolic value domain small enough for the hash arithmetic but with every equality pattern
extern "C" void H_distinct()
{
    sym_want("dup"); sym_want("gapdup");
    Script s;
    s.n = (int)sym_concrete(sym_u64("n", 0, N));
    bool t = false;
    for (int i = 0; i < s.n; ++i) { s.kind[i] = (int)sym_concrete(sym_u64("k", 0, 2)); s.val[i] = (int)sym_u64("v", 0, 15); if (!t) s.legal = i + 1; if (s.kind[i]) t = true; }
    Exp e;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] != NEXT) { tail(s, i, e); break; }
        bool dup = false;
        for (int j = 0; j < i; ++j) if (s.val[j] == s.val[i]) { dup = true; if (i - j > 1) sym_cover("gapdup"); }
        if (dup) sym_cover("dup"); else e.next(s.val[i]);
    }
    drive(s, [=](const auto& o) { return o | op::distinct(); }, e, "distinct must deliver every value once, at its first occurrence", 3);
}
extern "C" void H_distinct_until_changed()
{
    sym_want("dup"); sym_want("again");
    Script s = Script::any(N + 1, true);
    Exp e;
    bool has = false; int last = 0;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] != NEXT) { tail(s, i, e); break; }
        if (has && last == s.val[i]) sym_cover("dup");
        else { if (i > 1 && s.val[i] == s.val[i - 2]) sym_cover("again"); e.next(s.val[i]); }
        last = s.val[i]; has = true;
    }
    drive(s, [=](const auto& o) { return o | op::distinct_until_changed(); }, e, "distinct_until_changed must drop exactly consecutive repetitions", 2);
}
extern "C" void H_distinct_until_changed_pred()
{
    sym_want("drop");
    Script s = Script::any(N, true);
    // a custom (non-transitive) comparator: the operator compares with the last *delivered* value
    auto eq = [](int a, int b) { return ((unsigned)a - (unsigned)b + 2u) <= 4u; };
    Exp e;
    bool has = false; int last = 0;
    for (int i = 0; i < s.legal; ++i)
    {
        if (s.kind[i] != NEXT) { tail(s, i, e); break; }
        if (has && eq(last, s.val[i])) { sym_cover("drop"); continue; }
        last = s.val[i]; has = true; e.next(last);
    }
    drive(s, [=](const auto& o) { return o | op::distinct_until_changed(eq); }, e, "distinct_until_changed(eq) must drop exactly values equal to the last delivered one", 2);
}
