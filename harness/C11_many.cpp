//@ bound: also buffers of 255..300, 1025 and 4097 values, and scan/reduce over as many; counts of 3..2^40+1 (buffer: 2^20+1) with a handful of events
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
static int big() { static const int sizes[] = {255, 256, 257, 300, 1025, 4097}; return sizes[sym_concrete(sym_u64("many", 0, 5))]; }
extern "C" void H_buffer_many()
{
    const int n = big(), rest = (int)sym_concrete(sym_u64("rest", 0, 2)), fails = (int)sym_concrete(sym_u64("fails", 0, 1));
    const int r = rest == 2 ? n - 1 : rest;     // nothing, one value, or one short of a further chunk
    Hot s; int chunks = 0, expect = 0, term = 0;
    s.obs() | op::buffer((size_t)n) | op::subscribe([&](const std::vector<val_t>& b) {
        sym_check((int)b.size() == n || (term == 0 && s.finished && (int)b.size() == r && r), "a chunk of n values, the last one of what is left");
        for (const auto& v : b) sym_check((int)v == expect++, "every value once and in order");
        ++chunks; }, [&](const std::exception_ptr&) { term = ERR; }, [&] { term = DONE; });
    for (int i = 0; i < 2 * n; ++i) { s.ev(NEXT, i); sym_check(chunks == (i + 1) / n, "a chunk is delivered with its last value"); }
    for (int i = 0; i < r; ++i) s.ev(NEXT, 2 * n + i);
    if (fails) { s.ev(ERR, 1); sym_check(term == ERR && chunks == 2, "an error drops what is left"); }
    else { s.ev(DONE, 0); sym_check(term == DONE && chunks == 2 + (r > 0), "what is left is flushed"); }
    s.o.reset();
}
// chunk sizes around the widths of the integer types: a handful of values is one chunk
extern "C" void H_buffer_wide()
{
    const size_t n = wide(20);
    const int k = (int)sym_concrete(sym_u64("k", 0, 3));
    Hot s; int chunks = 0, seen = 0; bool done = false;
    s.obs() | op::buffer(n) | op::subscribe([&](const std::vector<val_t>& b) { ++chunks; for (const auto& v : b) sym_check((int)v == seen++, "every value once and in order"); }, [](const std::exception_ptr&) { sym_fail("unexpected error"); }, [&] { done = true; });
    for (int i = 0; i < k; ++i) { s.ev(NEXT, i); sym_check(chunks == ((size_t)i + 1 >= n ? 1 : 0), "a chunk is delivered with its last value"); }
    s.ev(DONE, 0);
    sym_check(done && chunks == (k > 0) && seen == k, "what is left is flushed");
    s.o.reset();
}
extern "C" void H_fold_many()
{
    const int n = big(), what = (int)sym_concrete(sym_u64("what", 0, 3));
    Hot s; Tally t; const auto d = rpp::composite_disposable_wrapper::make();
    auto f = [](int64_t a, const val_t& v) { return (a * 31 + (int)v) & 0xffffff; };
    auto g = [](val_t a, const val_t& v) { return val_t{((int)a * 31 + (int)v) & 0xffffff}; };
    if (what == 0) t.on(s.obs() | op::scan(int64_t{5}, f), d);
    else if (what == 1) t.on(s.obs() | op::reduce(int64_t{5}, f), d);
    else if (what == 2) t.on(s.obs() | op::scan(g), d);
    else t.on(s.obs() | op::reduce(g), d);
    int64_t a = 5;
    for (int i = 0; i < n; ++i)
    {
        a = what >= 2 && !i ? i : (a * 31 + i) & 0xffffff;
        s.ev(NEXT, i);
        if (what % 2 == 0) sym_check(t.last == a, "every prefix of the fold");
        else sym_check(t.n == 0, "reduce waits for the end");
    }
    s.ev(DONE, 0);
    sym_check(t.last == a && t.term == DONE, "the complete fold");
    s.o.reset();
}
