//@ bound: also 255..300 values waiting to be delivered
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
#include <rpp/schedulers/run_loop.hpp>
using namespace h;
extern "C" void H_backlog_many()
{
    const int n = crowd(), what = (int)sym_concrete(sym_u64("what", 0, 1)), end = (int)sym_concrete(sym_u64("end", 0, 2));
    rpp::schedulers::run_loop l{};
    Hot s; Tally t; const auto d = rpp::composite_disposable_wrapper::make();
    if (what) t.on(s.obs() | op::delay(std::chrono::nanoseconds{10}, l), d); else t.on(s.obs() | op::observe_on(l), d);
    for (int i = 0; i < n; ++i) { s.ev(NEXT, i); sym_check(t.n == 0, "nothing is delivered before the scheduler runs"); }
    if (end == 1) s.ev(ERR, 1);
    if (end == 2) s.ev(DONE, 0);
    int guard = 0;
    while (!l.is_empty()) { sym_check(guard++ < 3 * n + 5, "the scheduler never gets idle"); const int before = t.n; l.dispatch(); sym_check(t.n == before || t.last == t.n - 1, "in order"); }
    if (end == 1) sym_check(t.term == ERR, "the error");
    else sym_check(t.n == n && t.last == n - 1 && t.sum == (uint64_t)n * (n - 1) / 2 && t.term == (end ? DONE : 0), "every value once");
    s.o.reset();
}
