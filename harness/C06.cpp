//@ bound: 2 threads with 1-2 operations each (thorough: 2 operations on both) from {add, remove, clear, dispose} on one composite; every schedule with at most 2 (thorough: 3) preemptions at atomic operations
//@ preempt: 2
//@ preempt_thorough: 3
#include "common.hpp"
using namespace h;

struct Shared
{
    std::atomic<int>        hits[3]{};
    rpp::disposable_wrapper child[3]{rpp::disposable_wrapper::empty(), rpp::disposable_wrapper::empty(), rpp::disposable_wrapper::empty()};
    Shared() { for (int i = 0; i < 3; ++i) child[i] = rpp::make_callback_disposable([this, i]() noexcept { ++hits[i]; }); }
};
// op: 0 add, 1 remove, 2 clear, 3 dispose (on child i)
static void act(const rpp::composite_disposable_wrapper& c, Shared& s, int op, int i)
{
    if (op == 0) c.add(s.child[i]);
    else if (op == 1) c.remove(s.child[i]);
    else if (op == 2) c.clear();
    else c.dispose();
}
extern "C" void H_two_threads()
{
    sym_want("disposed"); sym_want("alive");
    Shared s;
    auto   c = rpp::composite_disposable_wrapper::make();
    c.add(s.child[0]);
    const int a = (int)sym_concrete(sym_u64("a", 0, 3)), b = (int)sym_concrete(sym_u64("b", 0, 3)), b2 = (int)sym_concrete(sym_u64("b2", 0, 4));
    // thread A works with child 1, thread B with child 2 (removal always targets child 0)
    std::thread t1([&] { act(c, s, a, a == 1 ? 0 : 1); });
    act(c, s, b, b == 1 ? 0 : 2);
    if (b2 < 4) act(c, s, b2, b2 == 1 ? 0 : 2);
    t1.join();
    const bool disposed = a == 3 || b == 3 || b2 == 3, cleared = a == 2 || b == 2 || b2 == 2, removed = a == 1 || b == 1 || b2 == 1;
    sym_check(c.is_disposed() == disposed, "is_disposed() must tell whether dispose() was called");
    for (int i = 0; i < 3; ++i) sym_check(s.hits[i] <= 1, "child disposed more than once");
    if (disposed && !removed) sym_check(s.hits[0] == 1, "child not disposed although the composite is");
    if (!disposed && !cleared) sym_check(s.hits[0] == 0 && s.hits[1] == 0 && s.hits[2] == 0, "child disposed although nothing asked for it");
    c.dispose();
    if (!removed) sym_check(s.hits[0] == 1, "child lost by the composite");
    if (a == 0) sym_check(s.hits[1] == 1, "concurrently added child lost by the composite");
    if (b == 0 || b2 == 0) sym_check(s.hits[2] == 1, "concurrently added child lost by the composite");
    sym_cover(disposed ? "disposed" : "alive");
}
// the guarantee behind "dispose() from another thread": when dispose() and add() race, the child never survives
extern "C" void H_add_vs_dispose()
{
    Shared s;
    auto   c = rpp::composite_disposable_wrapper::make();
    std::thread t1([&] { c.add(s.child[0]); });
    std::thread t2([&] { c.add(s.child[1]); });
    c.dispose();
    t1.join(); t2.join();
    sym_check(s.hits[0] == 1 && s.hits[1] == 1, "child added concurrently with dispose() survives");
}
// once dispose() has returned in one of two racing callers, the composite is disposed, and the callbacks ran exactly once
extern "C" void H_callback_once()
{
    std::atomic<int> n{0};
    auto             d = rpp::make_callback_disposable([&]() noexcept { ++n; });
    auto             body = [&] { d.dispose(); sym_check(d.is_disposed(), "is_disposed() must hold after dispose()"); };
    std::thread      t1(body), t2(body);
    t1.join(); t2.join();
    sym_check(n == 1, "callback must run exactly once");
}
