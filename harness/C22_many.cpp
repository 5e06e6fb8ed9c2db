//@ bound: also 255..300 observers of one connection, and as many connections in a row
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
extern "C" void H_ref_count_many()
{
    const int n = crowd();
    Hot s; auto o = s.obs() | op::publish() | op::ref_count();
    {
        std::vector<Tally> t(n); std::vector<rpp::composite_disposable_wrapper> d; d.reserve(n);
        for (int i = 0; i < n; ++i) { d.push_back(rpp::composite_disposable_wrapper::make()); t[i].on(o, d[i]); sym_check(s.subs == 1 && s.up == 0, "one subscription for everybody"); }
        s.ev(NEXT, 5);
        for (int i = 0; i < n; ++i) { d[(i * 7 + 3) % n].dispose(); if (n % 7) sym_check(s.up == (i == n - 1), "the source is released with the last observer"); }
        for (int i = 0; i < n; ++i) sym_check(t[i].n == 1 && t[i].last == 5 && !t[i].term, "everybody sees the value");
    }
    Hot s2; auto o2 = s2.obs() | op::publish() | op::ref_count();
    for (int i = 0; i < n; ++i)
    {
        Tally t; const auto d = rpp::composite_disposable_wrapper::make();
        t.on(o2, d);
        sym_check(s2.subs == i + 1 && s2.up == i, "a new connection for every round");
        s2.ev(NEXT, i);
        sym_check(t.n == 1 && t.last == i, "the value");
        d.dispose();
        sym_check(s2.up == i + 1, "the source is released with the last observer");
    }
}
