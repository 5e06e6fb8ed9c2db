//@ bound: also 255..300 observers, and 255..300 replayed values; counts of 3..2^40+1 (buffer: 2^20+1) with a handful of events
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
using namespace h;
template<class S> static void crowd_of(const S& s, int had)
{
    const int n = crowd(), gone = (int)sym_concrete(sym_u64("gone", 0, 2));
    std::vector<Tally> t(n); std::vector<rpp::composite_disposable_wrapper> d; d.reserve(n);
    for (int i = 0; i < n; ++i) { d.push_back(rpp::composite_disposable_wrapper::make()); t[i].on(s.get_observable(), d[i]); }
    s.get_observer().on_next(val_t{7});
    const int x = gone == 0 ? 0 : gone == 1 ? 255 % n : n - 1;
    d[x].dispose();
    s.get_observer().on_next(val_t{8});
    s.get_observer().on_completed();
    for (int i = 0; i < n; ++i) sym_check(t[i].n == had + (i == x ? 1 : 2) && t[i].last == (i == x ? 7 : 8) && t[i].term == (i == x ? 0 : DONE), "every observer sees everything while it is subscribed");
}
extern "C" void H_publish_many() { crowd_of(rpp::subjects::publish_subject<val_t>{}, 0); }
extern "C" void H_behavior_many() { crowd_of(rpp::subjects::behavior_subject<val_t>{val_t{1}}, 1); }
extern "C" void H_replay_many()
{
    const int n = crowd(), m = crowd(), limited = (int)sym_concrete(sym_u64("limited", 0, 1));
    rpp::subjects::replay_subject<val_t> s = limited ? rpp::subjects::replay_subject<val_t>{(size_t)n} : rpp::subjects::replay_subject<val_t>{};
    for (int i = 0; i < m; ++i) s.get_observer().on_next(val_t{i});
    Tally t; t.on(s.get_observable(), rpp::composite_disposable_wrapper::make());
    const int k = limited && n < m ? n : m;
    sym_check(t.n == k && t.last == m - 1 && t.sum == (uint64_t)k * (2 * m - k - 1) / 2, "a late observer gets the last values");
}

extern "C" void H_replay_wide()
{
    const size_t n = wide(40); const int k = (int)sym_concrete(sym_u64("k", 0, 5)), timed = (int)sym_concrete(sym_u64("timed", 0, 1));
    auto check = [&](const auto& s) {
        for (int i = 0; i < k; ++i) s.get_observer().on_next(val_t{i});
        Tally t; const auto d = rpp::composite_disposable_wrapper::make();
        t.on(s.get_observable(), d);
        sym_check(t.n == (int)std::min<size_t>((size_t)k, n) && (!k || t.last == k - 1), "replay(n) replays the last n values");
    };
    if (timed) check(rpp::subjects::replay_subject<val_t>{n, std::chrono::hours{1}});
    else check(rpp::subjects::replay_subject<val_t>{n});
}
