#include "C30_tok.hpp"
using namespace h;
// every subject with three observers, one of which comes late, one leaves early
template<class T, class S> void subj(Out& out, const Plan& p, S s, int late)
{
    auto o = s.get_observable();
    rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
    o.subscribe(eater<T>(out.a));
    for (int i = 0; i <= p.n; ++i)
    {
        if (i == late) { o.subscribe(looker<T>(out.b)); o.subscribe(d, eater<T>(out.c)); }
        if (i == p.n) break;
        if (i == late + 1) d.dispose();
        give<T>(s.get_observer(), NEXT, p.val[i], p.rv[i]);
    }
    if (p.term) give<T>(s.get_observer(), p.term, 7, false);
    Rec again;
    o.subscribe(eater<T>(again));
    for (int i = 0; i < again.n; ++i) { sym_log(again.kind[i]); sym_log(again.val[i]); }
    Rec more;
    o.subscribe(looker<T>(more));
    same(again, more, "two late observers see different values");
}
template<class M> void subjects(M make)
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        Plan p = Plan::any(1, 3);
        const int late = (int)sym_concrete(sym_u64("late", 0, 2));
        Out x, y;
        subj<Tok>(x, p, make.template operator()<Tok>(), late);
        subj<int>(y, p, make.template operator()<int>(), late);
        same(x.a, y.a, "observer 1"); same(x.b, y.b, "observer 2"); same(x.c, y.c, "observer 3");
        if (x.b.nexts()) sym_cover("values");
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define SUBJ(name, expr) extern "C" void H_subject_##name() { sym_want("values"); subjects([]<class T>() { return expr; }); }
SUBJ(publish, rpp::subjects::publish_subject<T>{})
SUBJ(publish_ser, rpp::subjects::serialized_publish_subject<T>{})
SUBJ(behavior, ([] { T init = mk<T>(4); rpp::subjects::behavior_subject<T> s{init}; sym_check(get(init) == 4, "lvalue modified"); return s; }()))
SUBJ(behavior_ser, rpp::subjects::serialized_behavior_subject<T>{mk<T>(4)})
SUBJ(replay, rpp::subjects::replay_subject<T>{})
SUBJ(replay2, rpp::subjects::replay_subject<T>{2})
SUBJ(replay2t, (rpp::subjects::replay_subject<T>{2, std::chrono::seconds{100}}))
SUBJ(replay_ser, rpp::subjects::serialized_replay_subject<T>{2})
// behaviour: get_value() hands out intact copies
extern "C" void H_behavior_value()
{
    rpp::subjects::behavior_subject<Tok> s{mk<Tok>(4)};
    const int v = any_int("v"); const bool rv = sym_bool("rvalue");
    sym_check(get(s.get_value()) == 4, "get_value"); sym_check(get(s.get_value()) == 4, "get_value");
    give<Tok>(s.get_observer(), NEXT, v, rv);
    Tok t = s.get_value(); Tok u = s.get_value();
    sym_check(get(t) == v && get(u) == v, "get_value");
}
// user-owned lvalues: seeds, observers' captured state, observables, functors are not moved from
extern "C" void H_lvalues()
{
    sym_preempt(0);
    Tok seed{3}; int n = 0; int sum = 0;
    const int v = any_int("v");
    auto fn = [t = Tok{5}](const Tok& a) { return mk<Tok>(get(a) ^ get(t)); };
    auto acc = [t = Tok{6}](const Tok& a, const Tok& b) { return mk<Tok>(get(a) ^ get(b) ^ get(t)); };
    auto s0 = src::just(imm, mk<Tok>(v), mk<Tok>(v));
    auto m = op::map(fn); auto sc = op::scan(seed, acc); auto sw = op::start_with(seed); auto bu = op::reduce(seed, acc);
    auto take = op::take(3);
    for (int k = 0; k < 2; ++k)
    {
        auto on = [&, t = Tok{1}](const Tok& x) { (void)get(t); ++n; sum = get(x); };
        auto p = s0 | m | sw | sc | take | bu;
        p.subscribe(on);
        sym_check(n == 1, "one value");
        const int expect = [&] { int a = 3, b[3] = {3, v ^ 5, v ^ 5}; int e[3]; e[0] = a; a = a ^ b[0] ^ 6; e[1] = a; a = a ^ b[1] ^ 6; e[2] = a; int r = 3; for (int x : e) r = r ^ x ^ 6; return r; }();
        sym_check(sum == expect, "the pipeline built from lvalues gives the right value every time");
        n = 0;
        auto obs = rpp::make_lambda_observer<Tok>(on, [](const std::exception_ptr&) {}, [] {});
        p.subscribe(std::move(obs));
        sym_check(n == 1 && sum == expect, "a callback passed as lvalue was modified");
        n = 0;
        sym_check(get(seed) == 3, "a seed passed as lvalue was modified");
        auto q = s0; (void)q;
    }
}
// bursts: one value to many consumers with nested structures
extern "C" void H_nested()
{
    sym_preempt(0);
    const int v = any_int("v"), w = any_int("w"); const bool rv = sym_concrete(sym_u64("rvalue", 0, 1));
    rpp::subjects::publish_subject<std::vector<Tok>> s{};
    int seen = 0;
    for (int i = 0; i < 3; ++i)
        s.get_observable().subscribe([&](std::vector<Tok> x) { sym_check(x.size() == 2 && get(x[0]) == v && get(x[1]) == w, "the container arrives intact"); ++seen; auto y = std::move(x); (void)y; });
    std::vector<Tok> c; c.reserve(2); c.emplace_back(v); c.emplace_back(w);
    if (rv) s.get_observer().on_next(std::move(c)); else { s.get_observer().on_next(c); sym_check(c.size() == 2 && get(c[0]) == v, "the user's container was modified"); }
    sym_check(seen == 3, "every observer");
}
