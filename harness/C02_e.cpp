//@ bound: the observer's value callback throws at a symbolic call behind every int -> int operator chain of pipes.hpp (part E); one of three observers of every subject throws, the others are unaffected; values arbitrary 32-bit
#include "C02_consumer.hpp"
PIPES_E(BOOM)
// an observer of a subject which throws ends only its own subscription
template<class S>
static void subject(S& s, bool first_gets_initial)
{
    sym_want("thrown");
    const uint64_t live = sym_heap_live();
    {
        int calls = 0;
        const int who = (int)sym_concrete(sym_u64("who", 0, 2)), at = (int)sym_concrete(sym_u64("at", 0, 2));
        Rec r[3];
        for (int i = 0; i < 3; ++i)
            s.get_observable().subscribe([&, i](int v) { if (i == who && calls++ == at) throw Err{7777}; r[i].on_next(v); }, [&, i](const std::exception_ptr& e) { r[i].on_error(e); }, [&, i] { r[i].on_completed(); });
        const int extra = first_gets_initial ? 1 : 0;
        Script sc = Script::wellformed(2);
        for (int i = 0; i < sc.n; ++i) emit(s.get_observer(), sc.kind[i], sc.val[i]);
        const int vals = sc.nvals() + extra;
        for (int i = 0; i < 3; ++i)
        {
            r[i].log();
            if (i == who && calls > at) { sym_check(r[i].n == at + 1 && r[i].errored() && r[i].val[at] == 7777, "an observer of a subject which throws gets its own exception as its error"); sym_cover("thrown"); }
            else { sym_check(r[i].nexts() == vals && r[i].n == vals + (sc.term() ? 1 : 0), "an observer is affected by another observer which throws"); }
        }
        s.get_disposable().dispose();
    }
    (void)live;
}
extern "C" void H_publish_subject() { rpp::subjects::publish_subject<int> s{}; subject(s, false); }
extern "C" void H_behavior_subject() { rpp::subjects::behavior_subject<int> s{5}; subject(s, true); }
extern "C" void H_replay_subject() { rpp::subjects::replay_subject<int> s{}; subject(s, false); }
extern "C" void H_serialized_subject() { rpp::subjects::serialized_publish_subject<int> s{}; subject(s, false); }
