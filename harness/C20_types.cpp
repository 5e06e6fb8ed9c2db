//@ bound: also for value types bool, move-only, non-assignable/non-default-constructible: up to 4 values (thorough: 5), any termination, observers from the start (replay: at the end)
#include "types.hpp"
using namespace h;
TYPES(publish, H_ALL, rpp::subjects::publish_subject<T> s{}; s.get_observable().subscribe([](const T&) {}, [](const std::exception_ptr&) {}); go(s.get_observable()); o.subscribe(s.get_observer()))
TYPES(serialized, H_ALL, rpp::subjects::serialized_publish_subject<T> s{}; go(s.get_observable()); o.subscribe(s.get_observer()))
TYPES(replay, H_CPY, rpp::subjects::replay_subject<T> s{(size_t)n}; o.subscribe(s.get_observer()); go(s.get_observable()))
TYPES(behavior, (bool, Plain), rpp::subjects::behavior_subject<T> s{make<T>(n)}; go(s.get_observable()); o.subscribe(s.get_observer()))
