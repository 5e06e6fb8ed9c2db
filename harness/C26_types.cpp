//@ bound: also for value types bool, move-only, non-assignable/non-default-constructible: up to 4 values (thorough: 5), any termination, virtual time advanced at the end
#include <rpp/rpp.hpp>
#include <rpp/schedulers/test_scheduler.hpp>
#include "types.hpp"
using namespace h;
using rpp::schedulers::test_scheduler;
using std::chrono::nanoseconds;
TYPES(delay, H_ALL, test_scheduler ts{}; go(o | op::delay(nanoseconds{n}, ts)); ts.time_advance(nanoseconds{100}))
TYPES(observe_on, H_ALL, test_scheduler ts{}; go(o | op::observe_on(ts)); ts.time_advance(nanoseconds{100}))
TYPES(debounce, H_ASG, test_scheduler ts{}; go(o | op::debounce(nanoseconds{n}, ts)); ts.time_advance(nanoseconds{100}))
TYPES(timeout, H_ALL, test_scheduler ts{}; go(o | op::timeout(nanoseconds{n + 1}, ts)); ts.time_advance(nanoseconds{100}))
TYPES(throttle, H_ALL, go(o | op::throttle<test_scheduler>(nanoseconds{n})))
