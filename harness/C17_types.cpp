//@ bound: also for value types bool, move-only, non-assignable/non-default-constructible: up to 4 values (thorough: 5), any termination, a finite synchronous second source
#include "types.hpp"
using namespace h;
TYPES(combine_latest, H_ALL, go(o | op::combine_latest([](const T& a, const T& b) { return 10 * (int)a + (int)b; }, src::create<T>([n](auto&& x) { for (int i = 0; i < n; ++i) x.on_next(make<T>(i)); x.on_completed(); }))))
TYPES(with_latest_from, H_ALL, go(o | op::with_latest_from([](const T& a, const T& b) { return 10 * (int)a + (int)b; }, src::create<T>([n](auto&& x) { for (int i = 0; i < n; ++i) x.on_next(make<T>(i)); x.on_completed(); }))))
TYPES(zip, H_ALL, go(o | op::zip([](const T& a, const T& b) { return 10 * (int)a + (int)b; }, src::create<T>([n](auto&& x) { for (int i = 0; i < n; ++i) x.on_next(make<T>(i)); x.on_completed(); }))))
