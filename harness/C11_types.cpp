//@ bound: also for value types bool, move-only, non-assignable/non-default-constructible: up to 4 values (thorough: 5), counts 0..3, any termination
#include "types.hpp"
using namespace h;
TYPES(buffer, H_ALL, go(o | op::buffer(n)))
TYPES(scan, H_ASG, go(o | op::scan([](T&& a, const T& b) { return make<T>((int)a + (int)b + 1); })))
TYPES(scan_seed, H_ALL, go(o | op::scan(n, [](int a, const T& b) { return 2 * a + (int)b; })))
TYPES(reduce, H_ASG, go(o | op::reduce([](T&& a, const T& b) { return make<T>((int)a + (int)b + 1); })))
TYPES(reduce_seed, H_ALL, go(o | op::reduce(n, [](int a, const T& b) { return 2 * a + (int)b; })))
