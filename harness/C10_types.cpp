//@ bound: also for value types bool, move-only, non-assignable/non-default-constructible: up to 4 values (thorough: 5), counts 0..3, any termination
#include "types.hpp"
using namespace h;
TYPES(take, H_ALL, go(o | op::take(n)))
TYPES(skip, H_ALL, go(o | op::skip(n)))
TYPES(take_last, H_ASG, go(o | op::take_last(n)))
TYPES(element_at, H_ALL, go(o | op::element_at(n)))
TYPES(first, H_ALL, go(o | op::first()))
TYPES(last, H_ALL, go(o | op::last()))
TYPES(take_while, H_ALL, go(o | op::take_while([](const T& v) { return (int)v == 1; })))
