//@ bound: every operator except ref_count (which shares by design): two subscriptions (to the observable, a copy of it, from inside a callback of the first one, or one after the other) with up to 4 (thorough: 5) interleaved events of any kind and value, compared with each of them alone on its own observable; timed operators with two subscriptions on one scheduler; sources with state
//@ preempt: 0
#include "C35_two.hpp"
using namespace h;
PIPES_A(V)
