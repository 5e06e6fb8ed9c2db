//@ bound: also two threads subscribing to one cold observable (every operator, sources of every kind) at the same time, up to 2 values and any termination each, every schedule with at most 1 (thorough: 2) preemptions
//@ preempt: 1
//@ preempt_thorough: 2
#include "C35_threads.hpp"
using namespace h;
PIPES_A(VT)
PIPES_B(VT)
