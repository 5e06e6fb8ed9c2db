//@ preempt: 1
//@ preempt_thorough: 2
#include "C35_threads.hpp"
using namespace h;
PIPES_C(VT)
PIPES_D(VT)
