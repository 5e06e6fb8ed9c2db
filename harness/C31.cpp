//@ bound: every operator, up to 2 values (any int), ended by completion, error, disposal from outside, disposal from the callback or by a source dropping its observer; handles dropped before or after; subjects, connectables, groups, windows and scheduler queues which outlive or are outlived by the subscription
//@ preempt: 0
#include "C31_life.hpp"
using namespace h;
PIPES_A(S)
PIPES_A(U)
