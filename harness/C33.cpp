//@ bound: every operator over three kinds of sources (own disposable container, subject, bool-only disposable), up to 2 values (any int) and any termination, disposed from inside or outside at any point, in 10 static forms (plain callbacks, returned/given/deferred handle, strategy, type-erased source/pipeline/observer); chains of two operators
//@ preempt: 0
#include "C33_forms.hpp"
using namespace h;
PIPES_A(V)
