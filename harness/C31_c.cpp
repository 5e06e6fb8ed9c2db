#include "C31_life.hpp"
using namespace h;
PIPES_C(S)
PIPES_C(U)
