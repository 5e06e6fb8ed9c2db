#include "C31_life.hpp"
using namespace h;
PIPES_D(S)
PIPES_D(U)
