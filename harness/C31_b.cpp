#include "C31_life.hpp"
using namespace h;
PIPES_B(S)
PIPES_B(U)
