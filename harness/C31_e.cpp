#include "C31_life.hpp"
using namespace h;
PIPES_E(S)
PIPES_E(U)
