#include "C35_two.hpp"
using namespace h;
PIPES_C(V)
