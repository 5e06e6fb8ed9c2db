#include "C33_forms.hpp"
using namespace h;
PIPES_D(V)
