#include "C33_forms.hpp"
using namespace h;
PIPES_E(V)
