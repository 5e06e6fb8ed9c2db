//@ bound: up to 4 (thorough: 5) source events of arbitrary kind and value; disposal inside the 1st-3rd on_next or between any two events; combining and windowing operators
#include "C03_inside.hpp"
PIPES_D(X)
