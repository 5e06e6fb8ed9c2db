#include "C33_pairs.hpp"
using namespace h;
ROW(start, START, YS)
#if THOROUGH
ROW(combine, COMBINE, YS)
ROW(toggle, TOGGLE, YS)
ROW(with, WITH, YS)
ROW(zip, ZIP, YS)
ROW(refc, REFC, YS)
#endif
