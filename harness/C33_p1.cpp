#include "C33_pairs.hpp"
using namespace h;
ROW(finally, FINALLY, YS)
ROW(debounce, DEBOUNCE, YS)
ROW(merge, MERGE, YS)
#if THOROUGH
ROW(map, MAP, YS)
ROW(take, TAKE, YS)
ROW(delay, DELAY, YS)
#endif
