#include "C33_pairs.hpp"
using namespace h;
ROW(group, GROUP, YS)
ROW(resume, RESUME, YS)
#if THOROUGH
ROW(window, WINDOW, YS)
ROW(repeat, REPEAT, YS)
ROW(observe, OBSERVE, YS)
ROW(subscribe, SUBSCRIBE, YS)
#endif
