#include "C33_pairs.hpp"
using namespace h;
ROW(switch, SWITCH, YS)
#if THOROUGH
ROW(until, UNTIL, YS)
ROW(flat, FLAT, YS)
ROW(concat, CONCAT, YS)
ROW(retry, RETRY, YS)
ROW(retryw, RETRYW, YS)
#endif
