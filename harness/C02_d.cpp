//@ bound: the observer's value callback throws at a symbolic call behind every int -> int operator chain of pipes.hpp (part C, D); sources with up to 3 values and any termination; values arbitrary 32-bit
#include "C02_consumer.hpp"
PIPES_C(BOOM)
PIPES_D(BOOM)
