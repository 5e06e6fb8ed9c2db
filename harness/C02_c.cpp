//@ bound: the observer's value callback throws at a symbolic call behind every int -> int operator chain of pipes.hpp (part A, B); sources with up to 3 values and any termination; values arbitrary 32-bit
#include "C02_consumer.hpp"
PIPES_A(BOOM)
PIPES_B(BOOM)
