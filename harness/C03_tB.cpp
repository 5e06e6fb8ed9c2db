//@ bound: another thread disposes at any point while the source emits 2 values and an arbitrary termination, behind every operator chain of part B of pipes.hpp; every schedule with at most 2 (thorough: 3) preemptions
//@ assume: an event whose emission started before dispose() returned may still be delivered
//@ preempt: 2
//@ preempt_thorough: 3
#include "C03_threads.hpp"
PIPES_B(T)
