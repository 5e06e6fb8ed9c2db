// Harness API. The same harness is executed symbolically (engine) and natively (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);  // any value in [lo,hi]
int64_t sym_i64(const char* name, int64_t lo, int64_t hi);
bool sym_bool(const char* name);
void sym_assume(bool);
void sym_check(bool, const char* msg);          // the property assertion
[[noreturn]] void sym_fail(const char* msg);
void sym_cover(const char* tag);                // reachability witness
void sym_want(const char* tag);                 // this witness must be reached by some complete path
void sym_log(uint64_t);                         // trace compared between engine and native replay
uint64_t sym_heap_live();                       // live heap allocations
uint64_t sym_depth();                           // depth of the call stack (grows by at least one per call)
uint64_t sym_concrete(uint64_t);                // fork over the feasible values
int sym_is_engine();
void sym_preempt(int k);                        // preemption bound for the rest of the path
void sym_timed_early(bool);                     // timed waits may expire while others run
void sym_join_all();                            // wait until every other thread has finished
void sym_spurious();                            // every condition wait in progress wakes up without a notification
int sym_tid();
void sym_norace(bool);
void sym_print(const char*, int64_t);
int64_t rt_clock_ns();                          // virtual clock
void rt_clock_advance(int64_t ns);
void rt_clock_jitter(uint64_t max_ns, int count);  // the next `count` clock reads advance by an arbitrary amount <= max_ns
}
