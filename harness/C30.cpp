//@ bound: every sequence of up to 3 (thorough: 4) values (any int, each passed as lvalue or rvalue) and termination through every operator, from a cold source subscribed three times and from a subject with three observers, consumers which move from what they receive; the value type records moves, and the run is compared with the same pipeline over int
#include "C30_tok.hpp"
using namespace h;
H(map, o | op::map([](T v) { return v; }) | op::map([](const T& v) { return mk<T>(get(v) ^ 1); }))
H(filter, o | op::filter([](const T& v) { return get(v) > 3; }))
H(filter_value, o | op::filter([](T v) { T w = std::move(v); return get(w) > 3; }))
H(distinct_until_value, o | op::distinct_until_changed([](T a, T b) { T x = std::move(a), y = std::move(b); return get(x) == get(y); }))
H(tap, o | op::tap([](T v) { T w = std::move(v); (void)w; }, [](const std::exception_ptr&) {}, [] {}) | op::tap([](const T& v) { (void)get(v); }))
H(scan, o | op::scan([](T a, T b) { return mk<T>(get(a) ^ get(b)); }))
H(scan_move, o | op::scan([](T&& a, const T& b) { T w = std::move(a); return mk<T>(get(w) ^ get(b)); }))
H(scan_seed, o | op::scan(mk<T>(3), [](T&& a, const T& b) { T w = std::move(a); return mk<T>(get(w) ^ get(b)); }))
H(reduce, o | op::reduce([](T&& a, const T& b) { T w = std::move(a); return mk<T>(get(w) ^ get(b)); }))
H(reduce_seed, o | op::reduce(mk<T>(3), [](T&& a, const T& b) { T w = std::move(a); return mk<T>(get(w) ^ get(b)); }))
H(distinct, o | op::map([](const T& v) { return mk<T>(get(v) & 1); }) | op::distinct())
H(distinct_until_changed, o | op::distinct_until_changed())
H(skip, o | op::skip(1))
