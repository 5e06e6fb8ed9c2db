#include "C30_tok.hpp"
using namespace h;
H(take, o | op::take(2))
H(take_while, o | op::take_while([](const T& v) { return get(v) != 7; }))
H(take_while_value, o | op::take_while([](T v) { T w = std::move(v); return get(w) != 7; }))
H(take_last, o | op::take_last(2))
H(take_last1, o | op::take_last(1))
H(reduce_value, o | op::reduce([](T a, T b) { return mk<T>(get(a) ^ get(b)); }))
H(first, o | op::first())
H(last, o | op::last())
H(element_at, o | op::element_at(1))
H(finally, o | op::finally([]() noexcept {}))
H(start_with, [&] { T a = mk<T>(5); auto r = o | op::start_with(a, mk<T>(6)); sym_check(get(a) == 5, "a value passed as an lvalue was modified"); return r; }())
H(start_with_ts, o | op::start_with(ts, mk<T>(5), mk<T>(6)))
H(start_with_obs, o | op::start_with(src::just(imm, mk<T>(5))))
