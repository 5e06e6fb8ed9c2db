#include "C30_tok.hpp"
using namespace h;
H(combine_latest, o | op::combine_latest([](T a, T b) { return mk<T>(get(a) * 3 + get(b)); }, o | op::map([](T v) { return v; })))
H(combine_latest3, o | op::combine_latest([](const T& a, T b, const T& c) { return mk<T>(get(a) * 3 + get(b) + 5 * get(c)); }, src::just(imm, mk<T>(1), mk<T>(2)), o))
H(combine_tuple, o | op::combine_latest(o) | op::map([](const std::tuple<T, T>& t) { return mk<T>(get(std::get<0>(t)) ^ (3 * get(std::get<1>(t)))); }))
H(with_latest_from, o | op::with_latest_from([](T a, T b) { return mk<T>(get(a) * 3 + get(b)); }, src::just(imm, mk<T>(1), mk<T>(2))))
H(with_latest_hot, o | op::with_latest_from([](T a, T b) { return mk<T>(get(a) * 3 + get(b)); }, o))
H(zip, o | op::zip([](T a, T b) { return mk<T>(get(a) * 3 + get(b)); }, src::just(imm, mk<T>(1), mk<T>(2), mk<T>(3))))
H(zip_self, o | op::zip([](T a, T b) { return mk<T>(get(a) * 3 + get(b)); }, o))
H(take_until, o | op::take_until(src::never<T>()))
H(window_toggle, o | op::window_toggle(o, [](T) { return src::never<int>(); }) | op::merge())
H(ref_count, o | op::publish() | op::ref_count())
