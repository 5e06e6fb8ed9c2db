#include "C30_tok.hpp"
using namespace h;
H(buffer, o | op::buffer(2) | op::flat_map([](std::vector<T> v) { for (auto& x : v) (void)get(x); return src::from_iterable(std::move(v), imm); }))
H(buffer_share, o | op::buffer(2) | op::tap([](std::vector<T> v) { auto w = std::move(v); (void)w; }) | op::flat_map([](const std::vector<T>& v) { return src::from_iterable(v, imm); }))
H(window, o | op::window(2) | op::map([](const auto& w) { return w | op::tap([](T v) { T x = std::move(v); (void)x; }); }) | op::merge())
H(window_two, o | op::window(2) | op::flat_map([](const auto& w) { return w | op::merge_with(w); }))
H(group_by, o | op::group_by([](T v) { T w = std::move(v); return get(w) & 1; }) | op::flat_map([](const auto& g) { return g | op::merge_with(g); }))
H(group_by_val, o | op::group_by([](const T& v) { return get(v) & 1; }, [](T v) { return v; }) | op::merge())
H(merge_self, o | op::merge_with(o, o | op::tap([](T v) { T w = std::move(v); (void)w; })))
H(concat, o | op::map([](T v) { return src::just(imm, v, v); }) | op::concat())
H(flat_map, o | op::flat_map([](T v) { return src::just(imm, v, std::move(v)); }))
H(switch_on_next, o | op::map([](T v) { return src::just(imm, v); }) | op::switch_on_next())
