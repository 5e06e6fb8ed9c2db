#define PART 2
#include "C32.cpp"
E(concat2, (src::concat<M>(src::from_iterable(vec(in), s), src::from_iterable(vec(in), s))))
E(concat_mixed, (src::concat<M>(src::from_iterable(vec(in), s), src::just(s, val_t{7}), src::from_iterable<M>(vec(in), s))))
E(concat_container, ([&] { std::vector<rpp::dynamic_observable<val_t>> c; for (int i = 0; i < in.n; ++i) c.push_back(src::just<M>(s, val_t{in.v[i]}, val_t{i}).as_dynamic()); auto o = src::concat<M>(c); c.clear(); return o; }()))
E(concat_error, ([&] { std::vector<rpp::dynamic_observable<val_t>> c; for (int i = 0; i < in.n; ++i) c.push_back(i == 1 ? src::error<val_t>(mkerr(3)).as_dynamic() : src::just<M>(s, val_t{in.v[i]}, val_t{i}).as_dynamic()); return src::concat<M>(std::move(c)); }()))
E(copies_of_pipeline, (src::from_iterable<M>(vec(in), s) | op::map([k = in.n](int v) { return val_t{v ^ k}; }) | op::scan(val_t{3}, [](int a, int b) { return val_t{a ^ b}; }) | op::take(2)))
