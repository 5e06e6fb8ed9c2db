#include "C30_tok.hpp"
using namespace h;
H(multicast_replay, [&] { rpp::subjects::replay_subject<T> s{2}; return o | op::multicast(s) | op::ref_count(); }())
H(multicast_behavior, [&] { rpp::subjects::behavior_subject<T> s{mk<T>(4)}; return o | op::multicast(s) | op::ref_count(); }())
H(as_dynamic, o.as_dynamic())
H(defer, src::defer([o] { return o; }))
H(just, o | op::flat_map([](T v) { T a = v; auto j = src::just(imm, a, std::move(v)); return src::concat(j, j); }))
H(just_shared, o | op::flat_map([](T v) { T a = v; auto j = src::just<rpp::memory_model::use_shared>(imm, a, std::move(v)); return src::concat(j, j); }))
H(just_ts, o | op::flat_map([ts](T v) { auto j = src::just(ts, v, v); return src::concat(j, j); }))
H(from_iterable, o | op::flat_map([](T v) { std::vector<T> c{v, v}; auto j = src::from_iterable(c, imm); for (auto& x : c) sym_check(get(x) == get(v), "the user's container was modified"); return src::concat(j, j); }))
H(from_iterable_shared, o | op::flat_map([](T v) { std::vector<T> c{v, v}; auto j = src::from_iterable<rpp::memory_model::use_shared>(c, imm); for (auto& x : c) sym_check(get(x) == get(v), "the user's container was modified"); return src::concat(j, j); }))
H(from_callable, o | op::flat_map([](T v) { return src::from_callable([v] { return v; }) | op::repeat(2); }))
