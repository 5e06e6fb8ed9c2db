// int -> int operator chains used by the properties that must hold for every operator.
#pragma once
#include "common.hpp"
namespace h
{
    namespace op = rpp::operators;
    namespace src = rpp::source;
    inline auto plain(int n = 8) { return src::just(rpp::schedulers::immediate{}, val_t{n}); }
    // X(name, expression over the observable `o`)
#define PIPES_A(X) \
    X(plain, o) \
    X(map, o | op::map([](int v) { return val_t((int)((unsigned)v + 1u)); })) \
    X(filter, o | op::filter([](int v) { return v != 5; })) \
    X(tap, o | op::tap([](int) {}, [](const std::exception_ptr&) {}, [] {})) \
    X(scan, o | op::scan([](int, int b) { return val_t{b}; })) \
    X(scan_seed, o | op::scan(val_t{3}, [](int, int b) { return val_t{b}; })) \
    X(reduce, o | op::reduce(val_t{3}, [](int a, int b) { return val_t{a ^ b}; })) \
    X(distinct, o | op::map([](int v) { return val_t{v & 3}; }) | op::distinct()) \
    X(distinct_until_changed, o | op::distinct_until_changed())
#define PIPES_B(X) \
    X(skip, o | op::skip(1)) \
    X(take, o | op::take(2)) \
    X(take_while, o | op::take_while([](int v) { return v != 7; })) \
    X(take_last, o | op::take_last(1)) \
    X(first, o | op::first()) \
    X(last, o | op::last()) \
    X(element_at, o | op::element_at(1)) \
    X(buffer, o | op::buffer(2) | op::map([](const std::vector<val_t>& v) { return v.empty() ? val_t{0} : v.back(); })) \
    X(finally, o | op::finally([]() noexcept {})) \
    X(throttle, o | op::throttle<rpp::schedulers::immediate>(rpp::schedulers::duration{0}))
#define PIPES_C(X) \
    X(start_with, o | op::start_with(rpp::schedulers::immediate{}, val_t{1})) \
    X(merge_with, o | op::merge_with(src::never<val_t>())) \
    X(merge_with_just, o | op::merge_with(plain())) \
    X(flat_map, o | op::flat_map([](int v) { return src::just(rpp::schedulers::immediate{}, val_t{v}, val_t{v}); })) \
    X(concat, o | op::map([](int v) { return src::just(rpp::schedulers::immediate{}, val_t{v}); }) | op::concat()) \
    X(switch_on_next, o | op::map([](int v) { return src::just(rpp::schedulers::immediate{}, val_t{v}); }) | op::switch_on_next())
#define PIPES_D(X) \
    X(take_until, o | op::take_until(src::never<int>())) \
    X(combine_latest, o | op::combine_latest([](int a, int) { return val_t{a}; }, plain())) \
    X(with_latest_from, o | op::with_latest_from([](int a, int) { return val_t{a}; }, plain())) \
    X(zip, o | op::zip([](int a, int) { return val_t{a}; }, src::just(rpp::schedulers::immediate{}, 1, 2, 3, 4))) \
    X(window, o | op::window(2) | op::merge()) \
    X(window_toggle, o | op::window_toggle(plain(), [](int) { return src::never<int>(); }) | op::merge()) \
    X(group_by, o | op::group_by([](int v) { return v & 1; }) | op::merge())
#define PIPES_E(X) \
    X(retry, o | op::retry(1)) \
    X(retry_when, o | op::retry_when([](const std::exception_ptr&) { return src::never<int>(); })) \
    X(on_error_resume_next, o | op::on_error_resume_next([](const std::exception_ptr&) { return src::just(rpp::schedulers::immediate{}, val_t{1}, val_t{2}); })) \
    X(repeat, o | op::repeat(2)) \
    X(ref_count, o | op::publish() | op::ref_count()) \
    X(subscribe_on, o | op::subscribe_on(rpp::schedulers::immediate{})) \
    X(observe_on, o | op::observe_on(rpp::schedulers::immediate{})) \
    X(delay, o | op::delay(rpp::schedulers::duration{0}, rpp::schedulers::immediate{})) \
    X(debounce, o | op::debounce(rpp::schedulers::duration{0}, rpp::schedulers::immediate{})) \
    X(as_dynamic, o.as_dynamic())
}
