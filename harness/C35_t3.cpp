//@ preempt: 1
//@ preempt_thorough: 2
#include "C35_threads.hpp"
using namespace h;
VT(retry, o | op::retry(1))
VT(retry_when, o | op::retry_when([](const std::exception_ptr&) { return src::never<int>(); }))
VT(on_error_resume_next, o | op::on_error_resume_next([](const std::exception_ptr&) { return src::just(rpp::schedulers::immediate{}, val_t{1}, val_t{2}); }))
VT(repeat, o | op::repeat(2))
VT(subscribe_on, o | op::subscribe_on(rpp::schedulers::immediate{}))
VT(observe_on, o | op::observe_on(rpp::schedulers::immediate{}))
VT(delay, o | op::delay(rpp::schedulers::duration{0}, rpp::schedulers::immediate{}))
VT(debounce, o | op::debounce(rpp::schedulers::duration{0}, rpp::schedulers::immediate{}))
VT(as_dynamic, o.as_dynamic())
VT(current_thread, o | op::observe_on(rpp::schedulers::current_thread{}) | op::merge_with(src::just(rpp::schedulers::current_thread{}, val_t{7}, val_t{8})))
VT(from, src::from_iterable(std::vector<val_t>{val_t{1}, val_t{2}}, rpp::schedulers::current_thread{}) | op::merge_with(o))
VT(from_shared, src::from_iterable<rpp::memory_model::use_shared>(std::vector<val_t>{val_t{1}, val_t{2}}, rpp::schedulers::immediate{}) | op::merge_with(o))
VT(just_shared, src::just<rpp::memory_model::use_shared>(rpp::schedulers::immediate{}, val_t{1}, val_t{2}) | op::merge_with(o))
VT(concat_source, src::concat(o, o))
VT(concat_shared, src::concat<rpp::memory_model::use_shared>(o, o))
VT(defer, src::defer([o] { return o; }))
