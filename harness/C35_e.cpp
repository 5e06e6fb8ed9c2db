#include "C35_two.hpp"
using namespace h;
// ref_count shares its source on purpose
#define PIPES_E_INDEPENDENT(X) \
    X(retry, o | op::retry(1)) \
    X(retry_when, o | op::retry_when([](const std::exception_ptr&) { return src::just(rpp::schedulers::immediate{}, val_t{1}); })) \
    X(on_error_resume_next, o | op::on_error_resume_next([](const std::exception_ptr&) { return src::just(rpp::schedulers::immediate{}, val_t{1}, val_t{2}); })) \
    X(repeat, o | op::repeat(2)) \
    X(subscribe_on, o | op::subscribe_on(rpp::schedulers::immediate{})) \
    X(observe_on, o | op::observe_on(rpp::schedulers::immediate{})) \
    X(delay, o | op::delay(rpp::schedulers::duration{0}, rpp::schedulers::immediate{})) \
    X(as_dynamic, o.as_dynamic()) \
    X(concat_src, src::concat(o, o)) \
    X(concat_just, src::concat(src::just(rpp::schedulers::immediate{}, val_t{1}), o, src::just(rpp::schedulers::immediate{}, val_t{2}))) \
    X(merge_self, o | op::skip(1) | op::merge_with(src::just(rpp::schedulers::immediate{}, val_t{1}, val_t{2}))) \
    X(defer, src::defer([o] { return o; }))
PIPES_E_INDEPENDENT(V)
