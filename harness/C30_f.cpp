#include "C30_tok.hpp"
using namespace h;
H(repeat, o | op::take(2) | op::repeat(2))
H(retry, o | op::retry(1))
H(on_error_resume_next, o | op::on_error_resume_next([](const std::exception_ptr&) { return src::just(imm, mk<T>(1), mk<T>(2)); }))
H(retry_when, o | op::take(2) | op::retry_when([](const std::exception_ptr&) { return src::empty<int>(); }) | op::take(4))
H(subscribe_on, o | op::subscribe_on(ts))
H(observe_on, o | op::observe_on(ts))
H(delay, o | op::delay(std::chrono::seconds{1}, ts))
H(debounce, o | op::debounce(std::chrono::seconds{1}, ts))
H(throttle, o | op::throttle<TS>(std::chrono::seconds{0}))
H(timeout, o | op::timeout(std::chrono::seconds{1}, src::just(imm, mk<T>(9)), ts))
