#include "C33_forms.hpp"
using namespace h;
VA(plain, o)
VA(map_take, o | op::map([](int v) { return v ^ 1; }) | op::take(1))
VA(pipe, o.pipe(op::map([](int v) { return v ^ 1; })).pipe(op::skip(1)))
VA(ref_count, o | op::publish() | op::ref_count())
