//@ bound: every form of operators::subscribe, used as temporary and as a stored object used twice, with a live, a disposed and an empty handle; sources of up to 2 values with any termination; values arbitrary 32-bit
#define FORMS_ONLY
#include "C33_y.cpp"
FORM(op_n, N1, 0, o | op::subscribe(next))
FORM(op_ne, N1 | E1, 0, o | op::subscribe(next, err))
FORM(op_nc, N1 | C1, 0, o | op::subscribe(next, done))
FORM(op_nec, ALL, 0, auto s = op::subscribe(next, err, done); o | s)
FORM(op_strategy, ALL, 0, auto s = op::subscribe(strat{&c.r}); o | s)
FORM(op_strategy_tmp, ALL, 0, o | op::subscribe(strat{&c.r}))
FORM(op_observer, ALL, 0, (o | op::subscribe(rpp::make_lambda_observer<int>(next, err, done))))
FORM(op_dynamic, ALL, 0, (o | op::subscribe(rpp::make_lambda_observer<int>(next, err, done).as_dynamic())))
FORM(op_d_n, N1, 1, c.ret = o | op::subscribe(c.d, next))
FORM(op_d_nc, N1 | C1, 1, c.ret = o | op::subscribe(c.d, next, done))
FORM(op_d_nec, ALL, 1, auto s = op::subscribe(c.d, next, err, done); c.ret = o | s)
FORM(op_d_nec_tmp, ALL, 1, (c.ret = o | op::subscribe(W{c.d}, next, err, done)))
FORM(op_d_strategy, ALL, 1, c.ret = o | op::subscribe(W{c.d}, strat{&c.r}))
FORM(op_d_strategy_l, ALL, 1, auto s = op::subscribe(W{c.d}, strat{&c.r}); c.ret = o | s)
FORM(op_d_observer, ALL, 1, (c.ret = o | op::subscribe(W{c.d}, rpp::make_lambda_observer<int>(next, err, done))))
