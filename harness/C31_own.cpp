//@ preempt: 0
#include "C31_life.hpp"
using namespace h;
// Ownership cycles through the user's own callbacks: a child of a composite owns the composite.  Disposing and clearing break
// them: a composite forgets the children it has disposed.
template<class W> static void owns_itself(W make)
{
    sym_preempt(0);
    const uint64_t live = sym_heap_live();
    {
        std::atomic<int> alive{0}; int called = 0;
        const int n = (int)sym_concrete(sym_u64("n", 1, 2)), how = (int)sym_concrete(sym_u64("how", 0, 2));
        const bool keep = sym_bool("keep");
        rpp::composite_disposable_wrapper d = make();
        for (int i = 0; i < n; ++i) d.add(rpp::make_callback_disposable([&called, d, c = Cap{&alive}]() noexcept { ++called; }));
        sym_check(alive == n, "children");
        if (how == 0) d.dispose();
        else if (how == 1) { d.clear(); sym_check(!d.is_disposed(), "clear() does not dispose"); }
        else { d.clear(); d.add(rpp::make_callback_disposable([&called, d, c = Cap{&alive}]() noexcept { ++called; })); d.dispose(); }
        sym_check(called == n + (how == 2), "every child is disposed once");
        if (!keep) d = rpp::composite_disposable_wrapper::empty();
        sym_check(alive == 0, "a disposed child is kept by the composite");
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_own_composite() { owns_itself([] { return rpp::composite_disposable_wrapper::make(); }); }
extern "C" void H_own_static() { owns_itself([] { return rpp::composite_disposable_wrapper::make<rpp::composite_disposable_impl<rpp::details::disposables::static_disposables_container<2>>>(); }); }
extern "C" void H_own_vector() { owns_itself([] { return rpp::composite_disposable_wrapper::make<rpp::composite_disposable_impl<rpp::details::disposables::dynamic_disposables_container<2>>>(); }); }
extern "C" void H_own_refcount() { owns_itself([] { return rpp::composite_disposable_wrapper::make<rpp::refcount_disposable>(); }); }
