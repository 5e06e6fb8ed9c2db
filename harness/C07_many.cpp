//@ bound: also 255..300 references at once
//@ preempt: 0
//@ maxinstr: 100000000
#include "many.hpp"
#include <rpp/disposables/refcount_disposable.hpp>
using namespace h;
extern "C" void H_refs_many()
{
    const uint64_t live = sym_heap_live();
    {
        const int n = crowd(), back = (int)sym_concrete(sym_u64("backwards", 0, 1)); int up = 0;
        auto d = rpp::disposable_wrapper_impl<rpp::refcount_disposable>::make();
        const auto rc = d.lock();
        rc->add(rpp::make_callback_disposable([&up]() noexcept { ++up; }));
        std::vector<rpp::composite_disposable_wrapper> refs; refs.reserve(n);
        for (int i = 0; i < n; ++i) refs.push_back(rc->add_ref());
        for (int i = 0; i < n; ++i) { sym_check(up == 0 && !rc->is_disposed(), "references are left"); refs[back ? n - 1 - i : i].dispose(); }
        sym_check(up == 1 && rc->is_disposed(), "the last reference releases everything once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
