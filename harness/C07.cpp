//@ bound: sequential: every sequence of up to 5 operations (thorough: 6) over up to 3 references; concurrent: 2 threads releasing/acquiring references, every schedule with at most 2 (thorough: 3) preemptions
//@ preempt: 2
//@ preempt_thorough: 3
#include "common.hpp"
using namespace h;
using RC = rpp::refcount_disposable;
static const int N = THOROUGH ? 6 : 5;

extern "C" void H_model()
{
    sym_want("last"); sym_want("late"); sym_want("dropped");
    const uint64_t live = sym_heap_live();
    {
        int  hits = 0, refhits[3]{};
        auto w  = rpp::disposable_wrapper_impl<RC>::make();
        w.add(rpp::make_callback_disposable([&]() noexcept { ++hits; }));
        rpp::composite_disposable_wrapper r[3]{rpp::composite_disposable_wrapper::empty(), rpp::composite_disposable_wrapper::empty(), rpp::composite_disposable_wrapper::empty()};
        int  n = 0, alive = 0;
        bool live_ref[3]{}, strong[3]{}, gone[3]{}, dead = false, everdead = false;
        const int ops = (int)sym_concrete(sym_u64("n", 0, N));
        for (int s = 0; s < ops; ++s)
        {
            const int o = (int)sym_concrete(sym_u64("op", 0, 5));
            if (o == 0)
            {
                if (n == 3) continue;
                r[n] = w.lock()->add_ref((strong[n] = sym_bool("mode")) ? RC::Mode::StrongRefRefSource : RC::Mode::WeakRefStrongSource);
                sym_check(r[n].is_disposed() == dead, "add_ref() yields a live reference exactly while the source is live");
                if (dead) sym_cover("late");
                else { const int id = n; r[n].add(rpp::make_callback_disposable([&refhits, id]() noexcept { ++refhits[id]; })); live_ref[n] = true; ++alive; }
                ++n;
            }
            else if (o < 4)
            {
                const int i = o - 1;
                if (i >= n || gone[i]) continue;
                r[i].dispose();
                if (live_ref[i]) { live_ref[i] = false; if (--alive == 0) { dead = true; sym_cover("last"); } }
            }
            else if (o == 5)
            {
                // the last handle of the newest reference goes away: a reference nobody else owns is released, one owned by the source stays
                const int i = n - 1;
                if (i < 0) continue;
                r[i] = rpp::composite_disposable_wrapper::empty();
                gone[i] = true;
                if (live_ref[i] && !strong[i]) { live_ref[i] = false; if (--alive == 0) { dead = true; sym_cover("dropped"); } }
            }
            else { w.dispose(); dead = true; for (auto& x : live_ref) x = false; alive = 0; }
            everdead |= dead;
            sym_check(w.is_disposed() == dead, "source is disposed exactly when the last reference or itself is disposed");
            sym_check(hits == (dead ? 1 : 0), "what the source holds is disposed exactly once, with the source");
            if (dead) for (auto& x : live_ref) x = false;
            for (int i = 0; i < n; ++i)
            {
                if (!gone[i]) sym_check(r[i].is_disposed() == !live_ref[i], "reference is_disposed() wrong");
                if (refhits[i] || live_ref[i]) sym_check(refhits[i] == (live_ref[i] ? 0 : 1), "what a reference holds is disposed exactly once, with the reference");
            }
        }
        sym_log(hits); sym_log(n);
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_release_race()
{
    std::atomic<int> hits{0};
    auto w = rpp::disposable_wrapper_impl<RC>::make();
    w.add(rpp::make_callback_disposable([&]() noexcept { ++hits; }));
    auto r1 = w.lock()->add_ref(), r2 = w.lock()->add_ref();
    std::thread t1([&] { r1.dispose(); });
    r2.dispose();
    t1.join();
    sym_check(hits == 1 && w.is_disposed(), "after the last of two concurrently released references the source is disposed exactly once");
}
extern "C" void H_acquire_race()
{
    sym_want("kept"); sym_want("gone");
    std::atomic<int> hits{0};
    auto w = rpp::disposable_wrapper_impl<RC>::make();
    w.add(rpp::make_callback_disposable([&]() noexcept { ++hits; }));
    auto r1 = w.lock()->add_ref();
    std::thread t1([&] { r1.dispose(); });
    auto r2 = w.lock()->add_ref();
    const bool got = !r2.is_disposed();
    t1.join();
    if (got) sym_check(!w.is_disposed() && !r2.is_disposed() && hits == 0, "a live reference that was handed out must keep the source alive until it is released");
    if (!w.is_disposed()) { sym_check(got && hits == 0 && !r2.is_disposed(), "a live source keeps its live reference"); r2.dispose(); sym_cover("kept"); }
    else sym_cover("gone");
    sym_check(hits == 1 && w.is_disposed(), "disposed exactly once in the end");
}
extern "C" void H_dispose_vs_release()
{
    std::atomic<int> hits{0};
    auto w = rpp::disposable_wrapper_impl<RC>::make();
    w.add(rpp::make_callback_disposable([&]() noexcept { ++hits; }));
    auto r1 = w.lock()->add_ref(sym_bool("mode") ? RC::Mode::StrongRefRefSource : RC::Mode::WeakRefStrongSource), r2 = w.lock()->add_ref();
    std::thread t1([&] { r1.dispose(); });
    if (sym_bool("source")) w.dispose(); else r2.dispose();
    t1.join();
    sym_check(hits == 1 && w.is_disposed(), "disposed exactly once");
    sym_check(r1.is_disposed(), "disposed reference stays disposed");
}

// references are handed out and released by one thread while another one releases the first reference
extern "C" void H_acquire_again()
{
    sym_want("kept");
    std::atomic<int> hits{0};
    auto w = rpp::disposable_wrapper_impl<RC>::make();
    w.add(rpp::make_callback_disposable([&]() noexcept { ++hits; }));
    auto r1 = w.lock()->add_ref();
    std::thread t1([&] { r1.dispose(); });
    auto r2 = w.lock()->add_ref();
    const bool got2 = !r2.is_disposed();
    r2.dispose();
    auto r3 = w.lock()->add_ref();
    const bool got3 = !r3.is_disposed();
    t1.join();
    if (got3)
    {
        sym_check(got2, "a source that has died must not hand out live references");
        sym_check(!w.is_disposed() && !r3.is_disposed() && hits == 0, "a live reference that was handed out must keep the source alive until it is released");
        sym_cover("kept");
        r3.dispose();
    }
    sym_check(hits == 1 && w.is_disposed(), "disposed exactly once in the end");
}
