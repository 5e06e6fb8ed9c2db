//@ bound: blocking subscription to sources with up to 2 values and any termination, produced in place, on a std::thread, on new_thread via subscribe_on/observe_on, or ended by disposal from another thread; every schedule with at most 2 (thorough: 3) preemptions
//@ preempt: 2
//@ preempt_thorough: 3
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static void expect(const Script& s, Exp& e) { for (int i = 0; i < s.legal; ++i) { if (s.kind[i] == NEXT) e.next(s.val[i]); else if (s.kind[i] == ERR) e.error(s.val[i] & 1023); else e.done(); } }
static Script ended(int n) { Script s = Script::wellformed(n); if (s.last_kind() == NEXT) { s.kind[s.n] = DONE; ++s.n; s.legal = s.n; } return s; }
// everything the observer touches dies as soon as subscribe() has returned
static void on_thread(bool spurious)
{
    sym_want("error"); sym_want("done");
    const uint64_t live = sym_heap_live();
    {
        const Script s = ended(THOROUGH ? 2 : 1);
        Exp e; expect(s, e);
        std::thread t;
        {
            auto r = std::make_unique<Rec>();
            auto cb = std::make_unique<int>(0);
            auto src = rpp::source::create<int>([&](auto&& o) { t = std::thread([&s, spurious, o = std::forward<decltype(o)>(o).as_dynamic()] { for (int i = 0; i < s.n; ++i) { if (spurious) sym_spurious(); emit(o, s.kind[i], s.val[i]); } }); });
            (src | op::as_blocking()).subscribe([&](int v) { r->on_next(v); ++*cb; }, [&](const std::exception_ptr& x) { r->on_error(x); ++*cb; }, [&] { r->on_completed(); ++*cb; });
            sym_check(r->term, "a blocking subscription returned before the stream has ended");
            e.check(*r, "a blocking subscription must deliver every event before it returns");
            sym_check(*cb == e.n, "callbacks must have returned");
            sym_cover(r->errored() ? "error" : "done");
        }
        t.join();
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_thread() { on_thread(false); }
// ... also when the condition wait wakes up for no reason
extern "C" void H_thread_spurious() { on_thread(true); }
extern "C" void H_in_place()
{
    const Script s = ended(3);
    Exp e; expect(s, e);
    Rec r;
    auto src = rpp::source::create<int>([&](auto&& o) { for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
    const int form = (int)sym_concrete(sym_u64("form", 0, 2));
    if (form == 0) (src | op::as_blocking()).subscribe(sink(r));
    else if (form == 1) op::as_blocking()(src).subscribe(sink(r));
    else { auto d = rpp::composite_disposable_wrapper::make(); (src | op::take(1) | op::as_blocking()).subscribe(d, sink(r)); sym_check(d.is_disposed(), "disposed at the end"); e = Exp{}; if (s.kind[0] == NEXT) { e.next(s.val[0]); e.done(); } else expect(s, e); }
    e.check(r, "a blocking subscription must deliver every event");
}
// a disposed subscription: nothing is subscribed, nothing blocks
extern "C" void H_disposed_before()
{
    auto d = rpp::composite_disposable_wrapper::make();
    d.dispose();
    int subs = 0;
    (rpp::source::create<int>([&](auto&&) { ++subs; }) | op::as_blocking()).subscribe(d, [](int) {});
    sym_check(subs == 0, "nothing must be subscribed with a disposed subscription");
}
// disposal from another thread ends the wait, even if the source never ends
extern "C" void H_dispose_elsewhere()
{
    const uint64_t live = sym_heap_live();
    {
        const int v = any_int("v");
        auto d = rpp::composite_disposable_wrapper::make();
        std::thread t([&] { d.dispose(); });
        std::optional<rpp::dynamic_observer<int>> keep;
        std::mutex m;
        Rec r;
        (rpp::source::create<int>([&](auto&& o) { o.on_next(v); std::lock_guard l{m}; keep.emplace(std::move(o).as_dynamic()); }) | op::as_blocking()).subscribe(d, sink(r));
        sym_check(d.is_disposed(), "a blocking subscription returned before the stream has ended");
        t.join();
        sym_check(!keep || keep->is_disposed(), "the source must see the disposal");
        sym_check(r.n <= 1 && !r.term, "no terminal event after disposal");
    }
    sym_check(sym_heap_live() == live, "leak");
}
template<class F>
static void scheduler(F&& f, bool shortcut)
{
    sym_preempt(THOROUGH ? 3 : 2);
    const uint64_t live = sym_heap_live();
    {
        const Script s = ended(1);
        Exp e; expect(s, e);
        {
            auto r = std::make_unique<Rec>();
            auto src = rpp::source::create<int>([&s](auto&& o) { for (int i = 0; i < s.n; ++i) emit(o, s.kind[i], s.val[i]); });
            (f(src) | op::as_blocking()).subscribe([&](int v) { r->on_next(v); }, [&](const std::exception_ptr& x) { r->on_error(x); }, [&] { r->on_completed(); });
            sym_check(r->term, "a blocking subscription returned before the stream has ended");
            if (shortcut && s.last_kind() == ERR && r->n == 1) { sym_check(r->errored() && r->val[0] == e.val[e.n - 1], "wrong error"); sym_cover("shortcut"); }   // observe_on lets an error overtake values
            else e.check(*r, "a blocking subscription must deliver every event before it returns");
            sym_join_all();
        }
    }
    sym_check(sym_heap_live() == live, "leak");
}
extern "C" void H_subscribe_on() { scheduler([](auto& s) { return s | op::subscribe_on(rpp::schedulers::new_thread{}); }, false); }
extern "C" void H_observe_on() { scheduler([](auto& s) { return s | op::observe_on(rpp::schedulers::new_thread{}); }, true); }
