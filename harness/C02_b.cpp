//@ bound: key comparator, window_toggle closing selector, retry_when and on_error_resume_next selectors throw at a symbolic call; sources whose subscription throws at a symbolic attempt, as inner source of every higher-order operator and as source of retry, retry_when, repeat, start_with; one of several observers of a subject throws
//@ assume: an exception thrown while a source is being subscribed either becomes the on_error of the observer or reaches the caller of subscribe(), never both or neither
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
namespace rs = rpp::source;
struct Bomb
{
    int at, *calls;
    void tick() const { if ((*calls)++ == at) throw Err{7777}; }
};
// drives `script` through pipeline(source, bomb, rec): when the bomb went off the last event is its error
template<class P>
static void boom(P pipeline, int n = 3)
{
    sym_want("thrown"); sym_want("intact");
    const uint64_t live = sym_heap_live();
    {
        Script s = Script::wellformed(n);
        const int at = (int)sym_concrete(sym_u64("at", 0, n));
        int calls = 0, up = 0;
        Bomb b{at, &calls};
        Rec  r;
        auto src = rs::create<int>([&](auto&& o) {
            o.set_upstream(rpp::make_callback_disposable([&up]() noexcept { ++up; }));
            for (int i = 0; i < s.n; ++i) { emit(o, s.kind[i], s.val[i]); if (r.term) { sym_check(up == 1, "upstream not released when a callback threw"); sym_check(o.is_disposed(), "observer still live after a callback threw"); } }
        });
        pipeline(src, b, r);
        r.log();
        if (calls > at) { sym_check(r.errored() && r.val[r.n - 1] == 7777, "an exception of a user callback must reach on_error"); sym_cover("thrown"); }
        else { sym_check(!r.errored() || r.val[r.n - 1] != 7777, "an error nobody raised"); sym_cover("intact"); }
        sym_check(r.count(ERR) <= 1, "at most one error");
    }
    sym_check(sym_heap_live() == live, "leak");
}
struct Less
{
    Bomb b;
    bool operator()(int x, int y) const { b.tick(); return x < y; }
};
extern "C" void H_group_by_comparator() { boom([](const auto& o, Bomb b, Rec& r) { (o | op::group_by([](int v) { return v & 1; }, [](int v) { return v; }, Less{b}) | op::merge()).subscribe(sink(r)); }); }
extern "C" void H_window_toggle_closing() { boom([](const auto& o, Bomb b, Rec& r) { (rs::never<int>() | op::window_toggle(o, [b](int) { b.tick(); return rs::never<int>(); }) | op::merge()).subscribe(sink(r)); }, 2); }
extern "C" void H_resume_selector() { boom([](const auto& o, Bomb b, Rec& r) { (o | op::on_error_resume_next([b](const std::exception_ptr&) { b.tick(); return rs::just(rpp::schedulers::immediate{}, 1); })).subscribe(sink(r)); }, 1); }
extern "C" void H_retry_when_selector() { boom([](const auto& o, Bomb b, Rec& r) { (o | op::retry_when([b](const std::exception_ptr&) { b.tick(); return rs::empty<int>(); })).subscribe(sink(r)); }, 1); }
extern "C" void H_distinct_after_scan() { boom([](const auto& o, Bomb b, Rec& r) { (o | op::scan([b](int x, int y) { b.tick(); return (x ^ y) & 3; }) | op::distinct()).subscribe(sink(r)); }, 2); }
extern "C" void H_reduce_noseed() { boom([](const auto& o, Bomb b, Rec& r) { (o | op::reduce([b](int x, int y) { b.tick(); return x ^ y; })).subscribe(sink(r)); }); }

// ---- sources whose subscription throws
// `bad` emits a value and throws at its at-th subscription; otherwise emits a value and ends
struct Bad
{
    int at, term; int *subs, *up;
    auto obs() const
    {
        return rs::create<int>([*this](auto&& o) {
            o.set_upstream(rpp::make_callback_disposable([u = up]() noexcept { ++*u; }));
            o.on_next(1);
            if ((*subs)++ == at) throw Err{7777};
            if (term == ERR) o.on_error(mkerr(5)); else o.on_completed();
        });
    }
};
template<class P>
static void sub_throws(P pipeline, bool must_error, int ats = 1, int terms = 1)
{
    sym_want("thrown"); sym_want("intact");
    const uint64_t live = sym_heap_live();
    {
        int  subs = 0, up = 0, caught = 0;
        Bad  b{(int)sym_concrete(sym_u64("at", 0, ats)), terms == 1 ? DONE : (int)sym_concrete(sym_u64("term", ERR, DONE)), &subs, &up};
        Rec  r;
        auto d = rpp::composite_disposable_wrapper::make();
        try { pipeline(b, d, r); } catch (const Err& e) { sym_check(e.id == 7777, "a different exception escaped"); ++caught; }
        r.log();
        const bool thrown = subs > b.at;
        if (thrown)
        {
            const bool err = r.errored() && r.val[r.n - 1] == 7777;
            if (must_error) { sym_check(!caught, "an exception thrown while subscribing to an inner source must not escape to the emitter"); sym_check(err, "an exception thrown while subscribing to an inner source must reach on_error"); }
            else sym_check(caught + err == 1, "an exception thrown while subscribing must arrive exactly once");
            if (err) { sym_check(d.is_disposed(), "subscription not disposed after an error"); sym_check(up == subs, "sources not released after an error"); }
            sym_cover("thrown");
        }
        else { sym_check(!caught && (!r.errored() || r.val[r.n - 1] != 7777), "an error nobody raised"); sym_cover("intact"); }
        d.dispose();
        sym_check(up == subs, "sources not released exactly once");
    }
    sym_check(sym_heap_live() == live, "leak");
}
static auto two() { return rs::just(rpp::schedulers::immediate{}, 1, 2); }
#define SUB(name, must, ats, terms, expr) extern "C" void H_sub_##name() { sub_throws([](const Bad& b, auto& d, Rec& r) { (expr).subscribe(d, sink(r)); }, must, ats, terms); }
SUB(merge, true, 2, 1, two() | op::map([b](int) { return b.obs(); }) | op::merge())
SUB(concat, true, 2, 1, two() | op::map([b](int) { return b.obs(); }) | op::concat())
SUB(switch, true, 2, 1, two() | op::map([b](int) { return b.obs(); }) | op::switch_on_next())
SUB(flat_map, true, 2, 1, two() | op::flat_map([b](int) { return b.obs(); }))
SUB(retry, true, 2, 2, b.obs() | op::retry(1))
SUB(retry_when, true, 2, 2, b.obs() | op::retry_when([](const std::exception_ptr&) { return rs::just(rpp::schedulers::immediate{}, 1); }))
SUB(repeat, false, 2, 1, b.obs() | op::repeat(2))
SUB(resume, true, 1, 1, rs::error<int>(mkerr(3)) | op::on_error_resume_next([b](const std::exception_ptr&) { return b.obs(); }))
SUB(start_with, false, 1, 1, two() | op::start_with(b.obs()))
SUB(merge_with, false, 1, 1, two() | op::merge_with(b.obs()))
