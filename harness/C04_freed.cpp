//@ bound: inner and replaced sources which hand over 1..3 disposables each; up to 3 of them end by completion, failure or replacement while the stream goes on
//@ preempt: 0
#include "pipes.hpp"
using namespace h;
// A source which has ended and has dropped its observer is forgotten by the operator: nothing of it is kept until the whole stream ends.
struct Tok
{
    int* n;
    explicit Tok(int* p) : n{p} { ++*n; }
    Tok(const Tok& o) : n{o.n} { ++*n; }
    Tok(Tok&& o) noexcept : n{o.n} { ++*n; }
    ~Tok() { --*n; }
};
struct Src
{
    int alive = 0, disposed = 0, given = 0, subs = 0;
    std::optional<rpp::dynamic_observer<val_t>> o;
    auto obs(int handles)
    {
        return src::create<val_t>([this, handles](auto&& ob) {
            ++subs;
            for (int i = 0; i < handles; ++i)
            {
                ++given;
                ob.set_upstream(rpp::make_callback_disposable(Cb{this, Tok{&alive}}));
            }
            o.emplace(std::move(ob).as_dynamic());
        });
    }
    struct Cb { Src* s; Tok t; void operator()() const noexcept { ++s->disposed; } };
    void end(int kind) { auto c = std::move(*o); o.reset(); emit(c, kind, 1); }
};
struct Pick
{
    Src* s; int* h; int* k;
    auto operator()(int i) const { return s[i].obs(h[i]); }
    auto next() const { return *k < 3 ? (++*k, s[*k - 1].obs(h[*k - 1]).as_dynamic()) : src::never<val_t>().as_dynamic(); }
};
// build(primary, sources, subscribe): the sources end one after the other while the primary source keeps the stream alive
template<class B>
static void freed(B&& build, bool fails = false, bool several = false)
{
    sym_want("freed");
    const uint64_t live = sym_heap_live();
    {
        Hot h; Src s[3]; Rec r; int handles[3];
        for (auto& x : handles) x = (int)sym_concrete(sym_u64("handles", 1, 3));
        int k = 0;
        auto d = rpp::composite_disposable_wrapper::make();
        build(h, Pick{s, handles, &k}, [&](const auto& o) { o.subscribe(d, sink(r)); });
        auto look = [&] {
            for (int i = 0; i < 3; ++i) if (const auto& x = s[i]; x.subs)
            {
                const int now = x.o ? handles[i] : 0;
                if (!x.o || x.subs > 1) sym_cover("freed");
                sym_check(x.given - x.disposed <= now, "a source which has ended must be released");
                if (!several) sym_check(x.alive <= now, "the disposable of a source which has ended is kept although the stream goes on");
            }
        };
        const int n = (int)sym_concrete(sym_u64("n", 1, 4));
        for (int i = 0; i < n && !r.term; ++i)
        {
            const int who = (int)sym_concrete(sym_u64("who", 0, 3));
            if (who == 3) h.ev(NEXT, i);
            else if (s[who].o) { const int k = (int)sym_concrete(sym_u64("k", 0, 1)); if (!k) { auto c = *s[who].o; emit(c, NEXT, i); } else s[who].end(fails ? ERR : DONE); }
            if (!r.term) look();
        }
        d.dispose();
        for (auto& x : s) x.o.reset();
        h.o.reset();
        for (auto& x : s) { sym_check(x.disposed == x.given && x.alive == 0, "a source must be released with the stream"); }
    }
    sym_check(sym_heap_live() == live, "leak");
}
#define F(name, ...) extern "C" void H_freed_##name() { freed([](Hot& h, auto s, auto go) { __VA_ARGS__; }); }
#define FE(name, ...) extern "C" void H_freed_##name() { freed([](Hot& h, auto s, auto go) { __VA_ARGS__; }, true); }
#define FS(name, ...) extern "C" void H_freed_##name() { freed([](Hot& h, auto s, auto go) { __VA_ARGS__; }, false, true); }
static constexpr auto first_ = [](int a, auto&&...) { return val_t{a}; };
F(flat_map, go(h.obs() | op::flat_map([s](int) { return s.next(); })))
F(merge, go(h.obs() | op::map([s](int) { return s.next(); }) | op::merge()))
F(merge_with, go(h.obs() | op::merge_with(s(0), s(1), s(2))))
F(concat, go(h.obs() | op::map([s](int) { return s.next(); }) | op::concat()))
F(switch_on_next, go(h.obs() | op::map([s](int) { return s.next(); }) | op::switch_on_next()))
F(source_concat, go(src::concat(s(0), s(1), s(2), h.obs())))
F(start_with, go(h.obs() | op::start_with(s(0), s(1), s(2))))
FS(combine_latest, go(h.obs() | op::combine_latest(first_, s(0), s(1), s(2))))
FS(zip, go(h.obs() | op::zip(first_, s(0), s(1), s(2))))
FS(with_latest_from, go(h.obs() | op::with_latest_from(first_, s(0), s(1), s(2))))
FE(resume, go(s(0) | op::on_error_resume_next([s](const std::exception_ptr&) { return s(1); }) | op::on_error_resume_next([s](const std::exception_ptr&) { return s(2); }) | op::merge_with(h.obs())))
F(window_toggle, go(src::never<val_t>() | op::window_toggle(h.obs(), [s](int) { return s.next(); }) | op::merge()))
F(repeat, go(s(0) | op::repeat(2) | op::merge_with(s(1) | op::repeat(2), h.obs())))
FE(retry, go(s(0) | op::retry(2) | op::merge_with(s(1) | op::retry(1), h.obs())))
F(sharing, go(h.obs() | op::merge_with(s(0) | op::publish() | op::ref_count(), s(1) | op::observe_on(rpp::schedulers::immediate{}), s(2) | op::delay(rpp::schedulers::duration{0}, rpp::schedulers::immediate{}))))
F(finished_by_operator, go(h.obs() | op::merge_with(s(0) | op::take(1), s(1) | op::first(), s(2) | op::take_while([](int v) { return v > 1; }))))
