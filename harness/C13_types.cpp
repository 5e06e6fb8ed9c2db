//@ bound: also for value types bool, move-only, non-assignable/non-default-constructible: up to 4 values (thorough: 5), counts 0..3, any termination
#include "types.hpp"
using namespace h;
TYPES(window, H_ALL, go(o | op::window(n) | op::map([](const auto& w) { return w | op::map([](const T& v) { return 2 + (int)v; }) | op::start_with(imm, 9); }) | op::merge()))
TYPES(group_by, H_ALL, go(o | op::group_by([](const T& v) { return (int)v; }) | op::map([](const auto& g) { return g | op::map([k = g.get_key()](const T& v) { return 10 * k + (int)v; }); }) | op::merge()))
TYPES(group_by_bool, H_ALL, go(o | op::group_by([](const T& v) { return (int)v == 1; }, [](const T& v) { return (int)v == 0; }) | op::merge()))
TYPES(window_toggle, H_ALL, go(o | op::window_toggle(src::just(imm, 1, 2), [](int) { return src::never<int>(); }) | op::merge()))
// keys which leave something else behind when they are moved away (as a long string does)
extern "C" void H_group_key_moves()
{
    sym_want("reused");
    const uint64_t live = sym_heap_live();
    {
        struct Key
        {
            int k;
            explicit Key(int x) : k{x} {}
            Key(const Key&) = default;
            Key(Key&& o) noexcept : k{o.k} { o.k = -1; }
            Key& operator=(const Key&) = default;
            Key& operator=(Key&& o) noexcept { k = o.k; if (this != &o) o.k = -1; return *this; }
            bool operator<(const Key& o) const { sym_check(k >= 0 && o.k >= 0, "a moved-from key is compared"); return k < o.k; }
        };
        Hot hot; int announced[4]{}, got[4]{}, n_keys = 0, sum[4]{}, want[4]{};
        Rec r;
        const int form = (int)sym_concrete(sym_u64("form", 0, 2));
        auto watch = [&](const auto& g) {
            const int k = g.get_key().k;
            sym_check(k >= 0 && k < 4, "the group was announced with a moved-from key");
            ++n_keys; ++announced[k];
            sym_check(announced[k] == 1, "a key must be announced once");
            g | op::subscribe([&got, &sum, k](int v) { ++got[k]; sum[k] = v; });
        };
        auto d = rpp::composite_disposable_wrapper::make();
        auto key = [](int v) { return Key{v & 3}; };
        if (form == 0) (hot.obs() | op::group_by(key)).subscribe(d, watch);
        else if (form == 1) (hot.obs() | op::group_by(key, [](int v) { return v; }, std::less<Key>{})).subscribe(d, watch);
        else (hot.obs() | op::group_by(key, std::identity{}, [](const Key& a, const Key& b) { return b < a; })).subscribe(d, watch);
        const int n = (int)sym_concrete(sym_u64("n", 1, THOROUGH ? 5 : 4));
        int cnt[4]{};
        for (int i = 0; i < n; ++i)
        {
            const int v = (int)sym_concrete(sym_u64("v", 0, 3));
            if (cnt[v]++) sym_cover("reused");
            want[v] = v;
            hot.ev(NEXT, v);
            for (int k = 0; k < 4; ++k) sym_check(got[k] == cnt[k] && announced[k] == (cnt[k] > 0), "every value goes to the group of its key");
        }
        d.dispose();
        hot.o.reset();
        (void)want; (void)n_keys;
    }
    sym_check(sym_heap_live() == live, "leak");
}
