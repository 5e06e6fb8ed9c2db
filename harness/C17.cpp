//@ bound: up to 4 events (thorough: 5) over 2-3 sources in every order, arbitrary kinds (also after terminal events) and 32-bit values, disposal at any point, also with one event of any source while one is being subscribed; a non-commutative combining function
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 5 : 4;
static int f2(int a, int b) { return (int)((unsigned)a * 3u + (unsigned)b); }
static int f3(int a, int b, int c) { return (int)((unsigned)a * 9u + (unsigned)b * 3u + (unsigned)c); }

template<int NS> struct Latest
{
    bool has[NS]{}; int val[NS]{}; int active = NS;
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (k == DONE) { if (--active == 0) { e.done(); sym_cover("done"); } return; }
        has[s] = true; val[s] = v;
        for (bool x : has) if (!x) return;
        e.next(NS == 2 ? f2(val[0], val[1]) : f3(val[0], val[1], val[NS - 1]));
        sym_cover("value");
    }
};
extern "C" void H_combine_latest2()
{
    sym_want("value"); sym_want("done");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::combine_latest([](int a, int b) { return f2(a, b); }, h[1].obs())); }, Latest<2>{}, "combine_latest must combine the latest value of every source", {N});
}
extern "C" void H_combine_latest2_nested()
{
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::combine_latest([](int a, int b) { return f2(a, b); }, h[1].obs())); }, Latest<2>{}, "combine_latest must combine the latest value of every source", {N - 1, true, false, true});
}
extern "C" void H_combine_latest3()
{
    sym_want("value");
    multi<3>([](Hot* h, auto go) { go(h[0].obs() | op::combine_latest([](int a, int b, int c) { return f3(a, b, c); }, h[1].obs(), h[2].obs())); }, Latest<3>{}, "combine_latest must combine the latest value of every source", {N});
}
template<int NS> struct Zip
{
    int q[NS][8]{}, n[NS]{}, used = 0, active = NS;
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (k == DONE) { if (--active == 0) { e.done(); sym_cover("done"); } return; }
        q[s][n[s]++] = v;
        for (int x : n) if (x <= used) return;
        e.next(NS == 2 ? f2(q[0][used], q[1][used]) : f3(q[0][used], q[1][used], q[NS - 1][used]));
        ++used;
        sym_cover(used == 1 ? "one" : "two");
    }
};
extern "C" void H_zip2()
{
    sym_want("two"); sym_want("done");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::zip([](int a, int b) { return f2(a, b); }, h[1].obs())); }, Zip<2>{}, "zip must pair the i-th values", {N});
}
extern "C" void H_zip2_nested()
{
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::zip([](int a, int b) { return f2(a, b); }, h[1].obs())); }, Zip<2>{}, "zip must pair the i-th values", {N - 1, true, false, true});
}
extern "C" void H_zip3()
{
    sym_want("one");
    multi<3>([](Hot* h, auto go) { go(h[0].obs() | op::zip([](int a, int b, int c) { return f3(a, b, c); }, h[1].obs(), h[2].obs())); }, Zip<3>{}, "zip must pair the i-th values", {N});
}
template<int NS> struct WithLatest
{
    bool has[NS]{}; int val[NS]{};
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (k == DONE) { if (s == 0) { e.done(); sym_cover("done"); } return; }
        has[s] = true; val[s] = v;
        if (s != 0) return;
        for (bool x : has) if (!x) { sym_cover("dropped"); return; }
        e.next(NS == 2 ? f2(val[0], val[1]) : f3(val[0], val[1], val[NS - 1]));
        sym_cover("value");
    }
};
extern "C" void H_with_latest_from2()
{
    sym_want("value"); sym_want("done"); sym_want("dropped");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::with_latest_from([](int a, int b) { return f2(a, b); }, h[1].obs())); }, WithLatest<2>{}, "with_latest_from must sample the other sources at every primary value", {N});
}
extern "C" void H_with_latest_from2_nested()
{
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::with_latest_from([](int a, int b) { return f2(a, b); }, h[1].obs())); }, WithLatest<2>{}, "with_latest_from must sample the other sources at every primary value", {N - 1, true, false, true});
}
extern "C" void H_with_latest_from3()
{
    sym_want("value");
    multi<3>([](Hot* h, auto go) { go(h[0].obs() | op::with_latest_from([](int a, int b, int c) { return f3(a, b, c); }, h[1].obs(), h[2].obs())); }, WithLatest<3>{}, "with_latest_from must sample the other sources at every primary value", {N});
}
