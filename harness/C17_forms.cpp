//@ bound: the forms without a combining function (which emit tuples), up to 3 events (thorough: 4) over 2-3 sources whose value types differ, in every order, arbitrary kinds and 32-bit values, disposal at any point
#define H_VALUE V
#include "common.hpp"
using namespace h;
namespace op = rpp::operators;
static const int N = THOROUGH ? 4 : 3;
static int f2(int a, int b) { return (int)((unsigned)a * 3u + (unsigned)b); }
static int f3(int a, int b, int c) { return (int)((unsigned)a * 9u + (unsigned)b * 3u + (unsigned)c); }

template<int NS> struct Latest
{
    bool has[NS]{}; int val[NS]{}; int active = NS;
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (k == DONE) { if (--active == 0) { e.done(); sym_cover("done"); } return; }
        has[s] = true; val[s] = v;
        for (bool x : has) if (!x) return;
        e.next(NS == 2 ? f2(val[0], val[1]) : f3(val[0], val[1], val[NS - 1]));
        sym_cover("value");
    }
};
template<int NS> struct Zip
{
    int q[NS][8]{}, n[NS]{}, used = 0, active = NS;
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (k == DONE) { if (--active == 0) { e.done(); sym_cover("done"); } return; }
        q[s][n[s]++] = v;
        for (int x : n) if (x <= used) return;
        e.next(NS == 2 ? f2(q[0][used], q[1][used]) : f3(q[0][used], q[1][used], q[NS - 1][used]));
        ++used;
        sym_cover(used == 1 ? "one" : "two");
    }
};
template<int NS> struct WithLatest
{
    bool has[NS]{}; int val[NS]{};
    void on(int s, int k, int v, Exp& e)
    {
        if (k == ERR) { e.error(v & 1023); return; }
        if (k == DONE) { if (s == 0) { e.done(); sym_cover("done"); } return; }
        has[s] = true; val[s] = v;
        if (s != 0) return;
        for (bool x : has) if (!x) { sym_cover("dropped"); return; }
        e.next(NS == 2 ? f2(val[0], val[1]) : f3(val[0], val[1], val[NS - 1]));
        sym_cover("value");
    }
};

// the 2nd and 3rd source emit other types than the 1st: every value must land in its own place of the tuple
struct B2 { int v; };
struct B3 { long long v; };
static auto src2(Hot& h) { return h.obs() | op::map([](const V& v) { return B2{(int)v}; }); }
static auto src3(Hot& h) { return h.obs() | op::map([](const V& v) { return B3{(int)v}; }); }
static auto flat2() { return op::map([](const std::tuple<V, B2>& t) { return V(f2((int)std::get<0>(t), std::get<1>(t).v)); }); }
static auto flat3() { return op::map([](const std::tuple<V, B2, B3>& t) { return V(f3((int)std::get<0>(t), std::get<1>(t).v, (int)std::get<2>(t).v)); }); }

extern "C" void H_combine_latest_tuple2()
{
    sym_want("value");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::combine_latest(src2(h[1])) | flat2()); }, Latest<2>{}, "combine_latest without a combining function must emit the tuple of the values", {N});
}
extern "C" void H_combine_latest_tuple3()
{
    sym_want("value");
    multi<3>([](Hot* h, auto go) { go(h[0].obs() | op::combine_latest(src2(h[1]), src3(h[2])) | flat3()); }, Latest<3>{}, "combine_latest without a combining function must emit the tuple of the values", {N});
}

extern "C" void H_zip_tuple2()
{
    sym_want("one");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::zip(src2(h[1])) | flat2()); }, Zip<2>{}, "zip without a combining function must emit the tuple of the values", {N});
}
extern "C" void H_zip_tuple3()
{
    sym_want("one");
    multi<3>([](Hot* h, auto go) { go(h[0].obs() | op::zip(src2(h[1]), src3(h[2])) | flat3()); }, Zip<3>{}, "zip without a combining function must emit the tuple of the values", {N});
}

extern "C" void H_with_latest_from_tuple2()
{
    sym_want("value");
    multi<2>([](Hot* h, auto go) { go(h[0].obs() | op::with_latest_from(src2(h[1])) | flat2()); }, WithLatest<2>{}, "with_latest_from without a combining function must emit the tuple of the values", {N});
}
extern "C" void H_with_latest_from_tuple3()
{
    sym_want("value");
    multi<3>([](Hot* h, auto go) { go(h[0].obs() | op::with_latest_from(src2(h[1]), src3(h[2])) | flat3()); }, WithLatest<3>{}, "with_latest_from without a combining function must emit the tuple of the values", {N});
}
