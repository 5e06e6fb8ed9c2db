// Sequential models of the combining operators: which traces can two concurrent sources produce?
#pragma once
#include "common.hpp"
namespace h
{
struct Ev { int kind, val; };
// Every event is atomic, so the observed trace has to be the one of some interleaving of the two scripts.
template<class M, class S>
bool possible(const S& a, const S& b, int i, int j, M m, Exp e, const Rec& r, int limit)
{
    auto same = [&] { if (e.n != r.n) return false; for (int k = 0; k < e.n; ++k) if (e.kind[k] != r.kind[k] || e.val[k] != r.val[k]) return false; return true; };
    if (limit && e.nexts_() >= limit && !e.terminated()) e.done();
    if (e.terminated() || (i == a.n && j == b.n)) return same();
    for (int k = 0; k < e.n; ++k) if (k >= r.n || e.kind[k] != r.kind[k] || e.val[k] != r.val[k]) return false;
    if (i < a.n) { M m2 = m; Exp e2 = e; m2.on(0, a.e[i].kind, a.e[i].val, e2); if (possible(a, b, i + 1, j, m2, e2, r, limit)) return true; }
    if (j < b.n) { M m2 = m; Exp e2 = e; m2.on(1, b.e[j].kind, b.e[j].val, e2); if (possible(a, b, i, j + 1, m2, e2, r, limit)) return true; }
    return false;
}
struct MMerge { int left = 2; void on(int, int k, int v, Exp& e) { if (k == NEXT) e.next(v); else if (k == ERR) e.error(v); else if (!--left) e.done(); } };
struct MLatest
{
    int left = 2, v[2]{}; bool has[2]{};
    void on(int s, int k, int x, Exp& e) { if (k == NEXT) { v[s] = x; has[s] = true; if (has[0] && has[1]) e.next(v[0] * 1000 + v[1]); } else if (k == ERR) e.error(x); else if (!--left) e.done(); }
};
struct MZip
{
    int left = 2, q[2][4]{}, n[2]{}, out = 0;
    void on(int s, int k, int x, Exp& e) { if (k == NEXT) { q[s][n[s]++] = x; if (n[0] > out && n[1] > out) { e.next(q[0][out] * 1000 + q[1][out]); ++out; } } else if (k == ERR) e.error(x); else if (!--left) e.done(); }
};
struct MWith
{
    int v = 0; bool has = false;
    void on(int s, int k, int x, Exp& e) { if (s == 1) { if (k == NEXT) { v = x; has = true; } else if (k == ERR) e.error(x); return; } if (k == NEXT) { if (has) e.next(x * 1000 + v); } else if (k == ERR) e.error(x); else e.done(); }
};
struct MUntil { void on(int s, int k, int x, Exp& e) { if (k == ERR) e.error(x); else if (s == 1 || k == DONE) e.done(); else e.next(x); } };
inline constexpr auto pair_ = [](int x, int y) { return val_t{x * 1000 + y}; };
}
