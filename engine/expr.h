// Symbolic bit-vector expressions (hash-consed, per worker) and the Z3 back end.
#pragma once
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sx {
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_UMULO, O_SMULO
};

static const int VW = 4;  // var-set words: at most 256 data variables per path
struct Expr {
  u8 op, w;
  u32 id;
  u64 k;  // constant value / variable index / extract low bit
  Expr *a, *b, *c;
  u64 hash;
  Z3_ast bv, bo;
  i64 lo, hi;  // bounds of the value read as a signed number
  u64 vs[VW];
};

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

u64 inline evalop(u8 op, unsigned w, unsigned wa, u64 a, u64 b, u64 c, u64 k) {
  u64 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: {
      i64 x = sext(a, w), y = sext(b, w);
      if (!y) return (x < 0 ? 1 : m) & m;
      if (y == -1) return (0 - (u64)x) & m;
      return (u64)(x / y) & m;
    }
    case O_SREM: {
      i64 x = sext(a, w), y = sext(b, w);
      if (!y) return a;
      if (y == -1) return 0;
      return (u64)(x % y) & m;
    }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : (a >> b);
    case O_ASHR: {
      i64 x = sext(a, w);
      if (b >= w) return (x < 0 ? m : 0);
      return (u64)(x >> b) & m;
    }
    case O_ZEXT: return a;
    case O_SEXT: return (u64)sext(a, wa) & m;
    case O_EXTRACT: return (a >> k) & m;
    case O_CONCAT: return 0;  // handled by caller (needs width of b)
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sext(a, wa) < sext(b, wa);
    case O_SLE: return sext(a, wa) <= sext(b, wa);
    case O_ITE: return a ? b : c;
    case O_UMULO: {
      unsigned __int128 p = (unsigned __int128)a * b;
      return wa >= 64 ? (u64)(p >> 64) != 0 : (p >> wa) != 0;
    }
    case O_SMULO: {
      __int128 p = (__int128)sext(a, wa) * sext(b, wa);
      i64 t = sext((u64)p, wa);
      return (__int128)t != p;
    }
  }
  abort();
}

struct Pool {
  std::deque<Expr> arena;
  struct H { size_t operator()(const Expr* e) const { return e->hash; } };
  struct E {
    bool operator()(const Expr* x, const Expr* y) const {
      return x->op == y->op && x->w == y->w && x->k == y->k && x->a == y->a && x->b == y->b && x->c == y->c;
    }
  };
  std::unordered_set<Expr*, H, E> tab;

  Expr* mk(u8 op, unsigned w, Expr* a, Expr* b, Expr* c, u64 k) {
    Expr t;
    t.op = op; t.w = (u8)w; t.k = k; t.a = a; t.b = b; t.c = c; t.bv = t.bo = nullptr;
    u64 h = op * 1000003ull + w * 97 + k * 0x9E3779B97F4A7C15ull;
    auto mix = [&](Expr* e) { h ^= (e ? (u64)e->id + 1 : 0) + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(a); mix(b); mix(c);
    t.hash = h ^ (h >> 29);
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    t.id = (u32)arena.size();
    for (int i = 0; i < VW; i++) t.vs[i] = (a ? a->vs[i] : 0) | (b ? b->vs[i] : 0) | (c ? c->vs[i] : 0);
    if (op == O_VAR) t.vs[k / 64] |= 1ull << (k % 64);
    range(t);
    arena.push_back(t);
    Expr* r = &arena.back();
    tab.insert(r);
    return r;
  }
  Expr* cst(u64 v, unsigned w) { return mk(O_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  Expr* var(unsigned idx, unsigned w) { return mk(O_VAR, w, nullptr, nullptr, nullptr, idx); }
  static bool isc(Expr* e) { return e->op == O_CONST; }

  // an upper bound of the unsigned value
  static u64 umax(Expr* e, int depth = 6) {
    u64 m = maskw(e->w);
    if (!depth) return m;
    switch (e->op) {
      case O_CONST: return e->k;
      case O_ZEXT: return umax(e->a, depth - 1);
      case O_AND: return std::min(umax(e->a, depth - 1), umax(e->b, depth - 1));
      case O_LSHR: return isc(e->b) && e->b->k < e->w ? umax(e->a, depth - 1) >> e->b->k : m;
      case O_UREM: return isc(e->b) && e->b->k ? std::min(umax(e->a, depth - 1), e->b->k - 1) : m;
      case O_ITE: return std::max(umax(e->b, depth - 1), umax(e->c, depth - 1));
      case O_ADD: {
        u64 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1);
        return x <= m - y ? x + y : m;
      }
      case O_SHL: {
        if (!isc(e->b) || e->b->k >= e->w) return m;
        u64 x = umax(e->a, depth - 1);
        return x <= (m >> e->b->k) ? x << e->b->k : m;
      }
    }
    return m;
  }

  typedef __int128 i128;
  static bool fits(i128 lo, i128 hi, unsigned w) { i128 m = (i128)1 << (w - 1); return lo >= -m && hi < m; }
  static void range(Expr& e) {
    i128 m = (i128)1 << (e.w - 1);
    e.lo = (i64)-m; e.hi = (i64)(m - 1);
    auto set = [&](i128 lo, i128 hi) { if (fits(lo, hi, e.w)) { e.lo = (i64)lo; e.hi = (i64)hi; } };
    Expr *a = e.a, *b = e.b;
    switch (e.op) {
      case O_CONST: e.lo = e.hi = sext(e.k, e.w); break;
      case O_ZEXT: if (a->lo >= 0) set(a->lo, a->hi); else set(0, ((i128)1 << a->w) - 1); break;
      case O_SEXT: set(a->lo, a->hi); break;
      case O_ADD: set((i128)a->lo + b->lo, (i128)a->hi + b->hi); break;
      case O_SUB: set((i128)a->lo - b->hi, (i128)a->hi - b->lo); break;
      case O_MUL:
        if (isc(b)) { i128 x = (i128)a->lo * b->lo, y = (i128)a->hi * b->lo; set(std::min(x, y), std::max(x, y)); }
        break;
      case O_ITE: set(std::min(b->lo, e.c->lo), std::max(b->hi, e.c->hi)); break;
      case O_AND:
        if (a->lo >= 0 && b->lo >= 0) set(0, std::min(a->hi, b->hi));
        else if (a->lo >= 0) set(0, a->hi);
        else if (b->lo >= 0) set(0, b->hi);
        break;
      case O_UREM: if (isc(b) && b->lo > 0) set(0, a->lo >= 0 ? std::min<i128>(a->hi, b->lo - 1) : b->lo - 1); break;
      case O_UDIV: if (isc(b) && b->lo > 0 && a->lo >= 0) set(a->lo / b->lo, a->hi / b->lo); break;
      case O_SDIV: if (isc(b) && b->lo > 0) set(a->lo / b->lo, a->hi / b->lo); break;
      case O_SREM: if (isc(b) && b->lo > 0) set(a->lo >= 0 ? 0 : -(i128)(b->lo - 1), a->hi <= 0 ? 0 : (i128)(b->lo - 1)); break;
      case O_LSHR: if (isc(b) && a->lo >= 0 && b->k < e.w) set(a->lo >> b->k, a->hi >> b->k); break;
      case O_ASHR: if (isc(b) && b->k < e.w) set(a->lo >> b->k, a->hi >> b->k); break;
      case O_SHL: if (isc(b) && b->k < 62 && b->k < e.w) set((i128)a->lo * ((i128)1 << b->k), (i128)a->hi * ((i128)1 << b->k)); break;
    }
  }
  // linear normal form: sum of coefficient * term + constant
  struct Lin {
    int n = 0;
    Expr* t[10];
    i64 c[10];
    u64 k = 0;
    bool ok = true;
    void add(Expr* e, i64 f) {
      if (!ok || !f) return;
      if (isc(e)) { k += (u64)f * (u64)sext(e->k, e->w); return; }
      if (e->op == O_ADD) { add(e->a, f); add(e->b, f); return; }
      if (e->op == O_SUB) { add(e->a, f); add(e->b, -f); return; }
      if (e->op == O_MUL && isc(e->b) && e->b->lo > -4096 && e->b->lo < 4096) { add(e->a, f * e->b->lo); return; }
      if (f > (1 << 24) || f < -(1 << 24)) { ok = false; return; }
      for (int i = 0; i < n; i++) if (t[i] == e) { c[i] += f; if (!c[i]) { n--; t[i] = t[n]; c[i] = c[n]; } return; }
      if (n == 10) { ok = false; return; }
      t[n] = e; c[n++] = f;
    }
    // exact bounds of the sum of the terms, each read as a signed number, plus the constant read as a signed number
    void bounds(unsigned w, i128& lo, i128& hi) const {
      lo = hi = sext(k, w);
      for (int i = 0; i < n; i++) {
        i128 x = (i128)t[i]->lo * c[i], y = (i128)t[i]->hi * c[i];
        lo += std::min(x, y); hi += std::max(x, y);
      }
    }
    void sort() { for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (t[j]->id < t[i]->id) { std::swap(t[i], t[j]); std::swap(c[i], c[j]); } }
  };
  Expr* build(Lin& l, unsigned w, unsigned from) {
    l.sort();
    Expr* r = nullptr;
    auto term = [&](int i) {
      Expr* x = w == from ? l.t[i] : extract(l.t[i], 0, w);
      i64 f = l.c[i] < 0 ? -l.c[i] : l.c[i];
      return f == 1 ? x : mk(O_MUL, w, x, cst((u64)f, w), nullptr, 0);
    };
    for (int i = 0; i < l.n; i++) if (l.c[i] > 0) { Expr* x = term(i); r = r ? mk(O_ADD, w, r, x, nullptr, 0) : x; }
    u64 k = l.k & maskw(w);
    if (!r) { r = cst(k, w); k = 0; }
    for (int i = 0; i < l.n; i++) if (l.c[i] < 0) r = mk(O_SUB, w, r, term(i), nullptr, 0);
    if (isc(r)) return cst(r->k + k, w);
    return k ? mk(O_ADD, w, r, cst(k, w), nullptr, 0) : r;
  }
  static bool sumlike(Expr* e) { return e->op == O_ADD || e->op == O_SUB; }
  // a < b, a <= b, a == b of 64 bit sums that cannot overflow: decided or narrowed through the difference
  int split = 0;
  Expr* cmplin(u8 op, Expr* a, Expr* b) {
    unsigned w = a->w;
    bool un = op == O_ULT || op == O_ULE;
    if (un && (a->lo < 0 || b->lo < 0)) return nullptr;
    Lin A, B, D;
    A.add(a, 1); B.add(b, 1);
    if (!A.ok || !B.ok) return nullptr;
    i128 lo, hi;
    A.bounds(w, lo, hi); if (!fits(lo, hi, w)) return nullptr;
    B.bounds(w, lo, hi); if (!fits(lo, hi, w)) return nullptr;
    // a term chosen by a condition (max, min): compare either choice
    if (split < 4)
      for (int side = 0; side < 2; side++) {
        Lin& l = side ? B : A;
        for (int i = 0; i < l.n; i++)
          if (l.t[i]->op == O_ITE) {
            Expr* x = l.t[i];
            Expr* v[2];
            bool good = true;
            for (int arm = 0; arm < 2; arm++) {
              Lin n;
              for (int j = 0; j < l.n; j++) n.add(j == i ? (arm ? x->c : x->b) : l.t[j], l.c[j]);
              n.k += l.k;
              if (n.ok) v[arm] = build(n, w, w); else good = false;
            }
            if (!good) break;
            split++;
            Expr* p = side ? bin(op, a, v[0]) : bin(op, v[0], b);
            Expr* q = side ? bin(op, a, v[1]) : bin(op, v[1], b);
            split--;
            return ite(x->a, p, q);
          }
      }
    D.add(a, 1); D.add(b, -1);
    if (!D.ok) return nullptr;
    D.bounds(w, lo, hi);
    // the constants of a and b may differ by more than fits; be exact
    i128 ka = sext(A.k & maskw(w), w), kb = sext(B.k & maskw(w), w);
    lo += (ka - kb) - (i128)sext(D.k & maskw(w), w);
    hi += (ka - kb) - (i128)sext(D.k & maskw(w), w);
    if (op == O_EQ) { if (lo > 0 || hi < 0) return cst(0, 1); if (!D.n) return cst(lo == 0, 1); }
    else if (op == O_SLT || op == O_ULT) { if (hi < 0) return cst(1, 1); if (lo >= 0) return cst(0, 1); }
    else { if (hi <= 0) return cst(1, 1); if (lo > 0) return cst(0, 1); }
    if (!fits(lo, hi, w)) return nullptr;
    // narrowest width in which no partial sum overflows
    i128 tot = (i128)sext(D.k & maskw(w), w);
    if (tot < 0) tot = -tot;
    for (int i = 0; i < D.n; i++) { i128 x = std::max<i128>(D.t[i]->hi, -(i128)D.t[i]->lo), f = D.c[i] < 0 ? -D.c[i] : D.c[i]; tot += x * f; }
    unsigned W = 2;
    while (W < w && ((i128)1 << (W - 1)) <= tot) W++;
    if (W >= w) return nullptr;
    // only terms that can be cut down cheaply
    for (int i = 0; i < D.n; i++) if (D.t[i]->op != O_ZEXT && D.t[i]->op != O_SEXT) W = w;
    if (W >= w && op == O_EQ) return nullptr;
    if (W >= w) { if (!sumlike(a) && !sumlike(b)) return nullptr; W = w; }
    // move negative terms to the other side
    Lin P, N;
    for (int i = 0; i < D.n; i++) { if (D.c[i] > 0) { P.t[P.n] = D.t[i]; P.c[P.n++] = D.c[i]; } else { N.t[N.n] = D.t[i]; N.c[N.n++] = -D.c[i]; } }
    i64 k = sext(D.k & maskw(w), w);
    if (k >= 0) P.k = (u64)k; else N.k = (u64)-k;
    if (W == w) { i128 l2, h2; P.bounds(w, l2, h2); if (!fits(l2, h2, w)) return nullptr; N.bounds(w, l2, h2); if (!fits(l2, h2, w)) return nullptr; }
    Expr *x = build(P, W, w), *y = build(N, W, w);
    if (x == a && y == b) return nullptr;
    u8 o = op == O_EQ ? O_EQ : (op == O_SLT || op == O_ULT) ? O_SLT : O_SLE;
    if (isc(x) && isc(y)) return cst(evalop(o, 1, W, x->k, y->k, 0, 0), 1);
    if (x == y) return cst(o != O_SLT, 1);
    if (o == O_EQ && isc(x)) std::swap(x, y);
    return mk(o, 1, x, y, nullptr, 0);
  }
  Expr* bin(u8 op, Expr* a, Expr* b) {
    if (a->w >= 16 && !(isc(a) && isc(b))) {
      if ((op == O_ADD || op == O_SUB) && (sumlike(a) || sumlike(b) || a == b)) {
        Lin l;
        l.add(a, 1); l.add(b, op == O_ADD ? 1 : -1);
        if (l.ok) return build(l, a->w, a->w);
      }
      if (op == O_SLT || op == O_SLE || op == O_EQ || op == O_ULT || op == O_ULE)
        if (Expr* r = cmplin(op, a, b)) return r;
      if (isc(b) && b->lo > 0) {
        if ((op == O_SDIV || (op == O_UDIV && a->lo >= 0)) && a->lo / b->lo == a->hi / b->lo) return cst((u64)(a->lo / b->lo), a->w);
        if ((op == O_SREM || (op == O_UREM && a->lo >= 0)) && a->lo / b->lo == a->hi / b->lo) return bin(O_SUB, a, cst((u64)(a->lo / b->lo * b->lo), a->w));
      }
    }
    return bin0(op, a, b);
  }
  Expr* lnot(Expr* e) { return bin(O_XOR, e, cst(maskw(e->w), e->w)); }

  Expr* bin0(u8 op, Expr* a, Expr* b) {
    unsigned wa = a->w;
    bool cmp = (op >= O_EQ && op <= O_SLE) || op == O_UMULO || op == O_SMULO;
    unsigned w = cmp ? 1 : wa;
    if (isc(a) && isc(b)) return cst(evalop(op, w, wa, a->k, b->k, 0, 0), w);
    u64 m = maskw(wa);
    // canonicalise constants to the right
    if (isc(a) && (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)) std::swap(a, b);
    if (isc(b)) {
      u64 k = b->k;
      switch (op) {
        case O_SUB: if (k == 0) return a; return bin(O_ADD, a, cst(0 - k, wa));
        case O_ADD:
          if (k == 0) return a;
          if (a->op == O_ADD && isc(a->b)) return bin(O_ADD, a->a, cst(a->b->k + k, wa));
          break;
        case O_MUL: if (k == 1) return a; if (k == 0) return b; break;
        case O_AND: if (k == 0) return b; if (k == m) return a; break;
        case O_OR: if (k == 0) return a; if (k == m) return b; break;
        case O_XOR:
          if (k == 0) return a;
          if (a->op == O_XOR && isc(a->b)) return bin(O_XOR, a->a, cst(a->b->k ^ k, wa));
          break;
        case O_SHL: case O_LSHR: case O_ASHR: if (k == 0) return a; break;
        case O_UDIV: case O_SDIV: if (k == 1) return a; if (op == O_UDIV && umax(a) < k) return cst(0, wa); break;
        case O_UREM: if (umax(a) < k) return a; if (k && !(k & (k - 1))) return bin(O_AND, a, cst(k - 1, wa)); break;
        case O_ULE: if (umax(a) <= k) return cst(1, 1); break;
        case O_EQ:
          if (wa == 1) return k ? a : lnot(a);
          if (k > umax(a)) return cst(0, 1);
          if (a->op == O_ZEXT) {
            if (k > maskw(a->a->w)) return cst(0, 1);
            return bin(O_EQ, a->a, cst(k, a->a->w));
          }
          if (a->op == O_ADD && isc(a->b)) return bin(O_EQ, a->a, cst(k - a->b->k, wa));
          if (a->op == O_ITE && isc(a->b) && isc(a->c)) {
            bool t = a->b->k == k, f = a->c->k == k;
            if (t && f) return cst(1, 1);
            if (t) return a->a;
            if (f) return lnot(a->a);
            return cst(0, 1);
          }
          break;
        case O_ULT: if (k == 0) return cst(0, 1);
          if (umax(a) < k) return cst(1, 1);
          if (a->op == O_ZEXT && k <= maskw(a->a->w)) return bin(O_ULT, a->a, cst(k, a->a->w));
          break;
      }
    }
    if (isc(a)) {
      if (op == O_ULT && a->k >= umax(b)) return cst(0, 1);
      if (op == O_ULE && (a->k == 0)) return cst(1, 1);
      if (op == O_ULE && a->k > umax(b)) return cst(0, 1);
    }
    if (a == b) switch (op) {
        case O_SUB: case O_XOR: return cst(0, wa);
        case O_AND: case O_OR: return a;
        case O_EQ: case O_ULE: case O_SLE: return cst(1, 1);
        case O_ULT: case O_SLT: return cst(0, 1);
      }
    if (op == O_OR)  // the two halves of one value
      for (int side = 0; side < 2; side++) {
        Expr *h = side ? b : a, *l = side ? a : b;
        if (h->op != O_AND || !isc(h->b)) continue;
        if (l->op == O_ZEXT && l->a->op == O_EXTRACT && l->a->k == 0 && l->a->a == h->a && h->b->k == (m & ~maskw(l->a->w))) return h->a;
        if (l->op == O_AND && isc(l->b) && l->a == h->a && (h->b->k | l->b->k) == m) return h->a;
      }
    return mk(op, w, a, b, nullptr, 0);
  }
  Expr* ext(u8 op, Expr* a, unsigned w) {  // ZEXT / SEXT
    if (a->w == w) return a;
    if (isc(a)) return cst(evalop(op, w, a->w, a->k, 0, 0, 0), w);
    if (op == O_ZEXT && a->op == O_ZEXT) return ext(O_ZEXT, a->a, w);
    return mk(op, w, a, nullptr, nullptr, 0);
  }
  Expr* extract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && a->w == w) return a;
    if (isc(a)) return cst(a->k >> lo, w);
    if (a->op == O_EXTRACT) return extract(a->a, (unsigned)a->k + lo, w);
    if (a->op == O_ZEXT || a->op == O_SEXT) {
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (a->op == O_ZEXT && lo >= a->a->w) return cst(0, w);
      if (a->op == O_ZEXT && lo == 0) return ext(O_ZEXT, a->a, w);
    }
    if (a->op == O_CONCAT) {
      if (lo + w <= a->b->w) return extract(a->b, lo, w);
      if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
    }
    return mk(O_EXTRACT, w, a, nullptr, nullptr, lo);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isc(hi) && isc(lo)) return cst((hi->k << lo->w) | lo->k, w);
    if (isc(hi) && hi->k == 0) return ext(O_ZEXT, lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w)
      return extract(hi->a, (unsigned)lo->k, w);
    return mk(O_CONCAT, w, hi, lo, nullptr, 0);
  }
  Expr* ite(Expr* c, Expr* t, Expr* f) {
    if (isc(c)) return c->k ? t : f;
    if (t == f) return t;
    if (t->w == 1 && isc(t) && isc(f)) return t->k ? c : lnot(c);
    return mk(O_ITE, t->w, c, t, f, 0);
  }
  u64 eval(Expr* e, const std::vector<u64>& m, std::unordered_map<Expr*, u64>& memo) {
    if (e->op == O_CONST) return e->k;
    if (e->op == O_VAR) return e->k < m.size() ? m[e->k] & maskw(e->w) : 0;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u64 a = e->a ? eval(e->a, m, memo) : 0, b = e->b ? eval(e->b, m, memo) : 0, c = e->c ? eval(e->c, m, memo) : 0;
    u64 r = e->op == O_CONCAT ? ((a << e->b->w) | b) : evalop(e->op, e->w, e->a->w, a, b, c, e->k);
    memo[e] = r;
    return r;
  }
};

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, hard = 0, cached = 0; double secs = 0; };

struct Z3Back {
  Z3_context ctx;
  Z3_solver sol, hard = nullptr;
  Pool& P;
  SolverStats st;
  std::string err;
  explicit Z3Back(Pool& p) : P(p) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
      exit(70);
    });
    sol = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, sol);
    Z3_params pa = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, pa);
    Z3_params_set_uint(ctx, pa, Z3_mk_string_symbol(ctx, "timeout"), 300);
    Z3_solver_set_params(ctx, sol, pa);
  }
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast cval(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }
  Z3_ast toBool(Expr* e) {
    if (e->bo) return e->bo;
    Z3_ast r;
    auto B = [&](Expr* x) { return toBV(x); };
    switch (e->op) {
      case O_CONST: r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case O_EQ:
        r = e->a->w == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, B(e->a), B(e->b));
        break;
      case O_ULT: r = Z3_mk_bvult(ctx, B(e->a), B(e->b)); break;
      case O_ULE: r = Z3_mk_bvule(ctx, B(e->a), B(e->b)); break;
      case O_SLT: r = Z3_mk_bvslt(ctx, B(e->a), B(e->b)); break;
      case O_SLE: r = Z3_mk_bvsle(ctx, B(e->a), B(e->b)); break;
      case O_UMULO: r = Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, B(e->a), B(e->b), false)); break;
      case O_SMULO: {
        Z3_ast t[2] = {Z3_mk_bvmul_no_overflow(ctx, B(e->a), B(e->b), true),
                       Z3_mk_bvmul_no_underflow(ctx, B(e->a), B(e->b))};
        r = Z3_mk_not(ctx, Z3_mk_and(ctx, 2, t));
        break;
      }
      case O_AND: { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, t); break; }
      case O_OR: { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, t); break; }
      case O_XOR:
        if (Pool::isc(e->b)) r = e->b->k ? Z3_mk_not(ctx, toBool(e->a)) : toBool(e->a);
        else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b));
        break;
      case O_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
      default: r = Z3_mk_eq(ctx, toBV(e), cval(1, 1));
    }
    Z3_inc_ref(ctx, r);
    return e->bo = r;
  }
  Z3_ast toBV(Expr* e) {
    if (e->bv) return e->bv;
    Z3_ast r;
    auto B = [&](Expr* x) { return toBV(x); };
    switch (e->op) {
      case O_CONST: r = cval(e->k, e->w); break;
      case O_VAR: {
        char nm[32];
        snprintf(nm, sizeof nm, "v%u_%u", (unsigned)e->k, e->w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(e->w));
        break;
      }
      case O_ADD: r = Z3_mk_bvadd(ctx, B(e->a), B(e->b)); break;
      case O_SUB: r = Z3_mk_bvsub(ctx, B(e->a), B(e->b)); break;
      case O_MUL: r = Z3_mk_bvmul(ctx, B(e->a), B(e->b)); break;
      case O_UDIV: r = Z3_mk_bvudiv(ctx, B(e->a), B(e->b)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(ctx, B(e->a), B(e->b)); break;
      case O_UREM: r = Z3_mk_bvurem(ctx, B(e->a), B(e->b)); break;
      case O_SREM: r = Z3_mk_bvsrem(ctx, B(e->a), B(e->b)); break;
      case O_AND: if (e->w == 1) goto viabool; r = Z3_mk_bvand(ctx, B(e->a), B(e->b)); break;
      case O_OR: if (e->w == 1) goto viabool; r = Z3_mk_bvor(ctx, B(e->a), B(e->b)); break;
      case O_XOR: if (e->w == 1) goto viabool; r = Z3_mk_bvxor(ctx, B(e->a), B(e->b)); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, B(e->a), B(e->b)); break;
      case O_LSHR: r = Z3_mk_bvlshr(ctx, B(e->a), B(e->b)); break;
      case O_ASHR: r = Z3_mk_bvashr(ctx, B(e->a), B(e->b)); break;
      case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, B(e->a)); break;
      case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, B(e->a)); break;
      case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->k + e->w - 1, (unsigned)e->k, B(e->a)); break;
      case O_CONCAT: r = Z3_mk_concat(ctx, B(e->a), B(e->b)); break;
      case O_ITE: r = Z3_mk_ite(ctx, toBool(e->a), B(e->b), B(e->c)); break;
      default:
      viabool:
        r = Z3_mk_ite(ctx, toBool(e), cval(1, 1), cval(0, 1));
    }
    Z3_inc_ref(ctx, r);
    return e->bv = r;
  }
  // 1 sat, 0 unsat, -1 unknown; fills values for the given variable exprs
  int check(const std::vector<Expr*>& cs, const std::vector<Expr*>& vars, std::vector<u64>& out) {
    auto t0 = std::chrono::steady_clock::now();
    st.queries++;
    Z3_solver_push(ctx, sol);
    for (auto e : cs) Z3_solver_assert(ctx, sol, toBool(e));
    Z3_lbool r = Z3_solver_check(ctx, sol);
    Z3_solver used = sol;
    if (r == Z3_L_UNDEF) {  // hard for the incremental core: eager bit-blasting
      if (!hard) {
        Z3_tactic t = Z3_mk_tactic(ctx, "qfbv");
        Z3_tactic_inc_ref(ctx, t);
        hard = Z3_mk_solver_from_tactic(ctx, t);
        Z3_solver_inc_ref(ctx, hard);
        Z3_params pa = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, pa);
        Z3_params_set_uint(ctx, pa, Z3_mk_string_symbol(ctx, "timeout"), 60000);
        Z3_solver_set_params(ctx, hard, pa);
      }
      Z3_solver_reset(ctx, hard);
      for (auto e : cs) Z3_solver_assert(ctx, hard, toBool(e));
      if (getenv("SX_SLOW")) fprintf(stderr, "---- %s\n", Z3_solver_to_string(ctx, hard));
      r = Z3_solver_check(ctx, hard);
      if (getenv("SX_SLOW")) fprintf(stderr, "==== %.2f\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
      used = hard;
      st.hard++;
    }
    int res;
    if (r == Z3_L_TRUE) {
      res = 1; st.sat++;
      Z3_model m = Z3_solver_get_model(ctx, used);
      Z3_model_inc_ref(ctx, m);
      out.clear();
      for (auto v : vars) {
        Z3_ast o;
        u64 x = 0;
        if (Z3_model_eval(ctx, m, toBV(v), true, &o)) {
          Z3_inc_ref(ctx, o);
          Z3_get_numeral_uint64(ctx, o, &x);
          Z3_dec_ref(ctx, o);
        }
        out.push_back(x);
      }
      Z3_model_dec_ref(ctx, m);
    } else if (r == Z3_L_FALSE) { res = 0; st.unsat++; }
    else { res = -1; st.unknown++; }
    Z3_solver_pop(ctx, sol, 1);
    st.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return res;
  }
};
}  // namespace sx
