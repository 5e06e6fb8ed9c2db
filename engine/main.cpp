// Concolic-generational symbolic executor for LLVM IR with threads: see DESIGN.md.
#include <cmath>
#include <fstream>
#include "vm.h"
namespace sx {

enum N {
  N_SYMU = 0, N_SYMI, N_SYMB, N_ASSUME, N_CHECK, N_FAIL, N_COVER, N_WANT, N_LOG, N_HEAP, N_DEPTH, N_ISENG, N_PREEMPT, N_TIMED, N_JOINALL, N_TID,
  N_NORACE, N_CONC, N_PRINT,
  N_NEW, N_FREE, N_THROW, N_TERM, N_PUREV, N_ABORT, N_TCREATE, N_TJOIN, N_MLOCK, N_MTRY, N_MUNLOCK, N_CWAIT, N_CTWAIT,
  N_CSIG, N_CBROAD, N_NOP0, N_YIELD, N_SLEEP, N_ISMT, N_SPUR, N_ANNACQ, N_ANNREL
};
static const std::map<std::string, int> natNames = {
    {"sym_u64", N_SYMU}, {"sym_i64", N_SYMI}, {"sym_bool", N_SYMB}, {"sym_assume", N_ASSUME}, {"sym_check", N_CHECK},
    {"sym_fail", N_FAIL}, {"sym_cover", N_COVER}, {"sym_want", N_WANT}, {"sym_log", N_LOG}, {"sym_heap_live", N_HEAP}, {"sym_depth", N_DEPTH},
    {"sym_is_engine", N_ISENG}, {"sym_preempt", N_PREEMPT}, {"sym_timed_early", N_TIMED}, {"sym_join_all", N_JOINALL},
    {"sym_tid", N_TID}, {"sym_spurious", N_SPUR}, {"sym_norace", N_NORACE}, {"sym_concrete", N_CONC}, {"sym_print", N_PRINT},
    {"_Znwm", N_NEW}, {"_Znam", N_NEW}, {"malloc", N_NEW}, {"_ZnwmSt11align_val_t", N_NEW}, {"_ZnamSt11align_val_t", N_NEW},
    {"_ZnwmRKSt9nothrow_t", N_NEW}, {"_ZnamRKSt9nothrow_t", N_NEW},
    {"_ZdlPv", N_FREE}, {"_ZdlPvm", N_FREE}, {"_ZdaPv", N_FREE}, {"_ZdaPvm", N_FREE}, {"free", N_FREE},
    {"_ZdlPvmSt11align_val_t", N_FREE}, {"_ZdlPvSt11align_val_t", N_FREE}, {"_ZdlPvRKSt9nothrow_t", N_FREE}, {"_ZdaPvRKSt9nothrow_t", N_FREE},
    {"_ZdaPvSt11align_val_t", N_FREE}, {"_ZdaPvmSt11align_val_t", N_FREE}, {"_ZdlPvSt11align_val_tRKSt9nothrow_t", N_FREE}, {"_ZdaPvSt11align_val_tRKSt9nothrow_t", N_FREE},
    {"_ZnwmSt11align_val_tRKSt9nothrow_t", N_NEW}, {"_ZnamSt11align_val_tRKSt9nothrow_t", N_NEW},
    {"__eng_throw", N_THROW}, {"__eng_terminate", N_TERM}, {"__cxa_pure_virtual", N_PUREV}, {"abort", N_ABORT},
    {"__eng_thread_create", N_TCREATE}, {"__eng_join", N_TJOIN}, {"pthread_mutex_lock", N_MLOCK}, {"pthread_mutex_trylock", N_MTRY},
    {"pthread_mutex_unlock", N_MUNLOCK}, {"pthread_cond_wait", N_CWAIT}, {"__eng_cond_timedwait", N_CTWAIT},
    {"pthread_cond_signal", N_CSIG}, {"pthread_cond_broadcast", N_CBROAD}, {"pthread_cond_destroy", N_NOP0}, {"pthread_cond_init", N_NOP0},
    {"pthread_mutex_destroy", N_NOP0}, {"pthread_mutex_init", N_NOP0}, {"pthread_mutexattr_init", N_NOP0},
    {"sched_yield", N_YIELD}, {"__eng_sleep_until", N_SLEEP}, {"__eng_is_mt", N_ISMT},
    {"__tsan_mutex_post_lock", N_ANNACQ}, {"__tsan_mutex_pre_unlock", N_ANNREL}, {"__tsan_mutex_pre_lock", N_NOP0}, {"__tsan_mutex_post_unlock", N_NOP0},
    {"__tsan_mutex_create", N_NOP0}, {"__tsan_mutex_destroy", N_NOP0}, {"puts", N_NOP0}, {"printf", N_NOP0}, {"putchar", N_NOP0}, {"fflush", N_NOP0},
};

void Worker::bindNatives() {}

int Worker::native(Thread& t, int id, CallInfo* ci, Val* a, Val& ret, Why& w) {
  ret = {0, nullptr};
  auto C = [&](int i) { return concretize(a[i], 64); };
  switch (id) {
    case N_SYMU: ret = newVar(cstr(C(0)), 64, false, C(1), C(2)); return 0;
    case N_SYMI: ret = newVar(cstr(C(0)), 64, true, C(1), C(2)); return 0;
    case N_SYMB: {
      u32 i = (u32)vars.size();
      if (i >= VW * 64) throw Fatal{"too many symbolic inputs"};
      vars.push_back({cstr(C(0)), 1, false, 0, 1});
      if (i >= dm.size()) dm.push_back(0);
      ret = {dm[i] & 1, pool.var(i, 1)};
      return 0;
    }
    case N_ASSUME: assume(a[0]); return 0;
    case N_CHECK: check(a[0], cstr(C(1))); return 0;
    case N_FAIL: fail("assert", cstr(C(0)));
    case N_COVER: covers.insert(cstr(C(0))); return 0;
    case N_WANT: es->wantcovers.insert(cstr(C(0))); return 0;
    case N_LOG: log.push_back(a[0].c); return 0;
    case N_PRINT: if (S.opt.trace) fprintf(stderr, "  [print] %s %lld\n", cstr(C(0)).c_str(), (long long)a[1].c); return 0;
    case N_HEAP: ret.c = (u64)heapLive; return 0;
    case N_DEPTH: ret.c = (u64)t.fr.size(); return 0;
    case N_ISENG: ret.c = 1; return 0;
    case N_PREEMPT: budget = std::min<int>((int)C(0), S.opt.preempt); return 0;
    case N_TIMED: timedEarly = C(0); return 0;
    case N_NORACE: raceOn = !C(0); return 0;
    case N_CONC: ret.c = C(0); return 0;
    case N_TID: ret.c = (u64)t.id; return 0;
    case N_ISMT: ret.c = aliveT > 1; return 0;
    case N_JOINALL:
      if (t.woke || [&] { for (auto& o : thr) if (o->id != t.id && o->st != T_DONE) return false; return true; }()) {
        t.woke = false;
        for (auto& o : thr) if (o->id != t.id) t.vc.join(o->vc);
        return 0;
      }
      t.st = T_JOINALL; t.woke = false; w = W_BLOCK;
      return 2;
    case N_NEW: {
      u64 n = C(0);
      if (n > (64u << 20)) fail("memory", "huge allocation request");
      ret.c = newObj(n, S_HEAP);
      heapLive++;
      return 0;
    }
    case N_FREE: {
      u64 p = C(0);
      if (!p) return 0;
      u64 oid = p >> 32;
      if (oid >= objs.size() || (u32)p) fail("memory", "free of invalid pointer");
      if (objs[oid].st == S_FREED) fail("memory", "double free");
      if (objs[oid].st != S_HEAP) fail("memory", "free of non-heap pointer");
      if (mt && raceOn && objs[oid].size) race(p, objs[oid].size, true, false);
      killObj((u32)oid, S_FREED);
      heapLive--;
      return 0;
    }
    case N_THROW: {
      u64 o = C(0);
      excTi[o] = C(1);
      unwind(t, o, false);
      return 1;
    }
    case N_TERM: fail("terminate", cstr(C(0)));
    case N_PUREV: fail("memory", "pure virtual call");
    case N_ABORT: fail("terminate", "abort() called");
    case N_TCREATE: {
      u64 fnp = C(0);
      u64 idx = (fnp >> 32) - Prog::FUNC_BASE;
      if (idx >= P.funcs.size()) throw Fatal{"thread entry"};
      t.vc.v[t.id]++;
      Thread& nt = newThread();
      nt.vc.join(t.vc);
      nt.vc.v[nt.id] = 1;
      t.vc.v[t.id]++;
      mt = true;
      aliveT++;
      pushFrame(nt, P.funcs[idx].get());
      nt.regs[0] = a[1];
      ret.c = (u64)nt.id;
      return 0;
    }
    case N_TJOIN: {
      u64 j = C(0);
      if (j >= thr.size()) fail("deadlock", "join of invalid thread");
      if ((int)j == t.id) fail("deadlock", "thread joins itself");
      if (thr[j]->st == T_DONE) { t.vc.join(thr[j]->vc); return 0; }
      t.st = T_JOIN; t.wjoin = (int)j; w = W_BLOCK;
      return 2;
    }
    case N_MLOCK: case N_MTRY: {
      u64 m = C(0);
      chk(m, 24, true);
      if (point(t)) { w = W_POINT; return 2; }
      t.noPoint = false;
      es->events++;
      Mutex& mu = mutexes[m];
      u64 kind = rd(objs[m >> 32].p + (u32)m + 16, 4);
      if (mu.owner == t.id) {
        if (kind == 1) { mu.cnt++; ops++; return 0; }
        if (id == N_MTRY) { ops++; ret.c = 16; return 0; }
        if (kind == 2) { ret.c = 35; return 0; }
        fail("deadlock", "thread locks a mutex it already holds");
      }
      if (mu.owner >= 0) {
        if (id == N_MTRY) { ops++; ret.c = 16; return 0; }
        t.st = T_MUTEX; t.wmutex = m; w = W_BLOCK;
        return 2;
      }
      mu.owner = t.id; mu.cnt = 1;
      ops++;
      t.vc.join(mu.vc);
      return 0;
    }
    case N_MUNLOCK: {
      if (t.unlocked) { t.unlocked = t.noPoint = false; ops++; return 0; }
      u64 m = C(0);
      chk(m, 24, true);
      Mutex& mu = mutexes[m];
      if (mu.owner != t.id) fail("memory", "unlock of a mutex not held by this thread");
      if (--mu.cnt == 0) {
        mu.owner = -1;
        mu.vc = t.vc;
        t.vc.v[t.id]++;
        gstep++;
        if (aliveT > 1) {
          ops++;
          t.noPoint = false;
          // others may run before whatever follows the critical section
          if (point(t)) { t.unlocked = true; w = W_POINT; return 2; }
          ops++;
        }
      }
      return 0;
    }
    case N_CWAIT: case N_CTWAIT: {
      u64 cv = C(0), m = C(1);
      chk(m, 24, true);
      if (t.cwPhase == 0) {
        if (point(t)) { w = W_POINT; return 2; }
        t.noPoint = false;
        Mutex& mu = mutexes[m];
        if (mu.owner != t.id) fail("memory", "condition wait without the mutex");
        if (id == N_CTWAIT) t.deadline = a[2];
        mu.owner = -1; mu.vc = t.vc; t.vc.v[t.id]++;
        gstep++;
        ops++;
        t.cwPhase = 1; t.st = T_COND; t.wcond = cv; t.wmutex = m; t.signaled = false; t.timedout = false;
        t.timed = id == N_CTWAIT; t.woke = false;
        w = W_BLOCK;
        return 2;
      }
      t.cwPhase = 0; t.woke = false;
      Mutex& mu = mutexes[m];
      if (mu.owner >= 0) throw Fatal{"cond wake with mutex held"};
      mu.owner = t.id; mu.cnt = 1;
      t.vc.join(mu.vc);
      t.noPoint = false;
      ret.c = t.timedout ? 110 : 0;
      return 0;
    }
    case N_CSIG: case N_CBROAD: {
      u64 cv = C(0);
      chk(cv, 4, true);
      if (point(t)) { w = W_POINT; return 2; }
      t.noPoint = false;
      gstep++;
      ops++;
      std::vector<Thread*> ws;
      for (auto& o : thr) if (o->st == T_COND && o->wcond == cv && !o->signaled) ws.push_back(o.get());
      if (ws.empty()) return 0;
      if (id == N_CBROAD) for (auto* o : ws) o->signaled = true;
      else {
        Thread* x = ws[choose((unsigned)ws.size())];
        x->signaled = true;
        if (ws.size() > 1) { sched.push_back((int)ops); sched.push_back(100 + x->id); }
      }
      return 0;
    }
    case N_SPUR:
      if (aliveT <= 1) return 0;
      if (point(t)) { w = W_POINT; return 2; }
      t.noPoint = false;
      gstep++;
      ops++;
      for (auto& o : thr) if (o->st == T_COND && !o->signaled) o->signaled = true;
      return 0;
    case N_NOP0: return 0;
    case N_ANNACQ: t.vc.join(mutexes[C(0)].vc); return 0;
    case N_ANNREL: { VC& v = mutexes[C(0)].vc; v.join(t.vc); t.vc.v[t.id]++; return 0; }
    case N_YIELD:
      if (aliveT <= 1) return 0;
      if (t.noPoint) { t.noPoint = false; return 0; }
      if (spin(t, ci, 1, 0, 3)) { w = W_BLOCK; return 2; }
      w = W_YIELD;
      return 2;
    case N_SLEEP: {
      if (t.woke) { t.woke = false; t.noPoint = false; return 0; }
      if (aliveT <= 1) return 0;
      t.deadline = a[0];
      t.st = T_SLEEP;
      w = W_BLOCK;
      return 2;
    }
  }
  throw Fatal{"bad native"};
}

static double fd(u64 c, unsigned w) {
  if (w == 32) { float f; u32 x = (u32)c; memcpy(&f, &x, 4); return f; }
  double d; memcpy(&d, &c, 8); return d;
}
static u64 df(double d, unsigned w) {
  if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
  u64 c; memcpy(&c, &d, 8); return c;
}

Worker::Why Worker::exec(Thread& t) {
  Why why = W_BLOCK;
  for (;;) {
    Frame* fr = &t.fr.back();
    Val* R = t.regs + fr->base;
    Func* fn = fr->f;
    const bool rc = mt && raceOn && fn->inst;
    for (;;) {
      In& in = fn->code[fr->pc];
#ifdef COVLINES
      covHit[(in.file << 13) | (in.line & 8191)] = 1;
#endif
      if (__builtin_expect(++icount > S.opt.maxInstr, 0)) fail("bound", "step bound exceeded (possible non-termination)");
      switch (in.op) {
        case I_NOP: fr->pc++; break;
        case I_MOV: R[in.d] = get(R, in.a); fr->pc++; break;
        case I_BIN: {
          Val a = get(R, in.a), b = get(R, in.b);
          if (in.fl == O_UDIV || in.fl == O_SDIV || in.fl == O_UREM || in.fl == O_SREM) {
            if (b.e) {
              Expr* z0 = pool.bin(O_EQ, b.e, pool.cst(0, in.w));
              if (branch({b.c == 0, Pool::isc(z0) ? nullptr : z0})) fail("arith", "division by zero");
            } else if (!b.c) fail("arith", "division by zero");
          }
          u64 c = evalop(in.fl, in.w, in.w, a.c, b.c, 0, 0);
          Expr* e = nullptr;
          if (__builtin_expect(a.e && !b.e && in.w >= 32 && (in.fl == O_UDIV || in.fl == O_UREM) && b.c >= 1024 && !(b.c >> (in.w - 1)), 0)) {
            // split on "the quotient is zero": keeps wide dividers (duration to seconds) out of the solver
            Expr *s = pool.bin(O_SLE, pool.cst(0, in.w), a.e), *l = pool.bin(O_SLT, a.e, pool.cst(b.c, in.w));
            bool cs = sext(a.c, in.w) >= 0, cl = sext(a.c, in.w) < (i64)b.c;
            if (branch({cs, Pool::isc(s) ? nullptr : s}) && branch({cl, Pool::isc(l) ? nullptr : l})) {
              R[in.d] = in.fl == O_UDIV ? Val{0, nullptr} : a;
              fr->pc++;
              break;
            }
          }
          if (__builtin_expect(a.e || b.e, 0)) {
            e = pool.bin(in.fl, ex(a, in.w), ex(b, in.w));
            if (Pool::isc(e)) e = nullptr;
          }
          R[in.d] = {c, e};
          fr->pc++;
          break;
        }
        case I_CMP: {
          Val a = get(R, in.a), b = get(R, in.b);
          u64 c;
          switch (in.fl) {
            case O_EQ: c = a.c == b.c; break;
            case O_ULT: c = a.c < b.c; break;
            case O_ULE: c = a.c <= b.c; break;
            case O_SLT: c = sext(a.c, in.w) < sext(b.c, in.w); break;
            default: c = sext(a.c, in.w) <= sext(b.c, in.w);
          }
          if (in.w2) c ^= 1;
          Expr* e = nullptr;
          if (__builtin_expect(a.e || b.e, 0)) {
            e = pool.bin(in.fl, ex(a, in.w), ex(b, in.w));
            if (in.w2) e = pool.lnot(e);
            if (Pool::isc(e)) e = nullptr;
          }
          R[in.d] = {c, e};
          fr->pc++;
          break;
        }
        case I_SELECT: {
          Val c = get(R, in.c), a = get(R, in.a), b = get(R, in.b);
          Val r = (c.c & 1) ? a : b;
          if (__builtin_expect(c.e != nullptr, 0)) {
            Expr* e = pool.ite(c.e, ex(a, in.w), ex(b, in.w));
            r.e = Pool::isc(e) ? nullptr : e;
          }
          R[in.d] = r;
          fr->pc++;
          break;
        }
        case I_ZEXT: {
          Val a = get(R, in.a);
          R[in.d] = {a.c & maskw(in.w2), a.e ? pool.ext(O_ZEXT, a.e, in.w) : nullptr};
          fr->pc++;
          break;
        }
        case I_SEXT: {
          Val a = get(R, in.a);
          R[in.d] = {(u64)sext(a.c, in.w2) & maskw(in.w), a.e ? pool.ext(O_SEXT, a.e, in.w) : nullptr};
          fr->pc++;
          break;
        }
        case I_TRUNC: {
          Val a = get(R, in.a);
          Expr* e = a.e ? pool.extract(a.e, 0, in.w) : nullptr;
          R[in.d] = {a.c & maskw(in.w), e && !Pool::isc(e) ? e : nullptr};
          fr->pc++;
          break;
        }
        case I_LOAD: {
          Val p = get(R, in.a);
          u64 ad = (p.e ? concretize(p, 64) : p.c) + in.imm;
          if (rc) { chk(ad, (in.w + 7) / 8, false); if (!objs[ad >> 32].ro) race(ad, (in.w + 7) / 8, false, false); }
          R[in.d] = loadV(ad, in.w);
          fr->pc++;
          break;
        }
        case I_STORE: {
          Val p = get(R, in.a);
          u64 ad = (p.e ? concretize(p, 64) : p.c) + in.imm;
          if (rc) { chk(ad, (in.w + 7) / 8, true); race(ad, (in.w + 7) / 8, true, false); }
          storeV(ad, in.w, get(R, in.b));
          fr->pc++;
          break;
        }
        case I_GEP: {
          Val p = get(R, in.a);
          u64 c = p.c + in.imm;
          Expr* e = nullptr;
          bool sy = p.e != nullptr;
          auto* ts = (std::vector<GepTerm>*)in.x;
          if (ts) for (auto& g : *ts) {
            Val v = get(R, g.r);
            c += (u64)(sext(v.c, g.w) * g.scale);
            sy |= v.e != nullptr;
          }
          if (__builtin_expect(sy, 0)) {
            e = pool.bin(O_ADD, ex(p, 64), pool.cst(in.imm, 64));
            if (ts) for (auto& g : *ts) {
              Val v = get(R, g.r);
              Expr* x = g.w < 64 ? pool.ext(O_SEXT, ex(v, g.w), 64) : ex(v, 64);
              e = pool.bin(O_ADD, e, pool.bin(O_MUL, x, pool.cst((u64)g.scale, 64)));
            }
            if (Pool::isc(e)) e = nullptr;
          }
          R[in.d] = {c, e};
          fr->pc++;
          break;
        }
        case I_ALLOCA: {
          u64 n = concretize(get(R, in.a), 64) * in.imm;
          u64 p = newObj(n, S_STACK);
          t.allocas.push_back((u32)(p >> 32));
          R[in.d] = {p, nullptr};
          fr->pc++;
          break;
        }
        case I_BR: takeEdge(t, *(Edge*)in.x); break;
        case I_CBR: {
          Val c = get(R, in.a);
          bool b = c.e ? branch(c) : (c.c & 1);
          takeEdge(t, ((Edge*)in.x)[b ? 0 : 1]);
          break;
        }
        case I_SWITCH: {
          Val v = get(R, in.a);
          auto* si = (SwitchInfo*)in.x;
          Edge* tk = &si->def;
          size_t ti = SIZE_MAX;
          for (size_t i = 0; i < si->cases.size(); i++) if (si->cases[i].first == v.c) { tk = &si->cases[i].second; ti = i; break; }
          if (__builtin_expect(v.e != nullptr, 0)) {
            std::vector<Expr*> alts;
            Expr* taken = nullptr;
            Expr* none = nullptr;
            for (size_t i = 0; i < si->cases.size(); i++) {
              Expr* q = pool.bin(O_EQ, v.e, pool.cst(si->cases[i].first, in.w));
              Expr* nq = pool.lnot(q);
              none = none ? pool.bin(O_AND, none, nq) : nq;
              if (i == ti) taken = q; else alts.push_back(q);
            }
            if (!taken) taken = none; else if (none) alts.push_back(none);
            if (taken) decide(taken, alts.data(), alts.size());
          }
          takeEdge(t, *tk);
          break;
        }
        case I_RET: {
          Val r1{0, nullptr};
          std::vector<Val> rn;
          unsigned n = in.w;
          if (n == 1) r1 = get(R, in.a);
          else if (n > 1) for (int o : *(std::vector<int>*)in.x) rn.push_back(get(R, o));
          popFrame(t);
          if (t.fr.empty()) return W_DONE;
          Frame& cf = t.fr.back();
          In& ci = cf.f->code[cf.pc];
          auto* c = (CallInfo*)ci.x;
          Val* CR = t.regs + cf.base;
          if (c->nret == 1) CR[c->d] = r1;
          else for (unsigned i = 0; i < c->nret; i++) CR[c->d + (int)i] = rn[i];
          if (c->invoke) takeEdge(t, c->normal);
          else cf.pc++;
          goto reframe;
        }
        case I_CALL: {
          auto* ci = (CallInfo*)in.x;
          Func* f = ci->f;
          if (!f) {
            Val fp = get(R, ci->fop);
            u64 ad = concretize(fp, 64);
            u64 idx = (ad >> 32) - Prog::FUNC_BASE;
            if ((ad >> 32) < Prog::FUNC_BASE || idx >= P.funcs.size() || (u32)ad) {
              fail("memory", ad ? "call through corrupt pointer" : "call through null pointer");
            }
            f = P.funcs[idx].get();
          }
          if (f->native >= 0 && !f->defined) {
            Val av[8];
            size_t na = ci->args.size();
            for (size_t i = 0; i < na && i < 8; i++) av[i] = get(R, ci->args[i]);
            Val ret;
            int r = native(t, f->native, ci, av, ret, why);
            if (r == 2) return why;
            if (r == 1) goto reframe;
            fr = &t.fr.back();
            if (ci->nret) R[ci->d] = ret;
            if (ci->invoke) takeEdge(t, ci->normal);
            else fr->pc++;
            break;
          }
          if (!f->defined) throw Fatal{"call of unresolved external " + f->name};
          pushFrame(t, f);
          {
            Val* NR = t.regs + t.fr.back().base;
            size_t na = std::min<size_t>(ci->args.size(), f->nargs);
            for (size_t i = 0; i < na; i++) NR[i] = get(R, ci->args[i]);
            for (auto& bv : ci->byval) {
              u64 p = newObj(bv.second, S_STACK);
              t.allocas.push_back((u32)(p >> 32));
              copyMem(p, NR[bv.first].c, bv.second);
              NR[bv.first] = {p, nullptr};
            }
          }
          goto reframe;
        }
        case I_RESUME: {
          u64 obj = get(R, in.a).c;
          unwind(t, obj, true);
          goto reframe;
        }
        case I_UNREACH: fail("memory", "executed unreachable code (undefined behaviour)");
        case I_ALOAD: {
          if (fn->inst && !repeating(t, &in) && point(t)) return W_POINT;
          t.noPoint = false;
          u64 ad = concretize(get(R, in.a), 64);
          unsigned nb = (in.w + 7) / 8;
          chk(ad, nb, false);
          if (mt) {
            es->events++;
            if (raceOn && fn->inst) race(ad, nb, false, true);
            hbLoad(t, ad, in.fl);
          }
          Val v = loadV(ad, in.w);
          if (fn->inst) ops++;
          if (aliveT > 1 && fn->inst && spin(t, &in, ad, v.c, 40)) {
            R[in.d] = v;
            fr->pc++;
            return W_BLOCK;
          }
          R[in.d] = v;
          fr->pc++;
          break;
        }
        case I_ASTORE: {
          if (fn->inst && point(t)) return W_POINT;
          t.noPoint = false;
          u64 ad = concretize(get(R, in.a), 64);
          chk(ad, (in.w + 7) / 8, true);
          if (mt) {
            es->events++;
            if (raceOn && fn->inst) race(ad, (in.w + 7) / 8, true, true);
            hbStore(t, ad, in.fl, false);
            gstep++;
          }
          storeV(ad, in.w, get(R, in.b));
          if (fn->inst) ops++;
          fr->pc++;
          break;
        }
        case I_RMW: {
          // reference counts of libstdc++: changing one orders nothing, except that the last release follows all others
          bool refc = in.w == 32 && in.fl == (int)AtomicOrdering::AcquireRelease && (in.imm == AtomicRMWInst::Add || in.imm == AtomicRMWInst::Sub);
          if (fn->inst && !refc && point(t)) return W_POINT;
          if (!refc) t.noPoint = false;
          u64 ad = concretize(get(R, in.a), 64);
          unsigned nb = (in.w + 7) / 8;
          chk(ad, nb, true);
          Val old = loadV(ad, in.w), v = get(R, in.b), nv;
          if (mt) {
            es->events++;
            if (raceOn && fn->inst) race(ad, nb, true, true);
            bool inc = refc && !v.e && (in.imm == AtomicRMWInst::Add) == ((v.c >> 31 & 1) == 0);
            if (!refc || (!inc && !old.e && (u32)old.c == 1)) hbLoad(t, ad, in.fl);
            if (!inc) hbStore(t, ad, in.fl, true);
            gstep++;
          }
          u8 o = 255;
          switch (in.imm) {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: o = O_ADD; break;
            case AtomicRMWInst::Sub: o = O_SUB; break;
            case AtomicRMWInst::And: o = O_AND; break;
            case AtomicRMWInst::Or: o = O_OR; break;
            case AtomicRMWInst::Xor: o = O_XOR; break;
            default: throw Fatal{"atomicrmw kind"};
          }
          if (o != 255) {
            nv.c = evalop(o, in.w, in.w, old.c, v.c, 0, 0);
            nv.e = (old.e || v.e) ? pool.bin(o, ex(old, in.w), ex(v, in.w)) : nullptr;
          }
          storeV(ad, in.w, nv);
          if (fn->inst && !refc) ops++;
          R[in.d] = old;
          fr->pc++;
          break;
        }
        case I_CMPXCHG: {
          if (fn->inst && !repeating(t, &in) && point(t)) return W_POINT;
          t.noPoint = false;
          u64 ad = concretize(get(R, in.a), 64);
          unsigned nb = (in.w + 7) / 8;
          chk(ad, nb, true);
          Val old = loadV(ad, in.w), cmp = get(R, in.b), nv = get(R, in.c);
          Val eq{old.c == (cmp.c & maskw(in.w)), nullptr};
          if (old.e || cmp.e) {
            Expr* q = pool.bin(O_EQ, ex(old, in.w), ex(cmp, in.w));
            if (!Pool::isc(q)) eq.e = q;
          }
          bool ok = branch(eq);
          if (mt) {
            es->events++;
            if (raceOn && fn->inst) race(ad, nb, ok, true);
            hbLoad(t, ad, ok ? in.fl : in.w2);
            if (ok) { hbStore(t, ad, in.fl, true); gstep++; }
          }
          if (ok) storeV(ad, in.w, nv);
          if (fn->inst) ops++;
          R[in.d] = old;
          R[in.d + 1] = {ok, nullptr};
          fr->pc++;
          if (!ok && fn->inst) {
            bool sp = spin(t, &in, ad, old.c, aliveT > 1 ? 6 : 300);
            if (sp && aliveT <= 1) fail("livelock", "a thread spins forever and nothing else can run");
            if (sp) return W_BLOCK;
          }
          break;
        }
        case I_FENCE:
          if (mt) {
            if (isAcq(in.fl)) t.vc.join(t.acqPend);
            if (isRel(in.fl)) { t.relF = t.vc; t.hasRelF = true; t.vc.v[t.id]++; }
          }
          fr->pc++;
          break;
        case I_MEMCPY: {
          u64 d = concretize(get(R, in.a), 64), s = concretize(get(R, in.b), 64), n = concretize(get(R, in.c), 64);
          if (n) {
            chk(s, n, false); chk(d, n, true);
            if (rc) { if (!objs[s >> 32].ro) race(s, n, false, false); race(d, n, true, false); }
            copyMem(d, s, n);
          }
          fr->pc++;
          break;
        }
        case I_MEMSET: {
          u64 d = concretize(get(R, in.a), 64), n = concretize(get(R, in.c), 64);
          if (n) {
            chk(d, n, true);
            if (rc) race(d, n, true, false);
            setMem(d, get(R, in.b), n);
          }
          fr->pc++;
          break;
        }
        case I_OVF: {
          Val a = get(R, in.a), b = get(R, in.b);
          unsigned w = in.w;
          u64 m = maskw(w), c, o;
          __int128 sa = sext(a.c, w), sb = sext(b.c, w), r;
          switch (in.fl) {
            case 0: c = (a.c + b.c) & m; o = c < a.c; break;
            case 1: c = (a.c + b.c) & m; r = sa + sb; o = r != (__int128)sext(c, w); break;
            case 2: c = (a.c - b.c) & m; o = a.c < b.c; break;
            case 3: c = (a.c - b.c) & m; r = sa - sb; o = r != (__int128)sext(c, w); break;
            case 4: c = (a.c * b.c) & m; o = evalop(O_UMULO, 1, w, a.c, b.c, 0, 0); break;
            default: c = (a.c * b.c) & m; o = evalop(O_SMULO, 1, w, a.c, b.c, 0, 0);
          }
          Val rv{c, nullptr}, ov{o, nullptr};
          if (a.e || b.e) {
            Expr *x = ex(a, w), *y = ex(b, w), *z0 = pool.cst(0, w);
            Expr *re, *oe;
            switch (in.fl) {
              case 0: re = pool.bin(O_ADD, x, y); oe = pool.bin(O_ULT, re, x); break;
              case 2: re = pool.bin(O_SUB, x, y); oe = pool.bin(O_ULT, x, y); break;
              case 1: {
                re = pool.bin(O_ADD, x, y);
                Expr *sx_ = pool.bin(O_SLT, x, z0), *sy = pool.bin(O_SLT, y, z0), *sr = pool.bin(O_SLT, re, z0);
                oe = pool.bin(O_AND, pool.bin(O_EQ, sx_, sy), pool.lnot(pool.bin(O_EQ, sr, sx_)));
                break;
              }
              case 3: {
                re = pool.bin(O_SUB, x, y);
                Expr *sx_ = pool.bin(O_SLT, x, z0), *sy = pool.bin(O_SLT, y, z0), *sr = pool.bin(O_SLT, re, z0);
                oe = pool.bin(O_AND, pool.lnot(pool.bin(O_EQ, sx_, sy)), pool.lnot(pool.bin(O_EQ, sr, sx_)));
                break;
              }
              case 4: re = pool.bin(O_MUL, x, y); oe = pool.bin(O_UMULO, x, y); break;
              default: re = pool.bin(O_MUL, x, y); oe = pool.bin(O_SMULO, x, y);
            }
            rv.e = Pool::isc(re) ? nullptr : re;
            ov.e = Pool::isc(oe) ? nullptr : oe;
          }
          R[in.d] = rv;
          R[in.d + 1] = ov;
          fr->pc++;
          break;
        }
        case I_MINMAX: {
          Val a = get(R, in.a), b = get(R, in.b);
          bool sg = in.fl >= 2;
          bool lt = sg ? sext(a.c, in.w) < sext(b.c, in.w) : a.c < b.c;
          bool takeA = (in.fl & 1) ? !lt : lt;
          Val r = takeA ? a : b;
          if (a.e || b.e) {
            Expr *x = ex(a, in.w), *y = ex(b, in.w);
            Expr* l = pool.bin(sg ? O_SLT : O_ULT, x, y);
            r.e = (in.fl & 1) ? pool.ite(l, y, x) : pool.ite(l, x, y);
            if (Pool::isc(r.e)) r.e = nullptr;
          }
          R[in.d] = r;
          fr->pc++;
          break;
        }
        case I_SAT: {
          Val a = get(R, in.a), b = get(R, in.b);
          unsigned w = in.w;
          u64 m = maskw(w);
          if (in.fl >= 2) { a.c = concretize(a, w); b.c = concretize(b, w); a.e = b.e = nullptr; }
          Val r{0, nullptr};
          if (in.fl == 0) {
            u64 s = (a.c + b.c) & m; r.c = s < a.c ? m : s;
            if (a.e || b.e) { Expr* se = pool.bin(O_ADD, ex(a, w), ex(b, w)); r.e = pool.ite(pool.bin(O_ULT, se, ex(a, w)), pool.cst(m, w), se); }
          } else if (in.fl == 1) {
            r.c = a.c < b.c ? 0 : a.c - b.c;
            if (a.e || b.e) r.e = pool.ite(pool.bin(O_ULT, ex(a, w), ex(b, w)), pool.cst(0, w), pool.bin(O_SUB, ex(a, w), ex(b, w)));
          } else {
            __int128 s = in.fl == 2 ? (__int128)sext(a.c, w) + sext(b.c, w) : (__int128)sext(a.c, w) - sext(b.c, w);
            __int128 mx = ((__int128)1 << (w - 1)) - 1, mn = -((__int128)1 << (w - 1));
            if (s > mx) s = mx;
            if (s < mn) s = mn;
            r.c = (u64)s & m;
          }
          if (r.e && Pool::isc(r.e)) r.e = nullptr;
          R[in.d] = r;
          fr->pc++;
          break;
        }
        case I_ABS: {
          Val a = get(R, in.a);
          i64 s = sext(a.c, in.w);
          Val r{(u64)(s < 0 ? 0 - (u64)s : (u64)s) & maskw(in.w), nullptr};
          if (a.e) r.e = pool.ite(pool.bin(O_SLT, a.e, pool.cst(0, in.w)), pool.bin(O_SUB, pool.cst(0, in.w), a.e), a.e);
          R[in.d] = r;
          fr->pc++;
          break;
        }
        case I_CTPOP: { u64 v = concretize(get(R, in.a), in.w); R[in.d] = {(u64)__builtin_popcountll(v), nullptr}; fr->pc++; break; }
        case I_CTLZ: { u64 v = concretize(get(R, in.a), in.w); R[in.d] = {v ? (u64)__builtin_clzll(v) - (64 - in.w) : in.w, nullptr}; fr->pc++; break; }
        case I_CTTZ: { u64 v = concretize(get(R, in.a), in.w); R[in.d] = {v ? (u64)__builtin_ctzll(v) : in.w, nullptr}; fr->pc++; break; }
        case I_BSWAP: { u64 v = concretize(get(R, in.a), in.w); R[in.d] = {__builtin_bswap64(v) >> (64 - in.w), nullptr}; fr->pc++; break; }
        case I_FSH: {
          u64 a = concretize(get(R, in.a), in.w), b = concretize(get(R, in.b), in.w), s = concretize(get(R, in.c), in.w) % in.w;
          u64 r;
          if (in.fl == 0) r = s ? (a << s) | (b >> (in.w - s)) : a;
          else r = s ? (a << (in.w - s)) | (b >> s) : b;
          R[in.d] = {r & maskw(in.w), nullptr};
          fr->pc++;
          break;
        }
        case I_TLS: {
          u64 g = get(R, in.a).c;
          auto it = t.tls.find(g);
          if (it == t.tls.end()) {
            auto& gi = P.globals[(g >> 32) - 1];
            u64 o = newObj(gi.bytes.size(), S_GLOB);
            memcpy(objs[o >> 32].p, gi.bytes.data(), gi.bytes.size());
            it = t.tls.emplace(g, o).first;
          }
          R[in.d] = {it->second, nullptr};
          fr->pc++;
          break;
        }
        case I_FBIN: {
          double a = fd(concretize(get(R, in.a), in.w), in.w), b = fd(concretize(get(R, in.b), in.w), in.w), r = 0;
          switch (in.fl) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = fmod(a, b); break;
            case 6: r = std::ceil(a); break; case 7: r = std::floor(a); break; case 8: r = std::trunc(a); break; case 9: r = std::round(a); break; case 10: r = std::nearbyint(a); break;
            case 11: r = std::fabs(a); break; case 12: r = std::sqrt(a); break; case 13: r = std::copysign(a, b); break; case 14: r = std::fmin(a, b); break; case 15: r = std::fmax(a, b); break;
            default: r = -a; }
          R[in.d] = {df(r, in.w), nullptr};
          fr->pc++;
          break;
        }
        case I_FCMP: {
          double a = fd(concretize(get(R, in.a), in.w), in.w), b = fd(concretize(get(R, in.b), in.w), in.w);
          bool un = std::isnan(a) || std::isnan(b);
          unsigned p = in.fl;  // bits: U L G E
          bool r = (un && (p & 8)) || (!un && ((a < b && (p & 4)) || (a > b && (p & 2)) || (a == b && (p & 1))));
          R[in.d] = {r, nullptr};
          fr->pc++;
          break;
        }
        case I_FPCONV: {
          u64 v = concretize(get(R, in.a), in.w2);
          u64 r = 0;
          unsigned sw = in.w2, dw = in.w;
          switch (in.imm) {
            case Instruction::FPToSI: r = (u64)(i64)fd(v, sw) & maskw(dw); break;
            case Instruction::FPToUI: r = (u64)fd(v, sw) & maskw(dw); break;
            case Instruction::SIToFP: r = df((double)sext(v, sw), dw); break;
            case Instruction::UIToFP: r = df((double)v, dw); break;
            default: r = df(fd(v, sw), dw);
          }
          R[in.d] = {r, nullptr};
          fr->pc++;
          break;
        }
        case I_TRAP: fail("memory", "trap executed");
        case I_UNSUP: throw Fatal{"unsupported instruction: " + *(std::string*)in.x + " in " + fn->pretty()};
        default: throw Fatal{"bad opcode"};
      }
    }
  reframe:;
  }
}

void Worker::explore() {
  Shared& sh = S;
  try {
    for (;;) {
      Item it;
      if (!local.empty()) { it = std::move(local.back()); local.pop_back(); }
      else {
        std::unique_lock<std::mutex> g(sh.mu);
        sh.idle++;
        if (sh.idle == sh.njobs && sh.q.empty()) { sh.stop = true; sh.cv.notify_all(); break; }
        sh.cv.wait(g, [&] { return sh.stop || !sh.q.empty(); });
        if (sh.stop && sh.q.empty()) break;
        if (sh.stop) break;
        it = std::move(sh.q.front());
        sh.q.pop_front();
        sh.qn = (int)sh.q.size();
        sh.idle--;
      }
      if (sh.stop) break;
      if (sh.violCount[it.entry] > sh.opt.maxViol) continue;
      if (sh.pathCount[it.entry]++ > sh.opt.maxPaths) throw Fatal{"path bound exceeded in " + sh.entries[it.entry]};
      runPath(it);
      if (sh.qn < sh.njobs * 2 && local.size() > 1) {
        std::lock_guard<std::mutex> g(sh.mu);
        size_t give = std::min<size_t>(local.size() - 1, 4);
        for (size_t i = 0; i < give; i++) sh.q.push_back(std::move(local[i]));
        local.erase(local.begin(), local.begin() + (long)give);
        sh.qn = (int)sh.q.size();
        sh.cv.notify_all();
      }
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - sh.t0).count() > sh.opt.tlimit) {
        std::lock_guard<std::mutex> g(sh.mu);
        if (!sh.stop) { sh.timedOut = true; sh.stop = true; }
        sh.cv.notify_all();
        break;
      }
    }
  } catch (Fatal& f) {
    std::lock_guard<std::mutex> g(sh.mu);
    if (sh.fatal.empty()) { sh.fatal = f.msg + " [" + (cur.entry < (int)sh.entries.size() ? sh.entries[cur.entry] : "") + "]"; if (!thr.empty() && !thr[curT]->fr.empty()) sh.fatal += " at " + stackStr(); }
    sh.stop = true;
    sh.cv.notify_all();
  }
  std::lock_guard<std::mutex> g(sh.mu);
  for (size_t i = 0; i < st.size(); i++) {
    auto &a = sh.st[i], &b = st[i];
    a.paths += b.paths; a.branches += b.branches; a.dropped += b.dropped; a.instrs += b.instrs; a.asserts += b.asserts;
    a.assertq += b.assertq; a.choices += b.choices; a.events += b.events;
    a.maxthreads = std::max(a.maxthreads, b.maxthreads); a.maxvars = std::max(a.maxvars, b.maxvars); a.maxpath = std::max(a.maxpath, b.maxpath);
    for (auto& c : b.covers) a.covers.insert(c);
    for (auto& c : b.wantcovers) a.wantcovers.insert(c);
  }
  for (size_t i = 0; i < used.size(); i++) if (used[i]) sh.usedFuncs.insert((u32)i);
  sh.ss.queries += z.st.queries; sh.ss.sat += z.st.sat; sh.ss.unsat += z.st.unsat; sh.ss.unknown += z.st.unknown;
  sh.ss.cached += z.st.cached; sh.ss.secs += z.st.secs;
}

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((u8)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
template <class V> static std::string ja(const V& v) {
  std::string r = "[";
  bool f = true;
  for (auto x : v) { if (!f) r += ","; f = false; r += std::to_string((unsigned long long)x); }
  return r + "]";
}
static std::string jas(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + js(v[i]);
  return r + "]";
}
}  // namespace sx

using namespace sx;
int main(int argc, char** argv) {
  Options o;
  std::string bc, out, only, replayDm, replayCm;
  bool replay = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--jobs") o.jobs = atoi(nx().c_str());
    else if (a == "--time") o.tlimit = atof(nx().c_str());
    else if (a == "--preempt") o.preempt = atoi(nx().c_str());
    else if (a == "--max-instr") o.maxInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-paths") o.maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--samples") o.samples = atoi(nx().c_str());
    else if (a == "--entry") only = nx();
    else if (a == "--out") out = nx();
    else if (a == "--trace") o.trace = true;
    else if (a == "-v") o.verbose++;
    else if (a == "--dm") { replayDm = nx(); replay = true; }
    else if (a == "--cm") { replayCm = nx(); replay = true; }
    else bc = a;
  }
  Prog P;
  P.load(bc);
  for (auto& f : P.funcs) {
    auto it = natNames.find(f->name);
    if (it != natNames.end()) f->native = it->second;
  }
  Shared S;
  S.opt = o;
  for (auto& f : P.funcs)
    if (f->defined && f->name.rfind("H_", 0) == 0) {
      if (!only.empty() && ("," + only + ",").find("," + f->name + ",") == std::string::npos) continue;
      S.entries.push_back(f->name);
    }
  if (S.entries.empty()) { fprintf(stderr, "engine: no H_ entries\n"); return 70; }
  S.st.resize(S.entries.size());
  S.pathCount = std::vector<std::atomic<u64>>(S.entries.size());
  S.violCount = std::vector<std::atomic<int>>(S.entries.size());
  S.t0 = std::chrono::steady_clock::now();
  if (replay) {
    auto parse = [](const std::string& s) {
      std::vector<u64> v;
      size_t p = 0;
      while (p < s.size()) { v.push_back(strtoull(s.c_str() + p, 0, 10)); p = s.find(',', p); if (p == std::string::npos) break; p++; }
      return v;
    };
    Worker w(P, S, 0);
    w.replaying = true;
    Violation v;
    w.replayOut = &v;
    Item it;
    it.entry = 0; it.bound = ~0u;
    if (!replayDm.empty()) it.dm = parse(replayDm);
    for (u64 x : parse(replayCm)) it.cm.push_back((u8)x);
    try { w.runPath(it); } catch (Fatal& f) { fprintf(stderr, "fatal: %s\n%s\n", f.msg.c_str(), w.stackStr().c_str()); return 70; }
    printf("replay %s: %s\n", S.entries[0].c_str(), v.confirmed ? (v.kind + ": " + v.msg).c_str() : "no violation");
    if (v.confirmed) printf("where %s\n%s", v.where.c_str(), v.stack.c_str());
    printf("log %s\nsched %s\n", ja(w.log).c_str(), ja(w.sched).c_str());
    return v.confirmed ? 1 : 0;
  }
  S.njobs = std::max(1, o.jobs);
  for (size_t i = 0; i < S.entries.size(); i++) { Item it; it.entry = (int)i; S.q.push_back(it); }
  S.qn = (int)S.q.size();
  std::vector<std::unique_ptr<Worker>> ws;
  for (int i = 0; i < S.njobs; i++) ws.push_back(std::make_unique<Worker>(P, S, i));
  {
    std::vector<std::thread> ts;
    for (auto& w : ws) ts.emplace_back([&w] { w->explore(); });
    for (auto& t : ts) t.join();
  }
  // confirm: re-execute each counterexample inside the engine to obtain the full trace
  if (S.fatal.empty())
    for (auto& v : S.viol) {
      Worker& w = *ws[0];
      w.replaying = true;
      Violation r;
      w.replayOut = &r;
      Item it;
      it.entry = v.entry; it.bound = ~0u; it.dm = v.dm; it.cm = v.cm;
      try { w.runPath(it); } catch (Fatal&) {}
      if (r.confirmed && r.kind == v.kind && r.msg == v.msg) {
        v.confirmed = true; v.log = r.log; v.sched = r.sched; v.where = r.where; v.stack = r.stack; v.names = r.names; v.dm = r.dm; v.cm = r.cm;
      } else v.confirmed = false;
    }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - S.t0).count();
  std::string J = "{\n";
  J += "\"fatal\":" + js(S.fatal) + ",\n\"timed_out\":" + (S.timedOut ? "true" : "false") + ",\n";
  J += "\"wall\":" + std::to_string(wall) + ",\n\"preempt\":" + std::to_string(o.preempt) + ",\n";
  J += "\"queries\":" + std::to_string(S.ss.queries) + ",\"sat\":" + std::to_string(S.ss.sat) + ",\"unsat\":" + std::to_string(S.ss.unsat) +
       ",\"unknown\":" + std::to_string(S.ss.unknown) + ",\"cached\":" + std::to_string(S.ss.cached) + ",\"solver_s\":" + std::to_string(S.ss.secs) + ",\n";
  std::vector<std::string> fnames;
  for (u32 i : S.usedFuncs) fnames.push_back(P.funcs[i]->pretty());
  J += "\"nfuncs\":" + std::to_string(fnames.size()) + ",\n\"funcs\":" + jas(fnames) + ",\n\"entries\":[\n";
  for (size_t i = 0; i < S.entries.size(); i++) {
    auto& e = S.st[i];
    std::vector<std::string> cv(e.covers.begin(), e.covers.end()), wc(e.wantcovers.begin(), e.wantcovers.end());
    J += std::string(i ? ",\n" : "") + "{\"name\":" + js(S.entries[i]) + ",\"paths\":" + std::to_string(e.paths) + ",\"dropped\":" + std::to_string(e.dropped) +
         ",\"branches\":" + std::to_string(e.branches) + ",\"choices\":" + std::to_string(e.choices) + ",\"instrs\":" + std::to_string(e.instrs) +
         ",\"asserts\":" + std::to_string(e.asserts) + ",\"assert_queries\":" + std::to_string(e.assertq) + ",\"max_threads\":" + std::to_string(e.maxthreads) +
         ",\"max_vars\":" + std::to_string(e.maxvars) + ",\"max_path\":" + std::to_string(e.maxpath) + ",\"mem_events\":" + std::to_string(e.events) +
         ",\"covers\":" + jas(cv) + ",\"want\":" + jas(wc) + "}";
  }
  J += "],\n\"violations\":[\n";
  for (size_t i = 0; i < S.viol.size(); i++) {
    auto& v = S.viol[i];
    J += std::string(i ? ",\n" : "") + "{\"entry\":" + js(S.entries[v.entry]) + ",\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) +
         ",\"stack\":" + js(v.stack) + ",\"names\":" + jas(v.names) + ",\"dm\":" + ja(v.dm) + ",\"cm\":" + ja(v.cm) + ",\"log\":" + ja(v.log) +
         ",\"sched\":" + ja(v.sched) + ",\"confirmed\":" + (v.confirmed ? "true" : "false") + "}";
  }
  J += "],\n\"samples\":[\n";
  for (size_t i = 0; i < S.samples.size(); i++) {
    auto& v = S.samples[i];
    J += std::string(i ? ",\n" : "") + "{\"entry\":" + js(S.entries[v.entry]) + ",\"names\":" + jas(v.names) + ",\"dm\":" + ja(v.dm) + ",\"cm\":" + ja(v.cm) +
         ",\"log\":" + ja(v.log) + ",\"sched\":" + ja(v.sched) + "}";
  }
  J += "]}\n";
#ifdef COVLINES
  if (const char* c = getenv("COVOUT")) {
    std::ofstream f(c, std::ios::app);
    std::set<u32> done;
    for (auto& fu : P.funcs)
      for (auto& in : fu->code) {
        u32 k = (in.file << 13) | (in.line & 8191);
        if (done.insert(k).second) f << sx::covFiles[in.file] << " " << in.line << " " << (int)sx::covHit[k] << "\n";
      }
  }
#endif
  if (!out.empty()) { std::ofstream f(out); f << J; }
  if (o.verbose || out.empty()) {
    for (size_t i = 0; i < S.entries.size(); i++) {
      auto& e = S.st[i];
      printf("%-40s paths %llu dropped %llu branches %llu choices %llu instrs %llu asserts %llu maxpath %llu threads %llu\n", S.entries[i].c_str(),
             (unsigned long long)e.paths, (unsigned long long)e.dropped, (unsigned long long)e.branches, (unsigned long long)e.choices,
             (unsigned long long)e.instrs, (unsigned long long)e.asserts, (unsigned long long)e.maxpath, (unsigned long long)e.maxthreads);
      for (auto& w : e.wantcovers) if (!e.covers.count(w)) printf("   NOT COVERED: %s\n", w.c_str());
    }
    printf("queries %llu (sat %llu unsat %llu cached %llu) solver %.2fs wall %.2fs%s\n", (unsigned long long)S.ss.queries, (unsigned long long)S.ss.sat,
           (unsigned long long)S.ss.unsat, (unsigned long long)S.ss.cached, S.ss.secs, wall, S.timedOut ? " TIMED OUT" : "");
    if (!S.fatal.empty()) printf("FATAL %s\n", S.fatal.c_str());
    for (auto& v : S.viol) {
      printf("VIOL %s [%s] %s (confirmed %d)\n  at %s\n", S.entries[v.entry].c_str(), v.kind.c_str(), v.msg.c_str(), (int)v.confirmed, v.where.c_str());
      printf("  inputs:");
      for (size_t k = 0; k < v.dm.size(); k++) printf(" %s=%lld", k < v.names.size() ? v.names[k].c_str() : "?", (long long)v.dm[k]);
      printf("\n  dm %s cm %s\n  log %s\n", ja(v.dm).c_str(), ja(v.cm).c_str(), ja(v.log).c_str());
      if (o.verbose > 1) printf("%s", v.stack.c_str());
    }
  }
  fflush(stdout);
  _exit(S.fatal.empty() ? (S.timedOut ? 3 : S.viol.empty() ? 0 : 1) : 70);
}
