// Symbolic interpreter: memory, exceptions, threads, schedules, path exploration.
#pragma once
#include <sys/mman.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include "prog.h"

namespace sx {

struct VarInfo { std::string name; u8 w; bool sgn; u64 lo, hi; };
struct Item {
  int entry = 0;
  u32 bound = 0;
  std::vector<u64> dm;                          // data model, by data-variable index
  std::vector<u8> cm;                           // schedule choices
  std::vector<std::pair<u32, u64>> concr;       // concretisation values already explored
};
struct Violation {
  int entry;
  std::string kind, msg, where, stack;
  std::vector<u64> dm;
  std::vector<u8> cm;
  std::vector<std::string> names;
  std::vector<u64> log;
  std::vector<int> sched;
  bool confirmed = false;
};
struct Sample { int entry; std::vector<u64> dm; std::vector<u8> cm; std::vector<u64> log; std::vector<int> sched; std::vector<std::string> names; };
struct EntryStats {
  u64 paths = 0, branches = 0, dropped = 0, instrs = 0, asserts = 0, assertq = 0, choices = 0, maxthreads = 0, maxvars = 0, maxpath = 0, races = 0, atoms = 0, events = 0;
  std::set<std::string> covers, wantcovers;
  u64 bounded = 0;
};
struct Options {
  int jobs = 8;
  double tlimit = 600;
  u64 maxInstr = 30000000;
  int preempt = 2;
  int samples = 8;
  u64 maxPaths = ~0ull;
  int maxViol = 12;
  bool trace = false;
  int verbose = 0;
};

struct Shared {
  Options opt;
  std::mutex mu;
  std::condition_variable cv;
  std::deque<Item> q;
  std::atomic<int> qn{0};
  int idle = 0, njobs = 0;
  std::atomic<bool> stop{false};
  bool timedOut = false;
  std::vector<std::string> entries;
  std::vector<EntryStats> st;
  std::vector<Violation> viol;
  std::set<std::string> vkeys;
  std::vector<Sample> samples;
  std::vector<std::atomic<u64>> pathCount;
  std::vector<std::atomic<int>> violCount;
  SolverStats ss;
  std::set<u32> usedFuncs;
  std::string fatal;
  std::chrono::steady_clock::time_point t0;
};

struct PathEnd { int why; };  // 0 done, 1 assume, 2 violation, 3 bound
struct Fatal { std::string msg; };

static const int MAXT = 8;
struct VC { u32 v[MAXT]; void clear() { memset(v, 0, sizeof v); } void join(const VC& o) { for (int i = 0; i < MAXT; i++) v[i] = std::max(v[i], o.v[i]); } };

struct ShB { Expr* e; u8 i; };
struct Rec { u8 tid, off, len, fl; u32 clk; Rec* next; Func* f; u32 line; };
struct Obj { u8* p; u32 size; u8 st; u8 ro; uint16_t tag; ShB* sh; Rec** rc; };
enum { S_NONE, S_HEAP, S_STACK, S_GLOB, S_FREED, S_DEADSTK };

struct Frame { Func* f; u32 pc, base, amark; };
enum TS { T_RUN, T_MUTEX, T_JOIN, T_COND, T_SLEEP, T_JOINALL, T_DONE };
struct Thread {
  int id;
  std::vector<Frame> fr;
  Val* regs = nullptr;
  std::vector<u32> allocas;
  TS st = T_RUN;
  u64 wmutex = 0, wcond = 0;
  int wjoin = 0;
  bool signaled = false, timed = false, timedout = false, woke = false;
  int cwPhase = 0;
  bool unlocked = false;
  Val deadline{0, nullptr};
  bool noPoint = false;
  std::unordered_map<u64, u64> tls;
  VC vc, acqPend, relF;
  bool hasRelF = false;
  // spin detection: the same read-only atomic operation repeated while nothing changed
  u64 spPc = 0, spAd = 0, spVal = 0, spStep = 0;
  int spRep = 0;
  u64 spinG = ~0ull;
};
struct Mutex { int owner = -1; int cnt = 0; VC vc; };
struct Atom { VC rel; bool has = false; };

struct Worker {
  Prog& P;
  Shared& S;
  Pool pool;
  Z3Back z;
  int wid;
  std::vector<Item> local;
  std::vector<EntryStats> st;
  std::vector<u8> used;

  // ---- path state
  std::vector<Obj> objs;
  std::vector<u8*> blocks;
  size_t blk = 0, boff = 0;
  static constexpr size_t BLK = 4 << 20;
  std::vector<u8*> freel[33];
  std::vector<std::vector<u8>> ginit;
  Item cur;
  std::vector<u64> dm;
  std::vector<u8> cm;
  std::vector<VarInfo> vars;
  std::vector<Expr*> pc;
  std::unordered_set<Expr*> pcset;
  u32 nbranch = 0;
  u64 icount = 0;
  std::vector<std::unique_ptr<Thread>> thr;
  std::vector<Val*> regPool;
  int curT = 0;
  int budget = 0;
  bool mt = false, timedEarly = false, raceOn = true;
  int aliveT = 1;
  u64 gstep = 1, ops = 0;
  std::unordered_map<u64, Mutex> mutexes;
  std::unordered_map<u64, Atom> atoms;
  std::unordered_map<u64, VC> condvc;
  std::unordered_map<u64, u64> excTi;
  std::vector<u64> log;
  std::vector<int> sched;
  std::set<std::string> covers;
  i64 heapLive = 0;
  bool replaying = false;
  Violation* replayOut = nullptr;
  std::string curMsg;
  EntryStats* es = nullptr;
  VC startVC;

  Worker(Prog& p, Shared& s, int id) : P(p), S(s), z(pool), wid(id) {
    st.resize(S.entries.size());
    used.assign(P.funcs.size(), 0);
    objs.resize(P.globals.size() + 1);
    memset(objs.data(), 0, objs.size() * sizeof(Obj));
    for (size_t i = 0; i < P.globals.size(); i++) {
      auto& g = P.globals[i];
      Obj& o = objs[i + 1];
      o.size = (u32)g.bytes.size();
      o.p = (u8*)malloc(o.size + 8);
      memcpy(o.p, g.bytes.data(), o.size);
      o.st = S_GLOB; o.ro = g.ro;
    }
  }

  // ---------------------------------------------------------------- memory
  u8* bump(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (n > BLK) {
      bigs.push_back((u8*)malloc(n));
      return bigs.back();
    }
    if (boff + n > BLK) { blk++; boff = 0; }
    if (blk >= blocks.size()) {
      if (blocks.size() > 200) throw Fatal{"path uses more than 800 MB"};
      blocks.push_back((u8*)malloc(BLK));
    }
    u8* r = blocks[blk] + boff;
    boff += n;
    return r;
  }
  std::vector<u8*> bigs;
  u64 newObj(u64 size, u8 stt) {
    if (size > (256u << 20)) throw Fatal{"allocation too large"};
    Obj o;
    memset(&o, 0, sizeof o);
    size_t cls = (size + 15) / 16;
    if (cls <= 32 && !freel[cls].empty()) { o.p = freel[cls].back(); freel[cls].pop_back(); }
    else o.p = bump(size ? size : 1);
    o.size = (u32)size; o.st = stt;
    memset(o.p, 0xAA, size);
    objs.push_back(o);
    return (u64)(objs.size() - 1) << 32;
  }
  void killObj(u32 id, u8 to) {
    Obj& o = objs[id];
    size_t cls = (o.size + 15) / 16;
    if (cls <= 32 && o.size) freel[cls].push_back(o.p);
    o.st = to;
    o.p = nullptr;
    o.sh = nullptr;
  }
  std::string locStr() {
    Thread& t = *thr[curT];
    if (t.fr.empty()) return "?";
    Frame& f = t.fr.back();
    return f.f->pretty() + ":" + std::to_string(f.f->code[f.pc].line);
  }
  std::string stackStr() {
    std::string r;
    for (auto& tp : thr) {
      r += "thread " + std::to_string(tp->id) + ":\n";
      int n = 0;
      for (int i = (int)tp->fr.size() - 1; i >= 0 && n < 14; i--, n++) {
        std::string p = tp->fr[i].f->pretty();
        if (p.size() > 240) p = p.substr(0, 240) + "...";
        r += "   " + p + " line " + std::to_string(tp->fr[i].f->code[tp->fr[i].pc].line) + "\n";
      }
    }
    return r;
  }
  std::vector<std::string> names() { std::vector<std::string> n; for (auto& v : vars) n.push_back(v.name); return n; }
  void report(const std::string& kind, const std::string& msg, const std::vector<u64>& model, bool fullTrace) {
    std::string key = S.entries[cur.entry] + "|" + kind + "|" + msg;
    Violation v;
    v.entry = cur.entry; v.kind = kind; v.msg = msg; v.where = locStr(); v.stack = stackStr();
    v.dm = model; v.cm = cm; v.names = names(); v.log = log; v.sched = sched;
    v.dm.resize(vars.size(), 0);
    if (replaying) {
      if (fullTrace && replayOut) { *replayOut = v; replayOut->confirmed = true; }
      return;
    }
    std::lock_guard<std::mutex> g(S.mu);
    S.violCount[cur.entry]++;
    if (S.vkeys.insert(key).second) {
      v.confirmed = fullTrace;
      S.viol.push_back(v);
    }
  }
  [[noreturn]] void fail(const std::string& kind, const std::string& msg) {
    report(kind, msg, dm, true);
    throw PathEnd{2};
  }
  [[noreturn]] void fault(u64 ad, u64 n, bool wr) {
    u64 id = ad >> 32;
    std::string acc = wr ? "write" : "read";
    if (id == 0) fail("memory", "null pointer " + acc);
    if (id >= objs.size()) fail("memory", "wild pointer " + acc);
    Obj& o = objs[id];
    if (o.st == S_FREED) fail("memory", "use after free (" + acc + ")");
    if (o.st == S_DEADSTK) fail("memory", "use of dead stack object (" + acc + ")");
    if (o.ro && wr) fail("memory", "write to constant");
    fail("memory", "out of bounds " + acc);
  }
  inline Obj& chk(u64 ad, u64 n, bool wr) {
    u64 id = ad >> 32;
    u32 off = (u32)ad;
    if (__builtin_expect(id >= objs.size() || id == 0, 0)) fault(ad, n, wr);
    Obj& o = objs[id];
    if (__builtin_expect(!o.p || (u64)off + n > o.size || (wr && o.ro), 0)) fault(ad, n, wr);
    return o;
  }
  static inline u64 rd(const u8* p, unsigned n) {
    u64 v = 0;
    switch (n) {
      case 8: memcpy(&v, p, 8); return v;
      case 4: { u32 x; memcpy(&x, p, 4); return x; }
      case 1: return *p;
      case 2: { uint16_t x; memcpy(&x, p, 2); return x; }
      default: memcpy(&v, p, n); return v;
    }
  }
  Val loadV(u64 ad, unsigned w) {
    unsigned n = (w + 7) / 8;
    Obj& o = chk(ad, n, false);
    u32 off = (u32)ad;
    Val r{rd(o.p + off, n) & maskw(w), nullptr};
    if (__builtin_expect(o.sh != nullptr, 0)) r.e = loadSym(o, off, n, w);
    return r;
  }
  Expr* loadSym(Obj& o, u32 off, unsigned n, unsigned w) {
    bool any = false;
    for (unsigned i = 0; i < n; i++) any |= o.sh[off + i].e != nullptr;
    if (!any) return nullptr;
    Expr* f = o.sh[off].e;
    Expr* r = nullptr;
    bool whole = f && f->w == n * 8;
    if (whole) for (unsigned i = 0; i < n; i++) if (o.sh[off + i].e != f || o.sh[off + i].i != i) { whole = false; break; }
    if (whole) r = f;
    else for (unsigned i = 0; i < n; i++) {
      ShB& b = o.sh[off + i];
      Expr* x = b.e ? pool.extract(b.e, b.i * 8u, 8) : pool.cst(o.p[off + i], 8);
      r = r ? pool.concat(x, r) : x;
    }
    if (r->w != w) r = pool.extract(r, 0, w);
    return Pool::isc(r) ? nullptr : r;
  }
  void storeV(u64 ad, unsigned w, Val v) {
    unsigned n = (w + 7) / 8;
    Obj& o = chk(ad, n, true);
    u32 off = (u32)ad;
    u64 c = v.c & maskw(w);
    memcpy(o.p + off, &c, n);
    if (__builtin_expect(v.e != nullptr, 0)) {
      Expr* e = v.e;
      if (e->w != n * 8) e = pool.ext(O_ZEXT, e, n * 8);
      if (!o.sh) {
        o.sh = (ShB*)bump(sizeof(ShB) * (o.size + 1));
        memset(o.sh, 0, sizeof(ShB) * o.size);
        if (o.st == S_GLOB) dirtySh.push_back((u32)(ad >> 32));
      }
      for (unsigned i = 0; i < n; i++) { o.sh[off + i].e = e; o.sh[off + i].i = (u8)i; }
    } else if (__builtin_expect(o.sh != nullptr, 0)) {
      for (unsigned i = 0; i < n; i++) o.sh[off + i].e = nullptr;
    }
  }
  std::vector<u32> dirtySh;
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    chk(s, n, false);
    Obj& od = chk(d, n, true);
    Obj& os = objs[s >> 32];
    u32 a = (u32)d, b = (u32)s;
    memmove(od.p + a, os.p + b, n);
    if (os.sh) {
      if (!od.sh) {
        od.sh = (ShB*)bump(sizeof(ShB) * (od.size + 1));
        memset(od.sh, 0, sizeof(ShB) * od.size);
        if (od.st == S_GLOB) dirtySh.push_back((u32)(d >> 32));
      }
      memmove(od.sh + a, os.sh + b, n * sizeof(ShB));
    } else if (od.sh) memset(od.sh + a, 0, n * sizeof(ShB));
  }
  void setMem(u64 d, Val v, u64 n) {
    if (!n) return;
    Obj& o = chk(d, n, true);
    memset(o.p + (u32)d, (int)(u8)v.c, n);
    if (v.e) for (u64 i = 0; i < n; i++) storeV(d + i, 8, v);
    else if (o.sh) memset(o.sh + (u32)d, 0, n * sizeof(ShB));
  }
  std::string cstr(u64 ad) {
    std::string s;
    for (;;) {
      Obj& o = chk(ad, 1, false);
      char c = (char)o.p[(u32)ad];
      if (!c) break;
      s += c;
      ad++;
    }
    return s;
  }

  // ---------------------------------------------------------------- race detection
  void raceHit(Rec* r, bool wr) {
    std::string a = thr[curT]->fr.back().f->pretty(), b = r->f ? r->f->pretty() : "?";
    auto cut = [](std::string s) { return s.size() > 160 ? s.substr(0, 160) + "..." : s; };
    curMsg = std::string(wr ? "write" : "read") + " in " + cut(a) + ":" + std::to_string(thr[curT]->fr.back().f->code[thr[curT]->fr.back().pc].line) +
             " unordered with " + ((r->fl & 1) ? "write" : "read") + " in " + cut(b) + ":" + std::to_string(r->line);
    fprintf(stderr, "  [race] %s\n", curMsg.c_str());
    fail("race", "data race");
  }
  void race(u64 ad, u64 n, bool wr, bool atomic) {
    Obj& o = objs[ad >> 32];
    Thread& t = *thr[curT];
    u32 off = (u32)ad;
    if (!o.rc) {
      size_t words = (o.size + 7) / 8;
      o.rc = (Rec**)bump(words * 8 + 8);
      memset(o.rc, 0, words * 8);
      if (o.st == S_GLOB) dirtyRc.push_back((u32)(ad >> 32));
    }
    es->events++;
    while (n) {
      u32 wd = off / 8, bo = off % 8;
      u32 l = std::min<u64>(n, 8 - bo);
      u8 fl = (wr ? 1 : 0) | (atomic ? 2 : 0);
      Rec* same = nullptr;
      for (Rec** pp = &o.rc[wd]; *pp;) {
        Rec* r = *pp;
        bool overlap = r->off < bo + l && bo < (u32)r->off + r->len;
        if (overlap && r->tid != t.id && ((r->fl | fl) & 1) && !((r->fl & fl) & 2) && r->clk > t.vc.v[r->tid]) raceHit(r, wr);
        if (r->tid == t.id && r->off == bo && r->len == l && r->fl == fl) { same = r; }
        else if (wr && !atomic && r->off >= bo && r->off + r->len <= bo + l && (r->tid == t.id || r->clk <= t.vc.v[r->tid])) { *pp = r->next; continue; }
        pp = &r->next;
      }
      if (same) { same->clk = t.vc.v[t.id]; same->f = t.fr.back().f; same->line = t.fr.back().f->code[t.fr.back().pc].line; }
      else {
        Rec* r = (Rec*)bump(sizeof(Rec));
        r->tid = (u8)t.id; r->off = (u8)bo; r->len = (u8)l; r->fl = fl; r->clk = t.vc.v[t.id]; r->next = o.rc[wd];
        r->f = t.fr.back().f; r->line = r->f->code[t.fr.back().pc].line;
        o.rc[wd] = r;
      }
      off += l; n -= l;
    }
  }
  std::vector<u32> dirtyRc;

  // ---------------------------------------------------------------- solver
  struct QRes { int r; std::vector<std::pair<u32, u64>> vals; };
  std::unordered_map<std::string, QRes> qcache;
  int query(Expr* cond, std::vector<u64>* model) {  // pc /\ cond satisfiable?
    if (Pool::isc(cond)) {
      if (!cond->k) return 0;
      if (model) *model = dm;
      return 1;
    }
    u64 vs[VW];
    memcpy(vs, cond->vs, sizeof vs);
    std::vector<Expr*> cs;
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (in[i]) continue;
        bool hit = false;
        for (int k = 0; k < VW; k++) hit |= (pc[i]->vs[k] & vs[k]) != 0;
        if (!hit) continue;
        in[i] = 1; ch = true;
        for (int k = 0; k < VW; k++) vs[k] |= pc[i]->vs[k];
      }
    }
    std::set<u32> ids;
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) { cs.push_back(pc[i]); ids.insert(pc[i]->id); }
    cs.push_back(cond);
    ids.insert(cond->id);
    std::string key;
    for (u32 i : ids) key.append((char*)&i, 4);
    auto it = qcache.find(key);
    if (it == qcache.end()) {
      std::vector<Expr*> vv;
      std::vector<u32> vi;
      for (u32 i = 0; i < vars.size(); i++)
        if (vs[i / 64] >> (i % 64) & 1) { vv.push_back(pool.var(i, vars[i].w)); vi.push_back(i); }
      std::vector<u64> out;
      QRes q;
      q.r = z.check(cs, vv, out);
      if (q.r == 1) for (size_t i = 0; i < vi.size(); i++) q.vals.push_back({vi[i], vars[vi[i]].sgn ? (u64)sext(out[i], vars[vi[i]].w) : out[i]});
      if (q.r < 0) throw Fatal{"solver returned unknown (timeout)"};
      it = qcache.emplace(key, std::move(q)).first;
    } else z.st.cached++;
    if (it->second.r == 1 && model) {
      *model = dm;
      for (auto& p : it->second.vals) (*model)[p.first] = p.second;
    }
    return it->second.r;
  }
  void addpc(Expr* e) {
    if (Pool::isc(e)) return;
    if (pcset.insert(e).second) pc.push_back(e);
  }
  void pushItem(std::vector<u64> m, std::vector<u8> c, u32 bound) {
    if (replaying) return;
    Item it;
    it.entry = cur.entry; it.bound = bound; it.dm = std::move(m); it.cm = std::move(c); it.concr = cur.concr;
    local.push_back(std::move(it));
  }
  // a symbolic decision: `taken` holds under the current model; alternatives are queried
  void decide(Expr* taken, Expr* const* alts, size_t nalts) {
    if (Pool::isc(taken) || pcset.count(taken)) return;
    u32 idx = nbranch++;
    es->branches++;
    if (idx >= cur.bound && !replaying)
      for (size_t i = 0; i < nalts; i++) {
        std::vector<u64> m;
        if (query(alts[i], &m) == 1) pushItem(m, cm, idx + 1);
      }
    addpc(taken);
  }
  bool branch(Val v) {
    if (!v.e) return v.c & 1;
    Expr* t = (v.c & 1) ? v.e : pool.lnot(v.e);
    Expr* a = (v.c & 1) ? pool.lnot(v.e) : v.e;
    decide(t, &a, 1);
    return v.c & 1;
  }
  u64 concretize(Val v, unsigned w) {
    if (!v.e) return v.c;
    for (;;) {
      Expr* eqc = pool.bin(O_EQ, v.e, pool.cst(v.c, w));
      if (Pool::isc(eqc) || pcset.count(eqc)) return v.c;
      u32 idx = nbranch;
      const u64* tried = nullptr;
      for (auto& p : cur.concr) if (p.first == idx) tried = &p.second;
      if (tried) {
        Expr* ne = pool.lnot(pool.bin(O_EQ, v.e, pool.cst(*tried, w)));
        if (*tried == v.c) {  // same value again: cannot happen unless the excluded constraint was not implied
          throw Fatal{"concretisation replay mismatch"};
        }
        nbranch++;
        addpc(ne);
        continue;
      }
      nbranch++;
      es->branches++;
      if (idx >= cur.bound && !replaying) {
        std::vector<u64> m;
        if (query(pool.lnot(eqc), &m) == 1) {
          pushItem(m, cm, idx + 1);
          local.back().concr.push_back({idx, v.c});
        }
      }
      addpc(eqc);
      return v.c;
    }
  }
  void assume(Val c) {
    if (!c.e) {
      if (!(c.c & 1)) throw PathEnd{1};
      return;
    }
    if (c.c & 1) {
      if (pcset.count(c.e)) return;
      nbranch++;  // alternatives are excluded by the assumption
      addpc(c.e);
      return;
    }
    u32 idx = nbranch;
    if (idx >= cur.bound && !replaying) {
      std::vector<u64> m;
      if (query(c.e, &m) == 1) pushItem(m, cm, idx + 1);
    }
    throw PathEnd{1};
  }
  void check(Val c, const std::string& msg) {
    es->asserts++;
    if (!(c.c & 1)) {
      report("assert", msg, dm, true);
      if (!c.e) throw PathEnd{2};
      // continue exploring the part where it holds
      u32 idx = nbranch;
      if (idx >= cur.bound && !replaying) {
        std::vector<u64> m;
        if (query(c.e, &m) == 1) pushItem(m, cm, idx + 1);
      }
      throw PathEnd{2};
    }
    if (!c.e) return;
    if (pcset.count(c.e)) return;
    u32 idx = nbranch++;
    if (idx >= cur.bound && !replaying) {
      std::vector<u64> m;
      es->assertq++;
      if (query(pool.lnot(c.e), &m) == 1) report("assert", msg, m, false);
    }
    addpc(c.e);
  }
  unsigned choose(unsigned n) {  // schedule choice
    if (n <= 1) return 0;
    u32 ci = chIdx++;
    u8 v = ci < cm.size() ? cm[ci] : 0;
    if (ci >= cm.size()) cm.resize(ci + 1, 0);
    if (v >= n) throw Fatal{"schedule replay mismatch"};
    u32 idx = nbranch++;
    es->choices++;
    if (idx >= cur.bound && !replaying)
      for (unsigned k = n; k-- > 0;) {
        if (k == v) continue;
        std::vector<u8> c(cm.begin(), cm.begin() + ci);
        c.push_back((u8)k);
        std::vector<u64> m(dm.begin(), dm.begin() + vars.size());
        pushItem(m, c, idx + 1);
      }
    return v;
  }
  u32 chIdx = 0;

  Val newVar(const std::string& name, unsigned w, bool sgn, u64 lo, u64 hi) {
    u32 i = (u32)vars.size();
    if (i >= VW * 64) throw Fatal{"too many symbolic inputs"};
    // the narrowest variable that covers [lo, hi]
    if (sgn && (i64)lo >= 0) sgn = false;
    unsigned nb = 1;
    if (sgn) while (nb < w && !((i64)lo >= -(i64)(1ull << (nb - 1)) && (i64)hi <= (i64)((1ull << (nb - 1)) - 1))) nb++;
    else while (nb < w && hi > maskw(nb)) nb++;
    vars.push_back({name, (u8)nb, sgn, lo, hi});
    if (i >= dm.size()) dm.push_back(lo & maskw(w));
    u64 v = dm[i] & maskw(w);
    if (lo == hi) return {lo & maskw(w), nullptr};
    Expr* e = pool.ext(sgn ? O_SEXT : O_ZEXT, pool.var(i, nb), w);
    bool full = sgn ? ((i64)lo == sext(1ull << (nb - 1), nb) && hi == maskw(nb - 1)) : (lo == 0 && hi == maskw(nb));
    if (!full) {
      addpc(pool.bin(sgn ? O_SLE : O_ULE, pool.cst(lo, w), e));
      addpc(pool.bin(sgn ? O_SLE : O_ULE, e, pool.cst(hi, w)));
    }
    return {v, e};
  }

  // ---------------------------------------------------------------- path set-up
  void reset() {
    for (u32 id : dirtySh) objs[id].sh = nullptr;
    for (u32 id : dirtyRc) objs[id].rc = nullptr;
    dirtySh.clear(); dirtyRc.clear();
    objs.resize(P.globals.size() + 1);
    for (size_t i = 0; i < P.globals.size(); i++) {
      auto& g = P.globals[i];
      if (!g.ro) memcpy(objs[i + 1].p, g.bytes.data(), g.bytes.size());
    }
    blk = boff = 0;
    for (auto b : bigs) free(b);
    bigs.clear();
    for (auto& f : freel) f.clear();
    vars.clear(); pc.clear(); pcset.clear();
    nbranch = 0; chIdx = 0; icount = 0;
    for (auto& t : thr) regPool.push_back(t->regs);
    thr.clear();
    curT = 0; budget = S.opt.preempt; mt = timedEarly = false; raceOn = true; aliveT = 1; gstep = 1; ops = 0;
    mutexes.clear(); atoms.clear(); condvc.clear(); excTi.clear();
    log.clear(); sched.clear(); covers.clear();
    heapLive = 0;
    if (pool.arena.size() > 3000000) throw Fatal{"expression pool exhausted"};
  }
  Thread& newThread() {
    auto t = std::make_unique<Thread>();
    t->id = (int)thr.size();
    if (t->id >= MAXT) throw Fatal{"more than 8 threads on a path"};
    if (regPool.empty()) {
      void* m = mmap(nullptr, sizeof(Val) << 19, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) throw Fatal{"mmap"};
      t->regs = (Val*)m;
    } else { t->regs = regPool.back(); regPool.pop_back(); }
    t->vc.clear(); t->acqPend.clear(); t->relF.clear();
    t->vc.v[t->id] = 1;
    thr.push_back(std::move(t));
    return *thr.back();
  }
  void pushFrame(Thread& t, Func* f) {
    if (!f->defined) throw Fatal{"unresolved external " + f->name};
    u32 base = t.fr.empty() ? 0 : t.fr.back().base + t.fr.back().f->nslots;
    if (base + f->nslots + 64 >= (1u << 19) || t.fr.size() > 6000) fail("bound", "unbounded recursion (6000 frames)");
    t.fr.push_back({f, 0, base, (u32)t.allocas.size()});
    used[f->idx] = 1;
  }
  void popFrame(Thread& t) {
    Frame& f = t.fr.back();
    while (t.allocas.size() > f.amark) { u32 id = t.allocas.back(); t.allocas.pop_back(); killObj(id, S_DEADSTK); }
    t.fr.pop_back();
  }

  // ---------------------------------------------------------------- exceptions
  bool canCatch(u64 c, u64 t, i64& adj, int depth = 0) {
    if (!c || c == t) return true;
    if (depth > 8) return false;
    u64 vt = loadV(t, 64).c;
    if (vt == P.tSI) return canCatch(c, loadV(t + 16, 64).c, adj, depth + 1);
    if (vt == P.tVMI) {
      u64 n = loadV(t + 20, 32).c;
      for (u64 i = 0; i < n; i++) {
        u64 b = loadV(t + 24 + 16 * i, 64).c;
        i64 of = (i64)loadV(t + 32 + 16 * i, 64).c;
        i64 a2 = adj + (of >> 8);
        if (canCatch(c, b, a2, depth + 1)) { adj = a2; return true; }
      }
    }
    return false;
  }
  void unwind(Thread& t, u64 obj, bool fromResume) {
    u64 ti = excTi[obj];
    if (!fromResume) {
      bool found = false;
      for (int i = (int)t.fr.size() - 1; i >= 0 && !found; i--) {
        In& in = t.fr[i].f->code[t.fr[i].pc];
        if (in.op != I_CALL) continue;
        auto* ci = (CallInfo*)in.x;
        if (!ci->invoke) continue;
        for (auto& cl : ci->lp->cl) {
          i64 adj = 0;
          if (cl.filter) {
            bool ok = false;
            for (u64 x : cl.ti) ok |= canCatch(x, ti, adj);
            if (!ok) fail("terminate", "exception violates an exception specification");
          } else if (canCatch(cl.ti[0], ti, adj)) { found = true; break; }
        }
      }
      if (!found) fail("terminate", "uncaught exception: std::terminate");
    } else popFrame(t);
    for (;;) {
      if (t.fr.empty()) fail("terminate", "uncaught exception: std::terminate");
      Frame& f = t.fr.back();
      In& in = f.f->code[f.pc];
      if (in.op == I_CALL) {
        auto* ci = (CallInfo*)in.x;
        if (ci->invoke) {
          bool land = ci->lp->cleanup;
          int sel = 0;
          for (auto& cl : ci->lp->cl) {
            i64 adj = 0;
            if (!cl.filter && canCatch(cl.ti[0], ti, adj)) {
              sel = P.typeIds.at(cl.ti[0]);
              land = true;
              storeV(obj - 8, 64, {obj + (u64)adj, nullptr});
              break;
            }
          }
          if (land) {
            Val* R = t.regs + f.base;
            takeEdge(t, ci->unwind);
            R[ci->lp->d] = {obj, nullptr};
            R[ci->lp->d + 1] = {(u64)(u32)sel, nullptr};
            return;
          }
        }
      }
      popFrame(t);
    }
  }
  void takeEdge(Thread& t, Edge& e) {
    Frame& f = t.fr.back();
    Val* R = t.regs + f.base;
    size_t n = e.copies.size();
    if (n == 1) R[e.copies[0].d] = get(R, e.copies[0].s);
    else if (n) {
      Val tmp[64];
      std::vector<Val> big;
      Val* tp = tmp;
      if (n > 64) { big.resize(n); tp = big.data(); }
      for (size_t i = 0; i < n; i++) tp[i] = get(R, e.copies[i].s);
      for (size_t i = 0; i < n; i++) R[e.copies[i].d] = tp[i];
    }
    f.pc = e.pc;
  }
  inline Val get(Val* R, int o) { return o >= 0 ? R[o] : P.consts[~o]; }
  Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : pool.cst(v.c, w); }

  // ---------------------------------------------------------------- scheduling
  bool mutexFree(u64 m, int me) { auto it = mutexes.find(m); return it == mutexes.end() || it->second.owner < 0 || it->second.owner == me; }
  bool enabled(Thread& t) {
    switch (t.st) {
      case T_RUN: return t.spinG != gstep;
      case T_MUTEX: return mutexFree(t.wmutex, t.id);
      case T_JOIN: return thr[t.wjoin]->st == T_DONE;
      case T_JOINALL: for (auto& o : thr) if (o->id != t.id && o->st != T_DONE) return false; return true;
      case T_COND: return t.signaled && mutexFree(t.wmutex, t.id);
      default: return false;
    }
  }
  bool timedReady(Thread& t) { return (t.st == T_SLEEP) || (t.st == T_COND && t.timed && !t.signaled && mutexFree(t.wmutex, t.id)); }
  enum Why { W_POINT, W_YIELD, W_BLOCK, W_DONE };
  // picks the next thread; returns false when the path is over
  bool schedule(Why why) {
    std::vector<int> en, tm;
    for (auto& t : thr) {
      if (enabled(*t)) en.push_back(t->id);
      else if (timedReady(*t)) tm.push_back(t->id);
    }
    std::vector<int> opt;
    size_t nfree;
    if (why == W_POINT) {
      opt.push_back(curT);
      if (budget > 0) for (int i : en) if (i != curT) opt.push_back(i);
      nfree = 1;
    } else {
      for (int i : en) if (!(i == curT && why == W_YIELD)) opt.push_back(i);
      if (opt.empty() && why == W_YIELD && enabled(*thr[curT])) opt.push_back(curT);
      nfree = opt.size();
    }
    if (timedEarly && budget > 0 && !opt.empty()) for (int i : tm) opt.push_back(i);
    if (opt.empty()) {
      if (!tm.empty()) {
        // time passes up to the earliest deadline; deadlines may be symbolic
        auto cmp = [&](Op o, const Val& a, const Val& b) {
          bool c = o == O_EQ ? a.c == b.c : (i64)a.c < (i64)b.c;
          if (!a.e && !b.e) return c;
          return branch(Val{c, pool.bin(o, ex(a, 64), ex(b, 64))});
        };
        for (int i : tm) {
          if (opt.empty() || cmp(O_SLT, thr[i]->deadline, thr[opt[0]]->deadline)) { opt.assign(1, i); continue; }
          if (cmp(O_EQ, thr[i]->deadline, thr[opt[0]]->deadline)) opt.push_back(i);
        }
        nfree = opt.size();
      } else {
        Thread* best = nullptr;
        for (auto& o : thr) if (o->st == T_RUN && (!best || o->spRep < best->spRep)) best = o.get();
        if (!best) fail("deadlock", "threads blocked forever");
        if (best->spRep > 300) fail("livelock", "a thread spins forever and nothing else can run");
        opt.push_back(best->id);
        nfree = 1;
      }
    }
    unsigned k = choose((unsigned)opt.size());
    int nx = opt[k];
    if (k >= nfree) budget--;
    if (nx != curT || why == W_BLOCK || why == W_DONE) { sched.push_back((int)ops); sched.push_back(nx); }
    Thread& t = *thr[nx];
    if (t.st == T_SLEEP) { t.st = T_RUN; t.woke = true; }
    else if (t.st == T_COND) { if (!t.signaled) { t.timedout = true; } t.st = T_RUN; t.woke = true; }
    else if (t.st != T_RUN) t.st = T_RUN;
    t.noPoint = true;
    curT = nx;
    return true;
  }
  // records a read-only atomic operation; true when the thread is spinning and must let others run
  bool spin(Thread& t, const void* pc, u64 ad, u64 val, int limit) {
    if (t.spPc == (u64)(uintptr_t)pc && t.spAd == ad && t.spVal == val && t.spStep == gstep) {
      t.spRep++;
      if (t.spRep >= limit) { t.spinG = gstep; return true; }
    } else { t.spPc = (u64)(uintptr_t)pc; t.spAd = ad; t.spVal = val; t.spStep = gstep; t.spRep = 0; }
    return false;
  }
  bool repeating(Thread& t, const void* pc) { return t.spPc == (u64)(uintptr_t)pc && t.spStep == gstep && t.spRep >= 1; }

  bool isAcq(int o) { return o == (int)AtomicOrdering::Acquire || o == (int)AtomicOrdering::AcquireRelease || o == (int)AtomicOrdering::SequentiallyConsistent; }
  bool isRel(int o) { return o == (int)AtomicOrdering::Release || o == (int)AtomicOrdering::AcquireRelease || o == (int)AtomicOrdering::SequentiallyConsistent; }
  void hbLoad(Thread& t, u64 ad, int ord) {
    auto it = atoms.find(ad);
    if (it == atoms.end() || !it->second.has) return;
    if (isAcq(ord)) t.vc.join(it->second.rel);
    else t.acqPend.join(it->second.rel);
  }
  void hbStore(Thread& t, u64 ad, int ord, bool rmw) {
    Atom& a = atoms[ad];
    if (!rmw) { a.rel.clear(); a.has = false; }
    if (!a.has) a.rel.clear();
    if (isRel(ord)) { a.rel.join(t.vc); a.has = true; t.vc.v[t.id]++; }
    else if (t.hasRelF) { a.rel.join(t.relF); a.has = true; }
  }
  // scheduling point before the current instruction; true = leave the interpreter loop
  inline bool point(Thread& t) {
    if (aliveT <= 1) return false;
    if (t.noPoint) { t.noPoint = false; return false; }
    if (budget <= 0) return false;
    return true;
  }

  void runPath(const Item& it) {
    reset();
    cur = it;
    dm = it.dm;
    cm = it.cm;
    es = &st[it.entry];
    Thread& t0 = newThread();
    Func* f = P.byName[S.entries[it.entry]];
    int why = 0;
    try {
      for (Func* c : P.ctors) {
        pushFrame(t0, c);
        loop();
        t0.st = T_RUN;
      }
      ops = 0;
      pushFrame(t0, f);
      loop();
      if (!replaying) sampleMaybe();
    } catch (PathEnd& p) { why = p.why; }
    es->instrs += icount;
    if (icount > es->maxpath) es->maxpath = icount;
    if (thr.size() > es->maxthreads) es->maxthreads = thr.size();
    if (vars.size() > es->maxvars) es->maxvars = vars.size();
    if (why == 0 || why == 2) es->paths++;
    else if (why == 1) es->dropped++;
    else es->bounded++;
    if (why == 0) for (auto& c : covers) es->covers.insert(c);
  }
  void sampleMaybe() {
    u64 n = es->paths;
    bool take = (n & (n - 1)) == 0 || n % 997 == 0;
    if (!take) return;
    std::lock_guard<std::mutex> g(S.mu);
    int c = 0;
    for (auto& s : S.samples) c += s.entry == cur.entry;
    if (c >= S.opt.samples) return;
    std::vector<u64> m = dm;
    m.resize(vars.size(), 0);
    S.samples.push_back({cur.entry, m, cm, log, sched, names()});
  }
  void loop() {
    for (;;) {
      Thread& t = *thr[curT];
      Why w = exec(t);
      if (w == W_DONE) {
        t.st = T_DONE;
        if (t.id == 0) return;
        aliveT--;
        gstep++;
      }
      schedule(w);
    }
  }

  // ---------------------------------------------------------------- interpreter
  Why exec(Thread& t);
  // natives: 0 = done, 1 = frame changed (continue), 2 = switch
  int native(Thread& t, int id, CallInfo* ci, Val* a, Val& ret, Why& w);
  void bindNatives();
  void explore();
};

}  // namespace sx
