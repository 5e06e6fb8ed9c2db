// LLVM IR -> compact register code for the symbolic interpreter.
#pragma once
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <memory>
#include "expr.h"

namespace sx {
using namespace llvm;

struct Val { u64 c; Expr* e; };

enum Code : u8 {
  I_NOP, I_MOV, I_BIN, I_CMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
  I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_RESUME, I_UNREACH, I_ALOAD, I_ASTORE, I_RMW, I_CMPXCHG, I_FENCE,
  I_MEMCPY, I_MEMSET, I_OVF, I_MINMAX, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_FSH, I_SAT, I_TYPEID, I_TLS,
  I_FBIN, I_FCMP, I_FPCONV, I_TRAP, I_UNSUP
};

struct Copy { int d, s; };
struct Edge { u32 pc = 0; std::vector<Copy> copies; };
struct GepTerm { int r; u8 w; i64 scale; };
struct Leaf { u64 off; u8 w; };

struct Func;
struct LPad { bool cleanup; struct Cl { bool filter; std::vector<u64> ti; }; std::vector<Cl> cl; int d; };
struct CallInfo {
  Func* f = nullptr;
  int fop = 0;
  std::vector<int> args;
  std::vector<std::pair<int, u64>> byval;  // arg slot index, size
  int d = -1;
  u8 nret = 0;
  bool invoke = false;
  Edge normal, unwind;
  LPad* lp = nullptr;
};
struct SwitchInfo { std::vector<std::pair<u64, Edge>> cases; Edge def; };

struct In {
  u8 op, w, w2, fl;
  int d, a, b, c;
  u64 imm;
  void* x;
  u32 line;
  u32 file = 0;
};

#ifdef COVLINES
inline std::vector<std::string> covFiles{""};
inline std::vector<unsigned char> covHit(2048u << 13);
#endif
struct Func {
  std::string name;
  llvm::Function* F = nullptr;
  u32 idx = 0;
  bool compiled = false, defined = false, inst = false;
  int native = -1;
  u32 nargs = 0, nslots = 0;
  std::vector<In> code;
  std::string pretty() const { return llvm::demangle(name); }
};

struct GInit { u64 id; std::vector<u8> bytes; bool ro; bool tls; std::string name; };

struct Prog {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL = nullptr;
  std::vector<std::unique_ptr<Func>> funcs;  // object id = FUNC_BASE + idx
  std::map<std::string, Func*> byName;
  DenseMap<const llvm::Function*, Func*> fmap;
  DenseMap<const GlobalVariable*, u32> gid;  // -> object id
  std::vector<GInit> globals;                // object id = idx + 1
  std::vector<Val> consts;
  std::map<u64, int> constIdx;
  std::map<u64, int> typeIds;  // typeinfo address -> selector
  std::string unsup;
  std::vector<Func*> ctors;
  u64 tSI = 0, tVMI = 0, tCLASS = 0;
  static constexpr u64 FUNC_BASE = 0x40000000ull;

  [[noreturn]] void die(const std::string& s) { fprintf(stderr, "engine: %s\n", s.c_str()); exit(70); }

  static std::string str(const llvm::Value* v) {
    std::string s; raw_string_ostream o(s); v->print(o); return s;
  }

  void flat(Type* t, u64 off, std::vector<Leaf>& out) {
    if (auto* it = dyn_cast<IntegerType>(t)) {
      if (it->getBitWidth() > 64) {
        if (it->getBitWidth() == 128) { out.push_back({off, 64}); out.push_back({off + 8, 64}); return; }
        die("integer wider than 128");
      }
      out.push_back({off, (u8)it->getBitWidth()});
    } else if (t->isPointerTy()) out.push_back({off, 64});
    else if (t->isDoubleTy()) out.push_back({off, 64});
    else if (t->isFloatTy()) out.push_back({off, 32});
    else if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      u64 sz = DL->getTypeAllocSize(at->getElementType());
      for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * sz, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      u64 sz = DL->getTypeSizeInBits(vt->getElementType()) / 8;
      if (!sz) { sz = 1; }
      for (u64 i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * sz, out);
    } else if (t->isX86_FP80Ty()) out.push_back({off, 64});
    else if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {}
    else { std::string s; raw_string_ostream o(s); t->print(o); die("unsupported type " + s); }
  }
  std::vector<Leaf> flat(Type* t) { std::vector<Leaf> v; flat(t, 0, v); return v; }
  unsigned nleaf(Type* t) { return (unsigned)flat(t).size(); }

  int cidx(u64 v) {
    auto it = constIdx.find(v);
    if (it != constIdx.end()) return it->second;
    int i = ~(int)consts.size();
    consts.push_back({v, nullptr});
    constIdx[v] = i;
    return i;
  }
  u64 addrOf(const GlobalValue* g) {
    if (auto* a = dyn_cast<GlobalAlias>(g)) return constLeaf(const_cast<Constant*>(a->getAliasee()));
    if (auto* f = dyn_cast<llvm::Function>(g)) return (FUNC_BASE + fn(f)->idx) << 32;
    auto* gv = cast<GlobalVariable>(g);
    return (u64)glob(gv) << 32;
  }
  u32 glob(const GlobalVariable* gv) {
    auto it = gid.find(gv);
    if (it != gid.end()) return it->second;
    u32 id = (u32)globals.size() + 1;
    gid[gv] = id;
    GInit g;
    g.id = id; g.ro = gv->isConstant(); g.tls = gv->isThreadLocal(); g.name = gv->getName().str();
    u64 sz = gv->hasInitializer() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 4096;
    g.bytes.assign(sz, 0);
    globals.push_back(std::move(g));
    if (gv->hasInitializer()) pendingInit.push_back(gv);
    u64 ad = (u64)id << 32;
    if (gv->getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") tSI = ad + 16;
    if (gv->getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tVMI = ad + 16;
    if (gv->getName() == "_ZTVN10__cxxabiv117__class_type_infoE") tCLASS = ad + 16;
    if (!gv->hasInitializer() && !gv->getName().starts_with("_ZTVN10__cxxabiv1")) extGlobals.push_back(gv->getName().str());
    return id;
  }
  std::vector<const GlobalVariable*> pendingInit;
  std::vector<std::string> extGlobals;
  void drainInit() {
    while (!pendingInit.empty()) {
      auto* gv = pendingInit.back();
      pendingInit.pop_back();
      std::vector<u8> b(globals[gid[gv] - 1].bytes.size(), 0);
      initBytes(gv->getInitializer(), b, 0);
      globals[gid[gv] - 1].bytes = b;
    }
  }
  void put(std::vector<u8>& b, u64 off, u64 v, unsigned w) {
    unsigned n = (w + 7) / 8;
    for (unsigned i = 0; i < n; i++) b.at(off + i) = (u8)(v >> (8 * i));
  }
  void initBytes(const Constant* c, std::vector<u8>& b, u64 off) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(s->getType());
      for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(s->getOperand(i), b, off + sl->getElementOffset(i));
    } else if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
      Type* et = c->getType()->isArrayTy() ? c->getType()->getArrayElementType() : cast<VectorType>(c->getType())->getElementType();
      u64 sz = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < c->getNumOperands(); i++) initBytes(cast<Constant>(c->getOperand(i)), b, off + i * sz);
    } else if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
      u64 sz = d->getElementByteSize();
      for (unsigned i = 0; i < d->getNumElements(); i++) initBytes(d->getElementAsConstant(i), b, off + i * sz);
    } else {
      auto ls = flat(c->getType());
      std::vector<u64> vs;
      constVals(c, vs);
      for (size_t i = 0; i < ls.size(); i++) put(b, off + ls[i].off, vs[i], ls[i].w);
    }
  }
  u64 constLeaf(const Constant* c) { std::vector<u64> v; constVals(c, v); return v.at(0); }
  void constVals(const Constant* c, std::vector<u64>& out) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
      unsigned n = nleaf(c->getType());
      for (unsigned i = 0; i < n; i++) out.push_back(0);
    } else if (auto* ci = dyn_cast<ConstantInt>(c)) {
      const APInt& a = ci->getValue();
      out.push_back(a.getRawData()[0]);
      if (a.getBitWidth() > 64) out.push_back(a.getRawData()[1]);
    } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (c->getType()->isX86_FP80Ty()) {
        bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        out.push_back(f.bitcastToAPInt().getZExtValue());
      } else out.push_back(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    } else if (auto* gv = dyn_cast<GlobalValue>(c)) out.push_back(addrOf(gv));
    else if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
      for (unsigned i = 0; i < ds->getNumElements(); i++) constVals(ds->getElementAsConstant(i), out);
    } else if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
      for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), out);
    } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep");
          out.push_back(constLeaf(ce->getOperand(0)) + (u64)off.getSExtValue());
          return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: {
          u64 v = constLeaf(ce->getOperand(0));
          if (ce->getType()->isIntegerTy()) v &= maskw(ce->getType()->getIntegerBitWidth());
          out.push_back(v);
          return;
        }
        case Instruction::Add: out.push_back(constLeaf(ce->getOperand(0)) + constLeaf(ce->getOperand(1))); return;
        case Instruction::Sub: out.push_back(constLeaf(ce->getOperand(0)) - constLeaf(ce->getOperand(1))); return;
        case Instruction::ICmp: {
          u64 a = constLeaf(ce->getOperand(0)), b = constLeaf(ce->getOperand(1));
          switch (ce->getPredicate()) {
            case CmpInst::ICMP_EQ: out.push_back(a == b); return;
            case CmpInst::ICMP_NE: out.push_back(a != b); return;
            default: break;
          }
        }
      }
      die("constexpr " + str(c));
    } else die("constant " + str(c));
  }

  Func* fn(const llvm::Function* f) {
    auto it = fmap.find(f);
    if (it != fmap.end()) return it->second;
    auto u = std::make_unique<Func>();
    u->F = const_cast<llvm::Function*>(f);
    u->name = f->getName().str();
    u->idx = (u32)funcs.size();
    u->defined = !f->isDeclaration();
    u->inst = f->hasFnAttribute(Attribute::SanitizeThread);
    Func* r = u.get();
    fmap[f] = r;
    byName[u->name] = r;
    funcs.push_back(std::move(u));
    return r;
  }

  void load(const std::string& path) {
    SMDiagnostic err;
    M = parseIRFile(path, err, ctx);
    if (!M) { err.print("engine", errs()); exit(70); }
    DL = &M->getDataLayout();
    // clang uses thread-local variables directly while it initialises them: make every use go through threadlocal.address
    for (auto& g : M->globals()) {
      if (!g.isThreadLocal()) continue;
      convertUsersOfConstantsToInstructions({&g});
      std::vector<Use*> us;
      for (auto& u : g.uses()) us.push_back(&u);
      for (Use* u : us) {
        auto* I = dyn_cast<Instruction>(u->getUser());
        if (!I) continue;
        if (auto* II = dyn_cast<IntrinsicInst>(I)) if (II->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
        auto* at = isa<PHINode>(I) ? cast<PHINode>(I)->getIncomingBlock(*u)->getTerminator() : I;
        IRBuilder<> b(at);
        u->set(b.CreateThreadLocalAddress(&g));
      }
    }
    for (auto& g : M->globals()) {
      if (g.getName() == "llvm.global_ctors") {
        std::vector<std::pair<u64, Func*>> cs;
        if (auto* ca = dyn_cast<ConstantArray>(g.getInitializer()))
          for (auto& op : ca->operands()) {
            auto* st = cast<ConstantStruct>(op);
            cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn(cast<llvm::Function>(st->getOperand(1)->stripPointerCasts()))});
          }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) ctors.push_back(c.second);
        continue;
      }
      if (g.getName().starts_with("llvm.")) continue;
      glob(&g);
    }
    for (auto& f : *M) fn(&f);
    drainInit();
    for (size_t i = 0; i < funcs.size(); i++)
      if (funcs[i]->defined) compile(funcs[i].get());
    drainInit();
  }

  // ---- function compilation
  struct Cx {
    Func* f;
    DenseMap<const Value*, int> slot;
    DenseMap<const BasicBlock*, u32> bb;
    std::vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> fix;
    u32 line = 0, file = 0;
  };
  std::vector<int> opnds(Cx& x, const Value* v) {
    std::vector<int> r;
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<u64> vs;
      constVals(c, vs);
      auto ls = flat(v->getType());
      for (size_t i = 0; i < vs.size(); i++) r.push_back(cidx(vs[i] & maskw(ls[i].w)));
    } else if (isa<MetadataAsValue>(v)) {}
    else {
      auto it = x.slot.find(v);
      if (it == x.slot.end()) die("no slot " + str(v));
      unsigned n = nleaf(v->getType());
      for (unsigned i = 0; i < n; i++) r.push_back(it->second + (int)i);
    }
    return r;
  }
  int op1(Cx& x, const Value* v) {
    auto r = opnds(x, v);
    if (r.size() != 1) die("operand not scalar: " + str(v) + " in " + x.f->name);
    return r[0];
  }
  In& emit(Cx& x, u8 op) {
    In i;
    memset(&i, 0, sizeof i);
    i.op = op; i.line = x.line; i.file = x.file;
    x.f->code.push_back(i);
    return x.f->code.back();
  }
  void mkEdge(Cx& x, Edge* e, const BasicBlock* from, const BasicBlock* to) { x.fix.push_back({e, {from, to}}); }
  unsigned width(Type* t) {
    if (t->isPointerTy() || t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isX86_FP80Ty()) return 64;
    return 0;
  }
  void unsupported(Cx& x, const Instruction& I) {
    In& i = emit(x, I_UNSUP);
    i.x = new std::string(str(&I));
  }
  // index range of leaves for extractvalue/insertvalue
  std::pair<unsigned, unsigned> aggRange(Type* t, ArrayRef<unsigned> ix) {
    unsigned start = 0;
    for (unsigned k : ix) {
      if (auto* st = dyn_cast<StructType>(t)) {
        for (unsigned i = 0; i < k; i++) start += nleaf(st->getElementType(i));
        t = st->getElementType(k);
      } else {
        t = t->getArrayElementType();
        start += k * nleaf(t);
      }
    }
    return {start, nleaf(t)};
  }
  void compile(Func* f) {
    if (f->compiled) return;
    f->compiled = true;
    Cx x;
    x.f = f;
    u32 n = 0;
    llvm::Function& F = *f->F;
    for (auto& a : F.args()) { x.slot[&a] = (int)n; n += nleaf(a.getType()); }
    f->nargs = n;
    for (auto& B : F)
      for (auto& I : B)
        if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { x.slot[&I] = (int)n; n += nleaf(I.getType()); }
    f->nslots = n + 4;
    for (auto& B : F) {
      x.bb[&B] = (u32)f->code.size();
      for (auto& I : B) {
        if (auto& dl = I.getDebugLoc()) {
          x.line = dl.getLine();
#ifdef COVLINES
          if (auto* f = dl->getFile()) {
            auto n = f->getFilename().str();
            auto it = std::find(covFiles.begin(), covFiles.end(), n);
            if (it == covFiles.end()) it = covFiles.insert(it, n);
            x.file = (u32)(it - covFiles.begin());
          }
#endif
        }
        inst(x, I);
      }
    }
    for (auto& p : x.fix) {
      Edge* e = p.first;
      const BasicBlock *from = p.second.first, *to = p.second.second;
      e->pc = x.bb[to];
      for (auto& I : *to) {
        auto* ph = dyn_cast<PHINode>(&I);
        if (!ph) break;
        auto s = opnds(x, ph->getIncomingValueForBlock(from));
        int d = x.slot[ph];
        for (size_t k = 0; k < s.size(); k++)
          if (d + (int)k != s[k]) e->copies.push_back({d + (int)k, s[k]});
      }
    }
  }
  static u8 binop(unsigned o) {
    switch (o) {
      case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
      case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM;
      case Instruction::SRem: return O_SREM; case Instruction::And: return O_AND; case Instruction::Or: return O_OR;
      case Instruction::Xor: return O_XOR; case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR;
      case Instruction::AShr: return O_ASHR;
    }
    return 0;
  }
  void inst(Cx& x, Instruction& I) {
    int d = (I.getType()->isVoidTy() || I.getType()->isTokenTy()) ? -1 : x.slot[&I];
    unsigned w = width(I.getType());
    bool vec = I.getType()->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy());
    bool wide = (I.getType()->isIntegerTy() && I.getType()->getIntegerBitWidth() > 64) ||
                (I.getNumOperands() && I.getOperand(0)->getType()->isIntegerTy() && I.getOperand(0)->getType()->getIntegerBitWidth() > 64);
    switch (I.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
      case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (wide) return unsupported(x, I);
        auto a = opnds(x, I.getOperand(0)), b = opnds(x, I.getOperand(1));
        auto ls = flat(I.getType());
        for (size_t k = 0; k < ls.size(); k++) {
          In& i = emit(x, I_BIN);
          i.fl = binop(I.getOpcode()); i.w = ls[k].w; i.d = d + (int)k; i.a = a[k]; i.b = b[k];
        }
        return;
      }
      case Instruction::ICmp: {
        if (wide) return unsupported(x, I);
        auto& C = cast<ICmpInst>(I);
        auto a = opnds(x, I.getOperand(0)), b = opnds(x, I.getOperand(1));
        auto ls = flat(I.getOperand(0)->getType());
        for (size_t k = 0; k < ls.size(); k++) {
          In& i = emit(x, I_CMP);
          i.w = ls[k].w; i.d = d + (int)k; i.a = a[k]; i.b = b[k];
          bool sw = false, neg = false;
          u8 o = 0;
          switch (C.getPredicate()) {
            case CmpInst::ICMP_EQ: o = O_EQ; break;
            case CmpInst::ICMP_NE: o = O_EQ; neg = true; break;
            case CmpInst::ICMP_ULT: o = O_ULT; break;
            case CmpInst::ICMP_ULE: o = O_ULE; break;
            case CmpInst::ICMP_UGT: o = O_ULT; sw = true; break;
            case CmpInst::ICMP_UGE: o = O_ULE; sw = true; break;
            case CmpInst::ICMP_SLT: o = O_SLT; break;
            case CmpInst::ICMP_SLE: o = O_SLE; break;
            case CmpInst::ICMP_SGT: o = O_SLT; sw = true; break;
            case CmpInst::ICMP_SGE: o = O_SLE; sw = true; break;
            default: break;
          }
          if (sw) std::swap(i.a, i.b);
          i.fl = o; i.w2 = neg;
        }
        return;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: {
        if (vec) return unsupported(x, I);
        In& i = emit(x, I_FBIN);
        i.d = d; i.a = op1(x, I.getOperand(0)); i.b = I.getNumOperands() > 1 ? op1(x, I.getOperand(1)) : i.a;
        i.w = (u8)w;
        i.fl = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2
             : I.getOpcode() == Instruction::FDiv ? 3 : I.getOpcode() == Instruction::FRem ? 4 : 5;
        return;
      }
      case Instruction::FCmp: {
        if (vec) return unsupported(x, I);
        In& i = emit(x, I_FCMP);
        i.d = d; i.a = op1(x, I.getOperand(0)); i.b = op1(x, I.getOperand(1));
        i.w = (u8)width(I.getOperand(0)->getType());
        i.fl = (u8)cast<FCmpInst>(I).getPredicate();
        return;
      }
      case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
        if (vec || wide) return unsupported(x, I);
        In& i = emit(x, I_FPCONV);
        i.d = d; i.a = op1(x, I.getOperand(0)); i.w = (u8)w; i.w2 = (u8)width(I.getOperand(0)->getType());
        i.imm = I.getOpcode();
        i.fl = I.getType()->isX86_FP80Ty() || I.getOperand(0)->getType()->isX86_FP80Ty();
        return;
      }
      case Instruction::Select: {
        auto c = opnds(x, I.getOperand(0)), a = opnds(x, I.getOperand(1)), b = opnds(x, I.getOperand(2));
        auto ls = flat(I.getType());
        for (size_t k = 0; k < ls.size(); k++) {
          In& i = emit(x, I_SELECT);
          i.w = ls[k].w; i.d = d + (int)k; i.a = a[k]; i.b = b[k]; i.c = c.size() == 1 ? c[0] : c[k];
        }
        return;
      }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
        auto a = opnds(x, I.getOperand(0));
        if (wide && I.getOpcode() == Instruction::Trunc && I.getType()->getIntegerBitWidth() <= 64) {
          In& i = emit(x, I_TRUNC); i.w = (u8)w; i.w2 = 64; i.d = d; i.a = a[0]; return;
        }
        if (wide && I.getOpcode() == Instruction::ZExt && a.size() == 1) {
          In& i = emit(x, I_ZEXT); i.w = 64; i.w2 = (u8)width(I.getOperand(0)->getType()); i.d = d; i.a = a[0];
          In& j = emit(x, I_MOV); j.d = d + 1; j.a = cidx(0); return;
        }
        if (wide) return unsupported(x, I);
        auto ls = flat(I.getType()), la = flat(I.getOperand(0)->getType());
        for (size_t k = 0; k < ls.size(); k++) {
          In& i = emit(x, I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC);
          i.w = ls[k].w; i.w2 = la[k].w; i.d = d + (int)k; i.a = a[k];
        }
        return;
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        if (wide || vec) return unsupported(x, I);
        unsigned wa = width(I.getOperand(0)->getType());
        In& i = emit(x, w == wa ? I_MOV : w > wa ? I_ZEXT : I_TRUNC);
        i.d = d; i.a = op1(x, I.getOperand(0)); i.w = (u8)w; i.w2 = (u8)wa;
        return;
      }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        auto a = opnds(x, I.getOperand(0));
        if (a.size() != nleaf(I.getType())) return unsupported(x, I);
        auto la = flat(I.getOperand(0)->getType()), lb = flat(I.getType());
        for (size_t k = 0; k < a.size(); k++) if (la[k].w != lb[k].w) return unsupported(x, I);
        for (size_t k = 0; k < a.size(); k++) { In& i = emit(x, I_MOV); i.d = d + (int)k; i.a = a[k]; }
        return;
      }
      case Instruction::ExtractValue: {
        auto& E = cast<ExtractValueInst>(I);
        auto a = opnds(x, E.getAggregateOperand());
        auto r = aggRange(E.getAggregateOperand()->getType(), E.getIndices());
        for (unsigned k = 0; k < r.second; k++) { In& i = emit(x, I_MOV); i.d = d + (int)k; i.a = a[r.first + k]; }
        return;
      }
      case Instruction::InsertValue: {
        auto& E = cast<InsertValueInst>(I);
        auto a = opnds(x, E.getAggregateOperand()), b = opnds(x, E.getInsertedValueOperand());
        auto r = aggRange(I.getType(), E.getIndices());
        for (unsigned k = 0; k < a.size(); k++) {
          In& i = emit(x, I_MOV);
          i.d = d + (int)k;
          i.a = (k >= r.first && k < r.first + r.second) ? b[k - r.first] : a[k];
        }
        return;
      }
      case Instruction::ExtractElement: case Instruction::InsertElement: {
        bool ins = I.getOpcode() == Instruction::InsertElement;
        auto* ci = dyn_cast<ConstantInt>(I.getOperand(ins ? 2 : 1));
        if (!ci) return unsupported(x, I);
        auto a = opnds(x, I.getOperand(0));
        u64 k = ci->getZExtValue();
        if (!ins) { In& i = emit(x, I_MOV); i.d = d; i.a = a[k]; return; }
        int b = op1(x, I.getOperand(1));
        for (unsigned j = 0; j < a.size(); j++) { In& i = emit(x, I_MOV); i.d = d + (int)j; i.a = j == k ? b : a[j]; }
        return;
      }
      case Instruction::ShuffleVector: {
        auto& S = cast<ShuffleVectorInst>(I);
        auto a = opnds(x, I.getOperand(0)), b = opnds(x, I.getOperand(1));
        auto m = S.getShuffleMask();
        for (unsigned k = 0; k < m.size(); k++) {
          In& i = emit(x, I_MOV);
          i.d = d + (int)k;
          i.a = m[k] < 0 ? cidx(0) : (size_t)m[k] < a.size() ? a[m[k]] : b[m[k] - a.size()];
        }
        return;
      }
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(I);
        In& i = emit(x, I_ALLOCA);
        i.d = d;
        i.imm = DL->getTypeAllocSize(A.getAllocatedType());
        i.a = op1(x, A.getArraySize());
        return;
      }
      case Instruction::Load: {
        auto& L = cast<LoadInst>(I);
        int p = op1(x, L.getPointerOperand());
        if (L.isAtomic()) {
          In& i = emit(x, I_ALOAD); i.d = d; i.a = p; i.w = (u8)w; i.fl = (u8)L.getOrdering(); return;
        }
        for (auto& l : flat(I.getType())) { In& i = emit(x, I_LOAD); i.d = d++; i.a = p; i.w = l.w; i.imm = l.off; }
        return;
      }
      case Instruction::Store: {
        auto& S = cast<StoreInst>(I);
        int p = op1(x, S.getPointerOperand());
        auto v = opnds(x, S.getValueOperand());
        auto ls = flat(S.getValueOperand()->getType());
        if (S.isAtomic()) {
          In& i = emit(x, I_ASTORE); i.a = p; i.b = v.at(0); i.w = ls[0].w; i.fl = (u8)S.getOrdering(); return;
        }
        for (size_t k = 0; k < ls.size(); k++) { In& i = emit(x, I_STORE); i.a = p; i.b = v[k]; i.w = ls[k].w; i.imm = ls[k].off; }
        return;
      }
      case Instruction::GetElementPtr: {
        if (vec) return unsupported(x, I);
        auto& G = cast<GetElementPtrInst>(I);
        In& i = emit(x, I_GEP);
        i.d = d;
        i.a = op1(x, G.getPointerOperand());
        i64 off = 0;
        auto* terms = new std::vector<GepTerm>;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          const Value* ix = it.getOperand();
          if (auto* st = it.getStructTypeOrNull()) off += (i64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            i64 sz = (i64)DL->getTypeAllocSize(it.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(ix)) off += sz * ci->getSExtValue();
            else terms->push_back({op1(x, ix), (u8)width(ix->getType()), sz});
          }
        }
        x.f->code.back().imm = (u64)off;
        x.f->code.back().x = terms->empty() ? (delete terms, nullptr) : terms;
        return;
      }
      case Instruction::Br: {
        auto& B = cast<BranchInst>(I);
        if (B.isUnconditional()) {
          In& i = emit(x, I_BR);
          auto* e = new Edge; i.x = e;
          mkEdge(x, e, I.getParent(), B.getSuccessor(0));
        } else {
          int c = op1(x, B.getCondition());
          In& i = emit(x, I_CBR);
          i.a = c;
          auto* e = new Edge[2]; i.x = e;
          mkEdge(x, &e[0], I.getParent(), B.getSuccessor(0));
          mkEdge(x, &e[1], I.getParent(), B.getSuccessor(1));
        }
        return;
      }
      case Instruction::Switch: {
        auto& S = cast<SwitchInst>(I);
        int c = op1(x, S.getCondition());
        In& i = emit(x, I_SWITCH);
        i.a = c; i.w = (u8)width(S.getCondition()->getType());
        auto* si = new SwitchInfo; i.x = si;
        si->cases.resize(S.getNumCases());
        size_t k = 0;
        for (auto& cs : S.cases()) {
          si->cases[k].first = cs.getCaseValue()->getZExtValue();
          mkEdge(x, &si->cases[k].second, I.getParent(), cs.getCaseSuccessor());
          k++;
        }
        mkEdge(x, &si->def, I.getParent(), S.getDefaultDest());
        return;
      }
      case Instruction::Ret: {
        auto& R = cast<ReturnInst>(I);
        std::vector<int> v;
        if (R.getReturnValue()) v = opnds(x, R.getReturnValue());
        In& i = emit(x, I_RET);
        i.w = (u8)v.size();
        if (v.size() == 1) i.a = v[0];
        else if (!v.empty()) i.x = new std::vector<int>(v);
        return;
      }
      case Instruction::Unreachable: emit(x, I_UNREACH); return;
      case Instruction::Resume: {
        auto v = opnds(x, I.getOperand(0));
        In& i = emit(x, I_RESUME); i.a = v[0];
        return;
      }
      case Instruction::PHI: return;
      case Instruction::LandingPad: return;
      case Instruction::Fence: { In& i = emit(x, I_FENCE); i.fl = (u8)cast<FenceInst>(I).getOrdering(); return; }
      case Instruction::AtomicRMW: {
        auto& R = cast<AtomicRMWInst>(I);
        int p = op1(x, R.getPointerOperand()), v = op1(x, R.getValOperand());
        In& i = emit(x, I_RMW);
        i.d = d; i.a = p; i.b = v; i.w = (u8)w; i.fl = (u8)R.getOrdering(); i.imm = R.getOperation();
        return;
      }
      case Instruction::AtomicCmpXchg: {
        auto& R = cast<AtomicCmpXchgInst>(I);
        int p = op1(x, R.getPointerOperand()), c = op1(x, R.getCompareOperand()), nv = op1(x, R.getNewValOperand());
        In& i = emit(x, I_CMPXCHG);
        i.d = d; i.a = p; i.b = c; i.c = nv; i.w = (u8)width(R.getCompareOperand()->getType());
        i.fl = (u8)R.getSuccessOrdering(); i.w2 = (u8)R.getFailureOrdering(); i.imm = R.isWeak();
        return;
      }
      case Instruction::Call: case Instruction::Invoke: return call(x, I, d);
      default: unsupported(x, I);
    }
  }
  void call(Cx& x, Instruction& I, int d) {
    auto& C = cast<CallBase>(I);
    unsigned w = width(I.getType());
    if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
      auto A = [&](unsigned k) { return op1(x, II->getArgOperand(k)); };
      Type* t0 = II->arg_size() ? II->getArgOperand(0)->getType() : nullptr;
      if (t0 && t0->isVectorTy()) return unsupported(x, I);
      if (II->getCalledFunction()->getName() == "llvm.x86.sse2.pause") return;
      switch (II->getIntrinsicID()) {
        case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:
        case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::copysign: case Intrinsic::minnum: case Intrinsic::maxnum: {
          auto id = II->getIntrinsicID();
          int a = A(0), b = II->arg_size() > 1 ? A(1) : a;
          In& i = emit(x, I_FBIN);
          i.d = d; i.a = a; i.b = b; i.w = (u8)w;
          i.fl = id == Intrinsic::ceil ? 6 : id == Intrinsic::floor ? 7 : id == Intrinsic::trunc ? 8 : id == Intrinsic::round ? 9 : id == Intrinsic::fabs ? 11
               : id == Intrinsic::sqrt ? 12 : id == Intrinsic::copysign ? 13 : id == Intrinsic::minnum ? 14 : id == Intrinsic::maxnum ? 15 : 10;
          return;
        }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::sideeffect:
          return;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: { In& i = emit(x, I_MOV); i.d = d; i.a = cidx(0); return; }
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ptrmask: {
          int a = A(0); In& i = emit(x, I_MOV); i.d = d; i.a = a; return; }
        case Intrinsic::is_constant: { In& i = emit(x, I_MOV); i.d = d; i.a = cidx(0); return; }
        case Intrinsic::objectsize: { In& i = emit(x, I_MOV); i.d = d; i.a = cidx(~0ull); return; }
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
          int a = A(0), b = A(1), c = A(2);
          In& i = emit(x, I_MEMCPY); i.a = a; i.b = b; i.c = c; return; }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
          int a = A(0), b = A(1), c = A(2);
          In& i = emit(x, I_MEMSET); i.a = a; i.b = b; i.c = c; return; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
        case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
          int a = A(0), b = A(1);
          In& i = emit(x, I_OVF);
          i.d = d; i.a = a; i.b = b; i.w = (u8)width(t0);
          switch (II->getIntrinsicID()) {
            case Intrinsic::uadd_with_overflow: i.fl = 0; break; case Intrinsic::sadd_with_overflow: i.fl = 1; break;
            case Intrinsic::usub_with_overflow: i.fl = 2; break; case Intrinsic::ssub_with_overflow: i.fl = 3; break;
            case Intrinsic::umul_with_overflow: i.fl = 4; break; default: i.fl = 5;
          }
          return;
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
          int a = A(0), b = A(1);
          In& i = emit(x, I_MINMAX);
          i.d = d; i.a = a; i.b = b; i.w = (u8)w;
          auto id = II->getIntrinsicID();
          i.fl = id == Intrinsic::umin ? 0 : id == Intrinsic::umax ? 1 : id == Intrinsic::smin ? 2 : 3;
          return;
        }
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
          int a = A(0), b = A(1);
          In& i = emit(x, I_SAT);
          i.d = d; i.a = a; i.b = b; i.w = (u8)w;
          auto id = II->getIntrinsicID();
          i.fl = id == Intrinsic::uadd_sat ? 0 : id == Intrinsic::usub_sat ? 1 : id == Intrinsic::sadd_sat ? 2 : 3;
          return;
        }
        case Intrinsic::abs: { int a = A(0); In& i = emit(x, I_ABS); i.d = d; i.a = a; i.w = (u8)w; return; }
        case Intrinsic::ctpop: { int a = A(0); In& i = emit(x, I_CTPOP); i.d = d; i.a = a; i.w = (u8)w; return; }
        case Intrinsic::ctlz: { int a = A(0); In& i = emit(x, I_CTLZ); i.d = d; i.a = a; i.w = (u8)w; return; }
        case Intrinsic::cttz: { int a = A(0); In& i = emit(x, I_CTTZ); i.d = d; i.a = a; i.w = (u8)w; return; }
        case Intrinsic::bswap: { int a = A(0); In& i = emit(x, I_BSWAP); i.d = d; i.a = a; i.w = (u8)w; return; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
          int a = A(0), b = A(1), c = A(2);
          In& i = emit(x, I_FSH); i.d = d; i.a = a; i.b = b; i.c = c; i.w = (u8)w; i.fl = II->getIntrinsicID() == Intrinsic::fshr; return; }
        case Intrinsic::eh_typeid_for: {
          u64 ti = constLeaf(cast<Constant>(II->getArgOperand(0)));
          In& i = emit(x, I_MOV); i.d = d; i.a = cidx((u64)typeId(ti)); return; }
        case Intrinsic::threadlocal_address: {
          int a = A(0); In& i = emit(x, I_TLS); i.d = d; i.a = a; return; }
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: emit(x, I_TRAP); return;
        default: return unsupported(x, I);
      }
    }
    auto* ci = new CallInfo;
    Value* cv = C.getCalledOperand()->stripPointerCasts();
    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = const_cast<GlobalObject*>(al->getAliaseeObject());
    if (auto* F = dyn_cast<llvm::Function>(cv)) ci->f = fn(F);
    else if (isa<InlineAsm>(C.getCalledOperand())) {
      delete ci;
      // compiler barriers / pause only
      if (!I.getType()->isVoidTy()) return unsupported(x, I);
      emit(x, I_NOP);
      return;
    } else ci->fop = op1(x, C.getCalledOperand());
    for (unsigned k = 0; k < C.arg_size(); k++) {
      if (C.isByValArgument(k)) ci->byval.push_back({(int)ci->args.size(), DL->getTypeAllocSize(C.getParamByValType(k))});
      for (int o : opnds(x, C.getArgOperand(k))) ci->args.push_back(o);
    }
    ci->d = d;
    ci->nret = (u8)(d < 0 ? 0 : nleaf(I.getType()));
    if (auto* IV = dyn_cast<InvokeInst>(&I)) {
      ci->invoke = true;
      mkEdge(x, &ci->normal, I.getParent(), IV->getNormalDest());
      mkEdge(x, &ci->unwind, I.getParent(), IV->getUnwindDest());
      auto* LP = IV->getLandingPadInst();
      auto* lp = new LPad;
      lp->cleanup = LP->isCleanup();
      lp->d = x.slot[LP];
      for (unsigned k = 0; k < LP->getNumClauses(); k++) {
        LPad::Cl cl;
        cl.filter = LP->isFilter(k);
        std::vector<u64> v;
        constVals(LP->getClause(k), v);
        cl.ti = v;
        for (u64 t : v) typeId(t);
        lp->cl.push_back(cl);
      }
      ci->lp = lp;
    }
    In& i = emit(x, I_CALL);
    i.x = ci;
    i.d = d;
  }
  int typeId(u64 ti) {
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    int n = (int)typeIds.size() + 1;
    typeIds[ti] = n;
    return n;
  }
};
}  // namespace sx
