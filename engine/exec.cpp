// Symbolic executor over LLVM IR
#include "exec.hpp"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/CFG.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- options
static unsigned optPreempt = 2, optSpurious = 0, optTimeouts = 1;
static double optTime = 600;
static uint64_t optSteps = 200000000ULL, optPathSteps = 50000000ULL;
static bool optRaces = false, optTrace = false, optAllViol = false, optReplay = false;
static unsigned optMaxPaths = 0, optMaxEnum = 4096;
static std::string optOut, optReplayFile;
static std::vector<std::string> optStubs; // names (mangled or demangled prefix) treated as no-ops
static std::map<std::string, uint64_t> replayVals;

// ---------------------------------------------------------------- types
struct TyD { int kind; unsigned bits; uint64_t store, alloc; std::vector<TyD *> el; std::vector<uint64_t> off; bool fp = false; bool vec = false; };
enum { K_INT, K_AGG, K_VOID };

enum IOp : uint8_t {
  I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_RESUME,
  I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_SEL, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_ZEXT, I_SEXT, I_TRUNC, I_BITCAST,
  I_FPEXT, I_FPTRUNC, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_LPAD,
  I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_FREEZE, I_VAARG, I_NOP, I_INTRIN, I_UNSUP
};
struct Edge { uint32_t target = 0; std::vector<std::pair<int, int>> moves; };
struct GepT { int op; uint64_t scale; unsigned w; };
struct Extra {
  std::vector<int> ops;
  std::vector<GepT> gep;
  FnInfo *callee = nullptr;
  Edge e0, e1;
  std::vector<Edge> edges;
  std::vector<uint64_t> cases;
  std::vector<unsigned> idx;
  TyD *ty = nullptr, *ty2 = nullptr;
  std::vector<uint64_t> byval; // per arg: size or 0
  std::vector<std::pair<int, uint64_t>> clauses; // (kind 0 catch 1 filter, typeinfo addr)
  bool cleanup = false, invoke = false;
  unsigned intrin = 0;
  std::vector<std::pair<bool, unsigned>> argw;
};
struct Ins {
  uint8_t op = I_NOP;
  uint8_t sub = 0;
  bool vec = false, atomic = false;
  mutable bool hit = false;
  uint16_t w = 0, w2 = 0;
  int dst = -1;
  int a = 0, b = 0, c = 0;
  uint64_t imm = 0;
  Extra *x = nullptr;
  const Instruction *I = nullptr;
  TyD *ty = nullptr;
};
struct Code {
  FnInfo *fn = nullptr;
  std::vector<Ins> ins;
  std::vector<SVal> consts;
  unsigned nregs = 0, nargs = 0;
  std::vector<unsigned> argw;
};
struct Engine;
enum HR { H_DONE, H_BLOCK, H_PUSHED, H_KILL };
struct CallCtx { std::vector<SVal> args; SVal ret; FnInfo *fn; const Ins *ins; };
typedef HR (*Handler)(State &, CallCtx &);
struct FnInfo {
  std::string name;
  Function *F = nullptr;
  Code *code = nullptr;
  Handler h = nullptr;
  uint64_t addr = 0;
  bool weakUndef = false, noSched = false, executed = false, inRepo = false;
  uint64_t calls = 0;
};

static LLVMContext *LC;
static std::vector<std::unique_ptr<Module>> mods;
static const DataLayout *DL;
static std::unordered_map<std::string, FnInfo *> fnByName;
static std::unordered_map<const Function *, FnInfo *> fnByPtr;
static std::vector<FnInfo *> fnByObj; // object id -> fn
static std::unordered_map<const GlobalValue *, uint64_t> gvAddr;
static std::unordered_map<std::string, uint64_t> gvAddrByName;
static std::unordered_map<uint64_t, std::string> gvName; // id -> name
static std::vector<ObjP> gInit; // initial contents of global objects
static std::unordered_map<uint64_t, FnInfo *> fnByAddr;
static const uint64_t HEAP0 = 1ULL << 24;
static inline uint64_t addrOf(uint64_t id) { return (id + 1) << 28; }
static inline uint64_t idOf(uint64_t a) { return (a >> 28) - 1; }
static inline uint64_t offOf(uint64_t a) { return a & ((1ULL << 28) - 1); }
static std::unordered_map<std::string, Handler> handlers;
static std::vector<std::pair<std::string, Handler>> prefixHandlers;

// results
struct Violation { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputs; std::vector<std::string> sched; };
static std::vector<Violation> viols;
static std::vector<std::string> incompletes;
static std::map<std::string, uint64_t> reachHits, asserts, knownHits;
static uint64_t nPaths = 0, nForks = 0, nSteps = 0, nAssertChecks = 0, nKilled = 0, nSwitches = 0, nAssertTrivial = 0;
static std::vector<std::string> samplePaths;
static std::string u128hex_(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static std::deque<State *> work;
static bool stopAll = false;
static std::set<std::string> extUsed;
static double tStart;

static void incomplete(const std::string &m) {
  for (auto &x : incompletes) if (x == m) return;
  incompletes.push_back(m);
  fprintf(stderr, "[incomplete] %s\n", m.c_str());
}

// ---------------------------------------------------------------- value helpers
static inline Expr *ex(const SVal &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline SVal wrap(Expr *e) { if (e->isConst() && e->width <= 64) return SVal((uint64_t)e->c); return SVal(0, e); }
static inline SVal mkV(u128 c, unsigned w) { if (w <= 64) return SVal((uint64_t)c & mask64(w)); return SVal(0, mkConst(c, w)); }
static inline bool isC(const SVal &v) { return v.e == nullptr || v.e->isConst(); }
static inline u128 cval(const SVal &v) { return v.e ? v.e->c : v.c; }

static std::unordered_map<Type *, TyD *> tyCache;
static TyD *ty(Type *t) {
  auto &r = tyCache[t];
  if (r) return r;
  TyD *d = new TyD();
  if (t->isVoidTy()) { d->kind = K_VOID; d->bits = 0; d->store = d->alloc = 0; return tyCache[t] = d; }
  if (auto *st = dyn_cast<StructType>(t)) {
    d->kind = K_AGG; d->bits = 0;
    auto *sl = DL->getStructLayout(st);
    d->store = d->alloc = sl->getSizeInBytes();
    for (unsigned i = 0; i < st->getNumElements(); i++) { d->el.push_back(ty(st->getElementType(i))); d->off.push_back(sl->getElementOffset(i)); }
    return tyCache[t] = d;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    d->kind = K_AGG; d->bits = 0;
    TyD *e = ty(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) { d->el.push_back(e); d->off.push_back(i * e->alloc); }
    d->store = d->alloc = at->getNumElements() * e->alloc;
    return tyCache[t] = d;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    d->kind = K_AGG; d->vec = true; d->bits = 0;
    TyD *e = ty(vt->getElementType());
    uint64_t es = DL->getTypeSizeInBits(vt->getElementType()) / 8;
    for (unsigned i = 0; i < vt->getNumElements(); i++) { d->el.push_back(e); d->off.push_back(i * es); }
    d->store = DL->getTypeStoreSize(t); d->alloc = DL->getTypeAllocSize(t);
    d->fp = e->fp;
    return tyCache[t] = d;
  }
  d->kind = K_INT;
  d->bits = t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t);
  if (t->isX86_FP80Ty()) d->bits = 80;
  d->store = DL->getTypeStoreSize(t); d->alloc = DL->getTypeAllocSize(t);
  d->fp = t->isFloatingPointTy();
  return tyCache[t] = d;
}
static SVal undefVal(TyD *t) {
  if (t->kind == K_AGG) { std::vector<SVal> v; for (auto *e : t->el) v.push_back(undefVal(e)); return SVal(0, mkAgg(v)); }
  return mkV(0, t->bits ? t->bits : 1);
}

// ---------------------------------------------------------------- symbols
static FnInfo *fnFor(Function *F);
static uint64_t gvAddress(GlobalValue *g);
static uint64_t newGlobalObj(uint64_t size, int kind, const std::string &name) {
  Obj *o = new Obj();
  o->size = size; o->kind = kind; o->b.assign(size, 0); o->tag = strdup(name.c_str());
  gInit.push_back(ObjP(o));
  uint64_t id = gInit.size() - 1;
  gvName[id] = name;
  return addrOf(id);
}

static std::unordered_map<std::string, Function *> defFn;
static std::unordered_map<std::string, GlobalVariable *> defGV;
static std::unordered_map<std::string, GlobalAlias *> defAlias;

static void setupFn(FnInfo *fi) {
  const std::string &n = fi->name;
  auto h = handlers.find(n);
  if (h != handlers.end()) fi->h = h->second;
  else for (auto &p : prefixHandlers) if (n.compare(0, p.first.size(), p.first) == 0) { if (!fi->F || p.first[0] != '_') fi->h = p.second; break; }
  if (n.find("_Sp_counted") != std::string::npos || n.find("__exchange_and_add") != std::string::npos || n.find("__atomic_add") != std::string::npos || n.find("_M_add_ref") != std::string::npos) fi->noSched = true;
}
static FnInfo *fnNamed(const std::string &name) {
  auto it = fnByName.find(name);
  if (it != fnByName.end()) return it->second;
  FnInfo *fi = new FnInfo(); fi->name = name;
  auto d = defFn.find(name);
  if (d != defFn.end()) fi->F = d->second;
  else {
    auto a = defAlias.find(name);
    if (a != defAlias.end()) if (auto *f = dyn_cast<Function>(a->second->getAliaseeObject())) { FnInfo *t = fnFor(f); fnByName[name] = t; delete fi; return t; }
  }
  fnByName[name] = fi;
  setupFn(fi);
  return fi;
}
static FnInfo *fnFor(Function *F) {
  auto it = fnByPtr.find(F);
  if (it != fnByPtr.end()) return it->second;
  FnInfo *fi;
  if (F->hasLocalLinkage()) { fi = new FnInfo(); fi->name = F->getName().str(); fi->F = F; setupFn(fi); }
  else { fi = fnNamed(F->getName().str()); if (!fi->F && F->hasExternalWeakLinkage()) fi->weakUndef = true; }
  fnByPtr[F] = fi;
  return fi;
}
static uint64_t fnAddr(FnInfo *fi) {
  if (fi->weakUndef && !fi->h && !fi->F) return 0;
  if (!fi->addr) { fi->addr = newGlobalObj(0, 3, fi->name); fnByAddr[fi->addr] = fi; }
  return fi->addr;
}
static SVal constVal(Constant *c);
static void initConst(Obj *o, uint64_t off, Constant *c);

static uint64_t gvAddress(GlobalValue *g) {
  auto it = gvAddr.find(g);
  if (it != gvAddr.end()) return it->second;
  if (auto *f = dyn_cast<Function>(g)) { uint64_t a = fnAddr(fnFor(f)); gvAddr[g] = a; return a; }
  if (auto *al = dyn_cast<GlobalAlias>(g)) { SVal v = constVal(al->getAliasee()); gvAddr[g] = v.c; return v.c; }
  auto *gv = cast<GlobalVariable>(g);
  std::string name = gv->getName().str();
  if (!gv->hasLocalLinkage()) {
    auto n = gvAddrByName.find(name);
    if (n != gvAddrByName.end()) { gvAddr[g] = n->second; return n->second; }
    auto d = defGV.find(name);
    if (d != defGV.end()) gv = d->second;
    else {
      auto a = defAlias.find(name);
      if (a != defAlias.end()) { SVal v = constVal(a->second->getAliasee()); gvAddr[g] = v.c; gvAddrByName[name] = v.c; return v.c; }
      if (g->hasExternalWeakLinkage()) { gvAddr[g] = 0; return 0; }
    }
  }
  if (gv->isDeclaration()) {
    uint64_t sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()) : 8;
    if (sz < 512) sz = 512;
    uint64_t a = newGlobalObj(sz, 4, name);
    gvAddr[g] = a; gvAddrByName[name] = a;
    return a;
  }
  uint64_t a = newGlobalObj(DL->getTypeAllocSize(gv->getValueType()), 2, name);
  gvAddr[g] = a; gvAddr[gv] = a;
  if (!gv->hasLocalLinkage()) gvAddrByName[name] = a;
  Obj *o = gInit[idOf(a)].p;
  initConst(o, 0, gv->getInitializer());
  gInit[idOf(a)]->ro = gv->isConstant();
  return a;
}

static u128 apint(const APInt &v) {
  u128 r = v.getRawData()[0];
  if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64;
  return r & maskW(std::min(128u, v.getBitWidth()));
}
static void putBytes(Obj *o, uint64_t off, const SVal &v, TyD *t) {
  if (t->kind == K_AGG) { for (size_t i = 0; i < t->el.size(); i++) putBytes(o, off + t->off[i], (*v.e->agg)[i], t->el[i]); return; }
  u128 c = cval(v);
  memcpy(&o->b[off], &c, std::min<uint64_t>(16, t->store));
}
static void initConst(Obj *o, uint64_t off, Constant *c) {
  TyD *t = ty(c->getType());
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cds->getRawDataValues();
    memcpy(&gInit[0] == nullptr ? nullptr : &o->b[off], raw.data(), raw.size());
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantStruct>(c) || isa<ConstantVector>(c)) {
    for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(o, off + t->off[i], cast<Constant>(c->getOperand(i)));
    return;
  }
  putBytes(o, off, constVal(c), t);
}
static SVal constVal(Constant *c) {
  TyD *t = ty(c->getType());
  if (auto *ci = dyn_cast<ConstantInt>(c)) return mkV(apint(ci->getValue()), t->bits);
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return mkV(apint(b), t->bits); }
  if (isa<ConstantPointerNull>(c)) return SVal(0);
  if (isa<UndefValue>(c)) return undefVal(t);
  if (auto *g = dyn_cast<GlobalValue>(c)) return SVal(gvAddress(g));
  if (isa<ConstantAggregateZero>(c)) return undefVal(t);
  if (isa<ConstantAggregate>(c)) { std::vector<SVal> v; for (auto &op : c->operands()) v.push_back(constVal(cast<Constant>(op))); return SVal(0, mkAgg(v)); }
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { std::vector<SVal> v; for (unsigned i = 0; i < cds->getNumElements(); i++) v.push_back(constVal(cds->getElementAsConstant(i))); return SVal(0, mkAgg(v)); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
        SVal b = constVal(ce->getOperand(0));
        return SVal(b.c + off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        SVal b = constVal(ce->getOperand(0)); return mkV(cval(b) & maskW(t->bits), t->bits); }
      case Instruction::Trunc: return mkV(cval(constVal(ce->getOperand(0))) & maskW(t->bits), t->bits);
      case Instruction::ZExt: return mkV(cval(constVal(ce->getOperand(0))), t->bits);
      case Instruction::Sub: return mkV(foldBin(Op::Sub, t->bits, cval(constVal(ce->getOperand(0))), cval(constVal(ce->getOperand(1)))), t->bits);
      case Instruction::Add: return mkV(foldBin(Op::Add, t->bits, cval(constVal(ce->getOperand(0))), cval(constVal(ce->getOperand(1)))), t->bits);
      case Instruction::ICmp: {
        u128 a = cval(constVal(ce->getOperand(0))), b = cval(constVal(ce->getOperand(1)));
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return SVal(a == b); case CmpInst::ICMP_NE: return SVal(a != b); default: break; }
        break;
      }
      default: break;
    }
    std::string s; raw_string_ostream os(s); ce->print(os);
    fprintf(stderr, "unsupported constant expr %s\n", s.c_str()); exit(3);
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fprintf(stderr, "unsupported constant %s\n", s.c_str()); exit(3);
}

// ---------------------------------------------------------------- decode
static std::unique_ptr<FunctionPassManager> FPM;
static FunctionAnalysisManager *FAM;
static void initPasses() {
  static LoopAnalysisManager LAM; static FunctionAnalysisManager fam; static CGSCCAnalysisManager CGAM; static ModuleAnalysisManager MAM;
  static PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(fam); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, fam, CGAM, MAM);
  FAM = &fam;
  FPM = std::make_unique<FunctionPassManager>();
  FPM->addPass(SROAPass(SROAOptions::ModifyCFG));
  FPM->addPass(EarlyCSEPass(true));
  SimplifyCFGOptions so; so.speculateBlocks(true).convertSwitchToLookupTable(false).sinkCommonInsts(false);
  FPM->addPass(SimplifyCFGPass(so));
  FPM->addPass(InstCombinePass(InstCombineOptions().setMaxIterations(1)));
  FPM->addPass(SimplifyCFGPass(so));
}

static Op binOp(unsigned o) {
  switch (o) {
    case Instruction::Add: return Op::Add; case Instruction::Sub: return Op::Sub; case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv; case Instruction::SDiv: return Op::SDiv; case Instruction::URem: return Op::URem; case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And; case Instruction::Or: return Op::Or; case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl; case Instruction::LShr: return Op::LShr; case Instruction::AShr: return Op::AShr;
    case Instruction::FAdd: return Op::FAdd; case Instruction::FSub: return Op::FSub; case Instruction::FMul: return Op::FMul; case Instruction::FDiv: return Op::FDiv;
  }
  return Op::Const;
}
static std::string repoPrefix = "/repo/";

static Code *decode(FnInfo *fi) {
  Function *F = fi->F;
  if (F->isMaterializable()) { if (auto e = F->materialize()) { fprintf(stderr, "materialize failed\n"); exit(3); } }
  F->removeFnAttr(Attribute::OptimizeNone);
  FPM->run(*F, *FAM);
  FAM->clear(*F, F->getName());
  if (auto *sp = F->getSubprogram()) { if (sp->getFile()) { std::string p = (sp->getFile()->getFilename().str()); if (!p.empty() && p[0] != '/') p = sp->getFile()->getDirectory().str() + "/" + p; fi->inRepo = p.compare(0, repoPrefix.size(), repoPrefix) == 0; } }
  Code *c = new Code(); c->fn = fi; fi->code = c;
  std::unordered_map<const Value *, int> reg;
  for (auto &a : F->args()) { reg[&a] = c->nregs++; TyD *t = ty(a.getType()); c->argw.push_back(t->bits); }
  c->nargs = c->nregs;
  for (auto &I : instructions(*F)) if (!I.getType()->isVoidTy()) reg[&I] = c->nregs++;
  std::unordered_map<const Constant *, int> cidx;
  auto opnd = [&](Value *v) -> int {
    auto it = reg.find(v); if (it != reg.end()) return it->second;
    if (auto *k = dyn_cast<Constant>(v)) {
      auto ci = cidx.find(k); if (ci != cidx.end()) return ci->second;
      c->consts.push_back(constVal(k));
      return cidx[k] = ~(int)(c->consts.size() - 1);
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { c->consts.push_back(SVal(0)); return ~(int)(c->consts.size() - 1); }
    fprintf(stderr, "bad operand\n"); exit(3);
  };
  std::unordered_map<const BasicBlock *, uint32_t> bbStart;
  // first pass: number
  uint32_t n = 0;
  for (auto &B : *F) { bbStart[&B] = n; for (auto &I : B) { if (isa<PHINode>(I)) continue; if (isa<DbgInfoIntrinsic>(I)) continue; n++; } }
  c->ins.resize(n);
  auto edge = [&](BasicBlock *from, BasicBlock *to) {
    Edge e; e.target = bbStart[to];
    for (auto &p : to->phis()) e.moves.push_back({reg[&p], opnd(p.getIncomingValueForBlock(from))});
    return e;
  };
  n = 0;
  for (auto &B : *F) for (auto &I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    Ins &d = c->ins[n++];
    d.I = &I;
    if (!I.getType()->isVoidTy()) { d.dst = reg[&I]; d.ty = ty(I.getType()); d.w = d.ty->bits; d.vec = d.ty->vec; }
    switch (I.getOpcode()) {
      case Instruction::Ret: d.op = I_RET; if (I.getNumOperands()) { d.a = opnd(I.getOperand(0)); d.b = 1; } break;
      case Instruction::Br: {
        auto *br = cast<BranchInst>(&I); d.x = new Extra();
        if (br->isUnconditional()) { d.op = I_BR; d.x->e0 = edge(&B, br->getSuccessor(0)); }
        else { d.op = I_CBR; d.a = opnd(br->getCondition()); d.x->e0 = edge(&B, br->getSuccessor(0)); d.x->e1 = edge(&B, br->getSuccessor(1)); }
        break; }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(&I); d.op = I_SWITCH; d.x = new Extra(); d.a = opnd(sw->getCondition()); d.w = ty(sw->getCondition()->getType())->bits;
        d.x->e0 = edge(&B, sw->getDefaultDest());
        for (auto &cs : sw->cases()) { d.x->cases.push_back((uint64_t)apint(cs.getCaseValue()->getValue())); d.x->edges.push_back(edge(&B, cs.getCaseSuccessor())); }
        break; }
      case Instruction::Unreachable: d.op = I_UNREACH; break;
      case Instruction::Resume: d.op = I_RESUME; d.a = opnd(I.getOperand(0)); break;
      case Instruction::FNeg: d.op = I_FNEG; d.a = opnd(I.getOperand(0)); break;
      case Instruction::ICmp: { auto *ic = cast<ICmpInst>(&I); d.op = I_ICMP; d.sub = ic->getPredicate(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); TyD *t = ty(I.getOperand(0)->getType()); d.w = t->vec ? t->el[0]->bits : t->bits; break; }
      case Instruction::FCmp: { auto *ic = cast<FCmpInst>(&I); d.op = I_FCMP; d.sub = ic->getPredicate(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); TyD *t = ty(I.getOperand(0)->getType()); d.w = t->vec ? t->el[0]->bits : t->bits; break; }
      case Instruction::Select: d.op = I_SEL; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); break;
      case Instruction::Load: d.op = I_LOAD; d.a = opnd(I.getOperand(0)); d.atomic = I.isAtomic(); break;
      case Instruction::Store: d.op = I_STORE; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.ty = ty(I.getOperand(0)->getType()); d.atomic = I.isAtomic(); break;
      case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); d.op = I_ALLOCA; d.imm = DL->getTypeAllocSize(al->getAllocatedType()); d.a = opnd(al->getArraySize()); d.w2 = ty(al->getArraySize()->getType())->bits; break; }
      case Instruction::GetElementPtr: {
        d.op = I_GEP; d.x = new Extra(); d.a = opnd(I.getOperand(0));
        auto *gep = cast<GetElementPtrInst>(&I);
        for (gep_type_iterator it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
          Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) d.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            uint64_t sc = it.getSequentialElementStride(*DL);
            if (auto *ci = dyn_cast<ConstantInt>(ix)) d.imm += ci->getSExtValue() * sc;
            else d.x->gep.push_back({opnd(ix), sc, ty(ix->getType())->bits});
          }
        }
        break; }
      case Instruction::ZExt: d.op = I_ZEXT; goto cast1;
      case Instruction::SExt: d.op = I_SEXT; goto cast1;
      case Instruction::Trunc: d.op = I_TRUNC; goto cast1;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: d.op = I_BITCAST; goto cast1;
      case Instruction::FPExt: d.op = I_FPEXT; goto cast1;
      case Instruction::FPTrunc: d.op = I_FPTRUNC; goto cast1;
      case Instruction::FPToSI: d.op = I_FPTOSI; goto cast1;
      case Instruction::FPToUI: d.op = I_FPTOUI; goto cast1;
      case Instruction::SIToFP: d.op = I_SITOFP; goto cast1;
      case Instruction::UIToFP: d.op = I_UITOFP; goto cast1;
      cast1: {
        d.a = opnd(I.getOperand(0)); TyD *t = ty(I.getOperand(0)->getType()); d.x = new Extra(); d.x->ty2 = t;
        d.w2 = t->vec ? t->el[0]->bits : t->bits;
        if (d.op == I_BITCAST && !t->vec && !d.vec) { if (d.w > d.w2) d.op = I_ZEXT; else if (d.w < d.w2) d.op = I_TRUNC; }
        if (d.vec) d.w = d.ty->el[0]->bits;
        break; }
      case Instruction::ExtractValue: { d.op = I_EXTRACTV; d.a = opnd(I.getOperand(0)); d.x = new Extra(); for (unsigned i : cast<ExtractValueInst>(&I)->indices()) d.x->idx.push_back(i); break; }
      case Instruction::InsertValue: { d.op = I_INSERTV; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.x = new Extra(); for (unsigned i : cast<InsertValueInst>(&I)->indices()) d.x->idx.push_back(i); break; }
      case Instruction::ExtractElement: d.op = I_EXTRACTE; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break;
      case Instruction::InsertElement: d.op = I_INSERTE; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); break;
      case Instruction::ShuffleVector: { d.op = I_SHUFFLE; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.x = new Extra(); for (int i : cast<ShuffleVectorInst>(&I)->getShuffleMask()) d.x->idx.push_back((unsigned)i); break; }
      case Instruction::LandingPad: {
        d.op = I_LPAD; d.x = new Extra(); auto *lp = cast<LandingPadInst>(&I); d.x->cleanup = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) d.x->clauses.push_back({0, constVal(lp->getClause(i)).c}); else d.x->clauses.push_back({1, 0}); }
        break; }
      case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(&I); d.op = I_ATOMICRMW; d.sub = r->getOperation(); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); break; }
      case Instruction::AtomicCmpXchg: { d.op = I_CMPXCHG; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); d.x = new Extra(); d.x->ty2 = ty(I.getOperand(1)->getType()); break; }
      case Instruction::Fence: d.op = I_NOP; break;
      case Instruction::Freeze: d.op = I_FREEZE; d.a = opnd(I.getOperand(0)); break;
      case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(&I);
        d.op = I_CALL; d.x = new Extra();
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        for (auto &a : cb->args()) { d.x->ops.push_back(opnd(a.get())); TyD *t = isa<MetadataAsValue>(a.get()) ? nullptr : ty(a->getType()); d.x->argw.push_back({t && t->fp, t ? t->bits : 0}); }
        for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) { d.x->byval.resize(cb->arg_size(), 0); d.x->byval[i] = DL->getTypeAllocSize(cb->getParamByValType(i)); }
        if (auto *inv = dyn_cast<InvokeInst>(&I)) { d.x->invoke = true; d.x->e0 = edge(&B, inv->getNormalDest()); d.x->e1 = edge(&B, inv->getUnwindDest()); }
        if (auto *f = dyn_cast<Function>(cv)) {
          if (f->isIntrinsic()) {
            d.op = I_INTRIN; d.x->intrin = f->getIntrinsicID();
            if (d.x->ops.size()) { TyD *t = isa<MetadataAsValue>(cb->getArgOperand(0)) ? nullptr : ty(cb->getArgOperand(0)->getType()); if (t) d.w2 = t->vec ? t->el[0]->bits : t->bits; d.x->ty2 = t; }
          } else d.x->callee = fnFor(f);
        } else if (auto *al = dyn_cast<GlobalAlias>(cv)) { if (auto *f = dyn_cast<Function>(al->getAliaseeObject())) d.x->callee = fnFor(f); else d.a = opnd(cb->getCalledOperand()); }
        else if (isa<InlineAsm>(cv)) { d.op = I_NOP; }
        else d.a = opnd(cb->getCalledOperand());
        break; }
      case Instruction::VAArg: d.op = I_UNSUP; break;
      default:
        if (I.isBinaryOp()) { d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); if (I.getOpcode() == Instruction::FRem) { d.op = I_UNSUP; break; } d.sub = (uint8_t)binOp(I.getOpcode()); d.op = I.getType()->isFPOrFPVectorTy() ? I_FBIN : I_BIN; if (d.vec) d.w = d.ty->el[0]->bits; }
        else d.op = I_UNSUP;
    }
    if (d.op == I_FNEG && d.vec) d.w = d.ty->el[0]->bits;
  }
  return c;
}

// ---------------------------------------------------------------- memory
static const Obj *robj(State &s, uint64_t id) {
  if (id < HEAP0) {
    if (id >= gInit.size()) return nullptr;
    uint64_t c = id >> 6;
    if (c < s.glob.size() && s.glob[c]) { Obj *o = s.glob[c]->o[id & 63].p; if (o) return o; }
    return gInit[id].p;
  }
  uint64_t i = id - HEAP0, c = i >> 6;
  if (c >= s.heap.size() || !s.heap[c]) return nullptr;
  return s.heap[c]->o[i & 63].p;
}
static Chunk *wchunk(std::vector<ChunkP> &v, uint64_t c) {
  if (c >= v.size()) v.resize(c + 1);
  if (!v[c]) v[c] = ChunkP(new Chunk());
  else if (v[c]->rc > 1) { Chunk *n = new Chunk(); for (int i = 0; i < 64; i++) n->o[i] = v[c]->o[i]; v[c] = ChunkP(n); }
  return v[c].p;
}
static Obj *wobj(State &s, uint64_t id) {
  bool g = id < HEAP0;
  uint64_t i = g ? id : id - HEAP0;
  Chunk *c = wchunk(g ? s.glob : s.heap, i >> 6);
  ObjP &o = c->o[i & 63];
  if (!o) { if (!g) return nullptr; Obj *n = new Obj(*gInit[id].p); n->rc = 0; o = ObjP(n); }
  else if (o->rc > 1) { Obj *n = new Obj(*o.p); n->rc = 0; o = ObjP(n); }
  return o.p;
}
static uint64_t allocObj(State &s, uint64_t size, int kind, const char *tag) {
  uint64_t i = s.nextObj++;
  Obj *o = new Obj(); o->size = size; o->kind = kind; o->tag = tag; o->b.assign(size, 0xAA);
  wchunk(s.heap, i >> 6)->o[i & 63] = ObjP(o);
  return addrOf(i + HEAP0);
}
static void freeObj(State &s, uint64_t id) {
  uint64_t i = id - HEAP0;
  wchunk(s.heap, i >> 6)->o[i & 63] = ObjP();
}
struct Kill {};          // path terminated (violation or infeasible)
struct Restart {};       // re-execute the current instruction (after fork / block)
[[noreturn]] static void violation(State &s, const std::string &kind, const std::string &msg, ModelP m = nullptr);
static bool decide(State &s, Expr *c);
static void concretize(State &s, SVal &v, unsigned w, const char *what);

static const Obj *accessR(State &s, uint64_t a, uint64_t n, const char *what) {
  uint64_t id = idOf(a), off = offOf(a);
  if (a < (1ULL << 28)) violation(s, "memory", std::string(what) + ": null/invalid pointer dereference (address " + std::to_string(a) + ")");
  const Obj *o = robj(s, id);
  if (!o) violation(s, "memory", std::string(what) + ": access to freed or invalid memory");
  if (o->kind == 4) extUsed.insert(o->tag);
  if (off + n > o->size) violation(s, "memory", std::string(what) + ": out-of-bounds access (offset " + std::to_string(off) + ", size " + std::to_string(n) + ", object size " + std::to_string(o->size) + " [" + o->tag + "])");
  return o;
}
static void raceCheck(State &s, uint64_t a, uint64_t n, bool write, bool atomic);
static Obj *accessW(State &s, uint64_t a, uint64_t n, const char *what) {
  const Obj *o = accessR(s, a, n, what);
  if (o->ro) violation(s, "memory", std::string(what) + ": write to constant object " + o->tag);
  if (o->kind == 3) violation(s, "memory", "write to function");
  return wobj(s, idOf(a));
}
static SVal loadScalar(const Obj *o, uint64_t off, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  bool sym = false;
  if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (n <= 8) { uint64_t v = 0; memcpy(&v, &o->b[off], n); return SVal(v & mask64(bits)); }
    u128 v = 0; memcpy(&v, &o->b[off], std::min(16u, n)); return mkV(v, bits);
  }
  Expr *e = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Expr *b = o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8);
    e = e ? mkConcat(b, e) : b;
  }
  if (bits % 8) e = mkExtract(e, 0, bits);
  return wrap(e);
}
static SVal loadVal(const Obj *o, uint64_t off, TyD *t) {
  if (t->kind == K_AGG) { std::vector<SVal> v; for (size_t i = 0; i < t->el.size(); i++) v.push_back(loadVal(o, off + t->off[i], t->el[i])); return SVal(0, mkAgg(v)); }
  return loadScalar(o, off, t->bits);
}
static void storeScalar(Obj *o, uint64_t off, const SVal &v, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  if (isC(v)) {
    if (n <= 8) { uint64_t c = (uint64_t)cval(v); memcpy(&o->b[off], &c, n); }
    else { u128 c = cval(v); memcpy(&o->b[off], &c, std::min(16u, n)); }
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
    return;
  }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  Expr *e = v.e;
  if (bits % 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = mkExtract(e, i * 8, 8);
    if (b->isConst()) { o->b[off + i] = (uint8_t)b->c; o->s[off + i] = nullptr; }
    else o->s[off + i] = b;
  }
}
static void storeVal(Obj *o, uint64_t off, const SVal &v, TyD *t) {
  if (t->kind == K_AGG) { for (size_t i = 0; i < t->el.size(); i++) storeVal(o, off + t->off[i], (*v.e->agg)[i], t->el[i]); return; }
  storeScalar(o, off, v, t->bits);
}
static void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n, const char *what) {
  if (!n) return;
  raceCheck(s, src, n, false, false); raceCheck(s, dst, n, true, false);
  const Obj *so = accessR(s, src, n, what);
  ObjP hold(const_cast<Obj *>(so));
  Obj *d = accessW(s, dst, n, what);
  uint64_t so_ = offOf(src), do_ = offOf(dst);
  memmove(&d->b[do_], &hold->b[so_], n);
  if (!hold->s.empty()) {
    if (d->s.empty()) d->s.assign(d->size, nullptr);
    memmove(&d->s[do_], &hold->s[so_], n * sizeof(Expr *));
  } else if (!d->s.empty()) std::fill(d->s.begin() + do_, d->s.begin() + do_ + n, nullptr);
}
static uint64_t rd64(State &s, uint64_t a) {
  const Obj *o = accessR(s, a, 8, "read"); SVal v = loadScalar(o, offOf(a), 64);
  if (!isC(v)) { concretize(s, v, 64, "rd64"); }
  return v.c;
}
static uint32_t rd32(State &s, uint64_t a) { const Obj *o = accessR(s, a, 4, "read"); SVal v = loadScalar(o, offOf(a), 32); if (!isC(v)) concretize(s, v, 32, "rd32"); return (uint32_t)v.c; }
static void wr(State &s, uint64_t a, uint64_t v, unsigned bits) { Obj *o = accessW(s, a, bits / 8, "write"); storeScalar(o, offOf(a), SVal(v), bits); }
static std::string cstr(State &s, uint64_t a, size_t max = 4096) {
  std::string r; if (!a) return "(null)";
  const Obj *o = robj(s, idOf(a)); if (!o) return "(bad)";
  for (uint64_t i = offOf(a); i < o->size && r.size() < max; i++) { if (!o->s.empty() && o->s[i]) { r += '?'; continue; } if (!o->b[i]) break; r += (char)o->b[i]; }
  return r;
}

// ---------------------------------------------------------------- frames, stack traces
static Frame *wframe(FrameP &f) {
  if (f->rc > 1) { Frame *n = new Frame(*f.p); n->rc = 0; f = FrameP(n); }
  return f.p;
}
static std::string locOf(const Ins &i) {
  if (i.I) if (const DebugLoc &dl = i.I->getDebugLoc()) { std::string f = dl->getFilename().str(); return f + ":" + std::to_string(dl.getLine()); }
  return "?";
}
static std::vector<std::string> backtrace(State &s, int tid, unsigned max = 24) {
  std::vector<std::string> r;
  auto &st = s.threads[tid].stack;
  for (size_t i = st.size(); i-- > 0 && r.size() < max;) {
    Frame *f = st[i].p;
    std::string nm = demangle(f->code->fn->name);
    if (nm.size() > 160) nm = nm.substr(0, 160) + "...";
    r.push_back(nm + " @ " + locOf(f->code->ins[f->pc]));
  }
  return r;
}
static std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputsOf(State &s, const Model &m) {
  std::vector<std::pair<std::string, std::pair<unsigned, u128>>> r;
  for (auto &i : s.inputs) r.push_back({i.name, {i.bits, m.get(i.var) & maskW(i.bits)}});
  return r;
}
// true libm values for uninterpreted applications
static bool ufTrue(const UFApp &u, const Model &m, u128 &out);
// make sure model is consistent with real libm; extra = additional constraint currently assumed
static bool refineModel(State &s, ModelP &m, Expr *extra) {
  std::vector<Expr *> cs = s.pc;
  for (int it = 0; it < 40; it++) {
    bool ok = true;
    std::vector<Expr *> lem;
    for (auto &u : s.uf) {
      u128 tv; if (!ufTrue(u, *m, tv)) continue;
      u128 cv = evalExpr(u.var, *m);
      if (cv != tv) {
        ok = false;
        Expr *pre = mkTrue();
        for (auto *a : u.args) pre = mkBin(Op::And, pre, mkEq(a, mkConst(evalExpr(a, *m), a->width)));
        lem.push_back(mkBin(Op::Or, mkNot(pre), mkEq(u.var, mkConst(tv, u.var->width))));
      }
    }
    if (ok) return true;
    for (auto *l : lem) cs.push_back(l);
    Expr *q = extra ? extra : mkTrue();
    // fold all lemmas into the query so that the base model is not reused blindly
    for (auto *l : lem) q = mkBin(Op::And, q, l);
    ModelP out;
    Res r = solve(cs, q, m, out);
    if (r != Res::Sat) return false;
    m = out;
  }
  return false;
}
static unsigned optFeasMs = 0;
// a state whose feasibility was not confirmed when it was created: find a model now, or drop it
static void confirm(State &s) {
  if (!s.unv) return;
  ModelP out; Res r = solve(s.pc, mkTrue(), nullptr, out);
  if (r == Res::Unsat) { nKilled++; throw Kill(); }
  if (r == Res::Unknown) { incomplete("solver gave no answer on the feasibility of a path"); throw Kill(); }
  s.model = out; s.unv = false;
}
static void violation(State &s, const std::string &kind, const std::string &msg, ModelP m) {
  if (!m) { confirm(s); m = s.model; }
  if (!s.uf.empty()) {
    ModelP mm = m;
    // extra constraint is already part of pc when m was derived from s.model
    if (!refineModel(s, mm, nullptr)) { incomplete("counterexample for '" + msg + "' depends on unconstrained libm values; refinement failed"); throw Kill(); }
    m = mm;
  }
  Violation v; v.kind = kind; v.msg = msg; v.stack = backtrace(s, s.cur);
  if (!v.stack.empty()) { auto p = v.stack[0].rfind(" @ "); v.loc = v.stack[0].substr(p + 3); }
  v.inputs = inputsOf(s, *m);
  v.sched = s.schedWhat;
  if (kind == "deadlock") for (size_t t = 0; t < s.threads.size(); t++) { v.stack.push_back("-- thread " + std::to_string(t) + (s.threads[t].finished ? " (finished)" : "")); for (auto &x : backtrace(s, t, 10)) v.stack.push_back(x); }
  for (auto &l : s.log) v.stack.push_back("log: " + l);
  viols.push_back(v);
  if (!optAllViol) stopAll = true;
  throw Kill();
}

// ---------------------------------------------------------------- forking
static uint64_t nextStateId = 1;
static State *forkState(State &s) {
  State *n = new State(s);
  n->id = nextStateId++; n->depth++;
  // the interpreter holds a raw pointer to the running frame: give the copy its own
  if (!n->threads[s.cur].stack.empty()) { Frame *nf = new Frame(*n->threads[s.cur].stack.back().p); nf->rc = 0; n->threads[s.cur].stack.back() = FrameP(nf); }
  nForks++;
  return n;
}
static bool pcHas(State &s, Expr *c) { for (size_t i = s.pc.size(), k = 0; i-- > 0 && k < 400; k++) if (s.pc[i] == c) return true; return false; }
static void addPC(State &s, Expr *c) {
  if (c->isConst()) return;
  if (c->op == Op::And && c->width == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (!pcHas(s, c)) s.pc.push_back(c);
}
static bool decide(State &s, Expr *c) {
  if (c->isConst()) return c->c != 0;
  if (s.unv) {
    if (pcHas(s, c)) return true;
    Expr *nc = mkNot(c); if (pcHas(s, nc)) return false;
    ModelP m1, m2; Res r1 = solve(s.pc, c, nullptr, m1, optFeasMs), r2 = solve(s.pc, nc, nullptr, m2, optFeasMs);
    if (r1 == Res::Unsat && r2 == Res::Unsat) { nKilled++; throw Kill(); }
    if (r1 == Res::Unsat) { if (r2 == Res::Sat) { s.model = m2; s.unv = false; } addPC(s, nc); return false; }
    if (r2 != Res::Unsat) {
      State *n = forkState(s);
      addPC(*n, nc); if (r2 == Res::Sat) { n->model = m2; n->unv = false; }
      work.push_back(n);
    }
    if (r1 == Res::Sat) { s.model = m1; s.unv = false; }
    addPC(s, c); return true;
  }
  bool v = evalExpr(c, *s.model) != 0;
  Expr *mine = v ? c : mkNot(c), *other = v ? mkNot(c) : c;
  if (pcHas(s, mine)) return v;
  ModelP out;
  Res r = solve(s.pc, other, s.model, out, optFeasMs);
  if (r == Res::Unsat) return v;
  if (r == Res::Unknown && optFeasMs) { State *n = forkState(s); addPC(*n, other); n->unv = true; work.push_back(n); }
  else if (r == Res::Unknown) incomplete("solver gave no answer on a branch condition at " + backtrace(s, s.cur, 1)[0]);
  else {
    State *n = forkState(s);
    addPC(*n, other); n->model = out;
    work.push_back(n);
  }
  addPC(s, mine);
  return v;
}
static void concretize(State &s, SVal &v, unsigned w, const char *what) {
  if (!v.e) return;
  if (v.e->isConst()) { if (v.e->width <= 64) v = SVal((uint64_t)v.e->c); return; }
  for (unsigned n = 0;; n++) {
    confirm(s);
    u128 val = evalExpr(v.e, *s.model);
    Expr *eq = mkEq(v.e, mkConst(val, v.e->width));
    bool b = decide(s, eq);
    if (b) { v = mkV(val, w); if (v.e && v.e->width <= 64) v = SVal((uint64_t)v.e->c); return; }
  }
}
static bool mustTrue(State &s, Expr *c, ModelP &cex) {
  if (c->isConst()) { if (!c->c) { confirm(s); cex = s.model; return false; } return true; }
  ModelP out; Res r = solve(s.pc, mkNot(c), s.unv ? ModelP() : s.model, out);
  if (r == Res::Sat && s.unv) { s.model = out; }
  if (r == Res::Unsat) return true;
  if (r == Res::Unknown) { fprintf(stderr, "UNK %s\n", exprStr(c, 14).c_str()), incomplete("solver gave no answer on an assertion at " + backtrace(s, s.cur, 1)[0]); return true; }
  cex = out; return false;
}
static void assumeC(State &s, Expr *c) {
  if (c->isConst()) { if (!c->c) { nKilled++; throw Kill(); } return; }
  if (!s.unv && evalExpr(c, *s.model)) { addPC(s, c); return; }
  ModelP out; Res r = solve(s.pc, c, s.unv ? ModelP() : s.model, out, s.unv ? optFeasMs : 0);
  if (r == Res::Unknown && s.unv) { addPC(s, c); return; }
  if (r == Res::Unsat) { nKilled++; throw Kill(); }
  if (r == Res::Unknown) { incomplete("solver gave no answer on an assumption"); throw Kill(); }
  addPC(s, c); s.model = out; s.unv = false;
}
static std::map<std::string, Expr *> canonVar;
static Expr *newInput(State &s, const std::string &name, unsigned bits) {
  uint32_t k = s.inputCount[name]++;
  std::string full = name + "#" + std::to_string(k);
  std::string key = full + ":" + std::to_string(bits);
  auto &v = canonVar[key];
  if (!v) v = mkVar(full, bits);
  s.inputs.push_back({full, v->aux, bits});
  if (optReplay) {
    auto it = replayVals.find(full);
    uint64_t val = it == replayVals.end() ? 0 : it->second;
    auto m = std::make_shared<Model>(*s.model); m->set(v->aux, val); s.model = m;
    s.pc.push_back(mkEq(v, mkConst(val, bits)));
  }
  return v;
}

// ---------------------------------------------------------------- threads / scheduling
static void vcJoin(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcTick(State &s) { auto &t = s.threads[s.cur]; if (t.vc.size() <= (size_t)s.cur) t.vc.resize(s.cur + 1, 0); t.vc[s.cur]++; }
static void hbAcquire(State &s, uint64_t a) { if (!optRaces) return; auto it = s.syncvc.find(a); if (it != s.syncvc.end()) vcJoin(s.threads[s.cur].vc, it->second); }
static void hbRelease(State &s, uint64_t a) { if (!optRaces) return; vcJoin(s.syncvc[a], s.threads[s.cur].vc); vcTick(s); }

static void raceCheck(State &s, uint64_t a, uint64_t n, bool write, bool atomic) {
  if (!optRaces || s.threads.size() < 2 || n == 0) return;
  if (a < (1ULL << 28)) return;
  uint64_t id = idOf(a), off = offOf(a);
  const Obj *o = robj(s, id);
  if (!o || o->kind == 3 || o->ro || off + n > o->size) return;
  Obj *w = wobj(s, id);
  if (!w->shadow) w->shadow = std::make_shared<std::map<uint32_t, Shadow>>();
  else if (w->shadow.use_count() > 1) w->shadow = std::make_shared<std::map<uint32_t, Shadow>>(*w->shadow);
  auto &vc = s.threads[s.cur].vc;
  if (vc.size() <= (size_t)s.cur) vc.resize(s.cur + 1, 0);
  if (vc[s.cur] == 0) vc[s.cur] = 1;
  for (uint64_t g = off / 8; g <= (off + n - 1) / 8; g++) {
    uint8_t mask = 0;
    for (unsigned k = 0; k < 8; k++) { uint64_t x = g * 8 + k; if (x >= off && x < off + n) mask |= 1 << k; }
    Shadow &sh = (*w->shadow)[(uint32_t)g];
    auto conflict = [&](std::vector<Shadow::Acc> &v) {
      for (auto &x : v) if ((x.mask & mask) && (x.tid & 0x7f) != s.cur && !((x.tid & 0x80) && atomic)) { uint32_t kn = (size_t)(x.tid & 0x7f) < vc.size() ? vc[x.tid & 0x7f] : 0; if (x.clk > kn) return true; }
      return false; };
    if (conflict(sh.w) || (write && conflict(sh.r)))
      violation(s, "race", std::string("data race on ") + o->tag + " offset " + std::to_string(off) + " between thread " + std::to_string(s.cur) + " and another thread");
    auto &v = write ? sh.w : sh.r;
    uint8_t tag = s.cur | (atomic ? 0x80 : 0);
    bool found = false;
    for (auto &x : v) if (x.tid == tag) { x.mask |= mask; x.clk = vc[s.cur]; found = true; break; }
    if (!found) v.push_back({tag, mask, vc[s.cur]});
  }
}

static bool enabled(State &s, int ti, bool allowTimeout) {
  Thread &t = s.threads[ti];
  if (t.finished) return false;
  switch (t.wk) {
    case WK::None: return true;
    case WK::Mutex: { auto it = s.mutexes.find(t.waddr); return it == s.mutexes.end() || (it->second.owner == -1 && it->second.readers == 0); }
    case WK::RwW: { auto it = s.mutexes.find(t.waddr); return it == s.mutexes.end() || (it->second.owner == -1 && it->second.readers == 0); }
    case WK::RwR: { auto it = s.mutexes.find(t.waddr); return it == s.mutexes.end() || it->second.owner == -1; }
    case WK::Cond: {
      auto it = s.mutexes.find(t.wmutex); bool free = it == s.mutexes.end() || it->second.owner == -1;
      if (t.signaled) return free;
      return t.timed && free && (allowTimeout || s.timeouts < (int)optTimeouts);
    }
    case WK::Join: return s.threads[t.waddr].finished;
    case WK::Once: { auto it = s.mutexes.find(t.waddr); return it == s.mutexes.end() || it->second.owner == -1; }
    case WK::Sleep: return allowTimeout || s.timeouts < (int)optTimeouts;
    default: return true;
  }
}
// current thread cannot run (blocked/finished): choose another; forks over all enabled ones
static void pickNext(State &s) {
  std::vector<int> en;
  for (size_t i = 0; i < s.threads.size(); i++) if (enabled(s, i, false)) en.push_back(i);
  if (en.empty()) {
    for (size_t i = 0; i < s.threads.size(); i++) if (enabled(s, i, true)) { // let time pass: earliest deadline
      if (en.empty() || s.threads[i].deadline < s.threads[en[0]].deadline) { en.clear(); en.push_back(i); } }
  }
  if (en.empty()) violation(s, "deadlock", "deadlock: no thread can make progress");
  nSwitches++;
  for (size_t k = 1; k < en.size(); k++) { State *n = forkState(s); n->cur = en[k]; work.push_back(n); }
  s.cur = en[0];
}
// called before a visible operation of the current thread. Throws Restart if control moved elsewhere.
static void schedPoint(State &s) {
  if (s.threads.size() < 2) return;
  Thread &t = s.threads[s.cur];
  if (t.schedDone) { t.schedDone = false; return; }
  if (s.preemptions >= (int)optPreempt) return;
  std::vector<int> en;
  for (size_t i = 0; i < s.threads.size(); i++) if ((int)i != s.cur && enabled(s, i, false)) en.push_back(i);
  for (int o : en) {
    State *n = forkState(s);
    n->threads[s.cur].schedDone = true;
    n->cur = o; n->preemptions++;
    work.push_back(n);
    nSwitches++;
  }
}
static void logOp(State &s, const char *k) { if (s.threads.size() > 1 || 1) { s.schedWhat.push_back(std::to_string(s.cur) + " " + k); } }
[[noreturn]] static void blockOn(State &s, WK k, uint64_t a) {
  Thread &t = s.threads[s.cur];
  t.wk = k; t.waddr = a; t.schedDone = true;
  pickNext(s);
  throw Restart();
}

// ---------------------------------------------------------------- exceptions
static std::unordered_map<uint64_t, uint32_t> tiIds;
static uint32_t tiId(uint64_t a) { auto &r = tiIds[a]; if (!r) r = tiIds.size(); return r; }
static uint64_t extAddr(const char *n) { auto it = gvAddrByName.find(n); return it == gvAddrByName.end() ? 0 : it->second; }
static int tiKind(State &s, uint64_t ti) { // 0 class 1 si 2 vmi 3 pointer 4 other
  uint64_t v = rd64(s, ti);
  auto is = [&](const char *n) { uint64_t a = extAddr(n); return a && v == a + 16; };
  if (is("_ZTVN10__cxxabiv117__class_type_infoE")) return 0;
  if (is("_ZTVN10__cxxabiv120__si_class_type_infoE")) return 1;
  if (is("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) return 2;
  if (is("_ZTVN10__cxxabiv119__pointer_type_infoE")) return 3;
  return 4;
}
static bool isExtTI(uint64_t ti) { return idOf(ti) < gInit.size() && gInit[idOf(ti)]->kind == 4; }
// collect (typeinfo, address) of every base subobject
static void collectBases(State &s, uint64_t ti, uint64_t obj, std::vector<std::pair<uint64_t, uint64_t>> &out) {
  out.push_back({ti, obj});
  if (isExtTI(ti)) return;
  int k = tiKind(s, ti);
  if (k == 1) collectBases(s, rd64(s, ti + 16), obj, out);
  else if (k == 2) {
    uint32_t n = rd32(s, ti + 20);
    for (uint32_t i = 0; i < n; i++) {
      uint64_t b = rd64(s, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(s, ti + 32 + 16 * i);
      bool virt = of & 1; int64_t o = of >> 8;
      uint64_t ba = obj;
      if (obj) { if (virt) { uint64_t vp = rd64(s, obj); ba = obj + (int64_t)rd64(s, vp + o); } else ba = obj + o; }
      collectBases(s, b, ba, out);
    }
  }
}
static bool catchMatch(State &s, uint64_t thrown, uint64_t obj, uint64_t c, uint64_t &adj) {
  adj = obj;
  if (c == 0) return true;
  if (c == thrown) return true;
  int k = isExtTI(thrown) ? 4 : tiKind(s, thrown);
  if (k == 1 || k == 2) {
    std::vector<std::pair<uint64_t, uint64_t>> v; collectBases(s, thrown, obj, v);
    for (auto &p : v) if (p.first == c) { adj = p.second; return true; }
  }
  return false;
}
static void takeEdge(State &s, Frame *f, const Edge &e);
static void popFrame(State &s) {
  auto &st = s.threads[s.cur].stack;
  for (uint64_t a : st.back()->allocas) freeObj(s, idOf(a));
  st.pop_back();
}
static std::string tiName(State &s, uint64_t ti) { return demangle("_ZTS" + cstr(s, rd64(s, ti + 8))); }
static std::string excText(State &s, uint64_t obj, uint64_t ti) {
  std::string r = tiName(s, ti);
  return r;
}
[[noreturn]] static void unwind(State &s, uint64_t obj, bool resume) {
  Thread &t = s.threads[s.cur];
  uint64_t ti = s.exc[obj].ti;
  t.curExc = obj;
  if (!resume) {
    bool found = false;
    for (size_t i = t.stack.size(); i-- > 0 && !found;) {
      Frame *f = t.stack[i].p; const Ins &in = f->code->ins[f->pc];
      if (in.op == I_CALL && in.x->invoke) {
        const Ins &lp = f->code->ins[in.x->e1.target];
        if (lp.op != I_LPAD) { found = true; break; }
        uint64_t adj;
        for (auto &c : lp.x->clauses) if (c.first == 0 && catchMatch(s, ti, obj, c.second, adj)) { found = true; break; }
      }
    }
    if (!found) violation(s, "uncaught", "uncaught exception of type " + excText(s, obj, ti) + " (std::terminate)");
  }
  for (;;) {
    if (t.stack.empty()) violation(s, "uncaught", "uncaught exception (std::terminate)");
    FrameP &fp = t.stack.back();
    const Ins &in = fp->code->ins[fp->pc];
    if (in.op == I_CALL && in.x->invoke) {
      const Ins &lp = fp->code->ins[in.x->e1.target];
      if (lp.op != I_LPAD) { fprintf(stderr, "landing pad not first\n"); exit(3); }
      bool hit = false; uint64_t adj = obj, sel = 0;
      for (auto &c : lp.x->clauses) if (c.first == 0 && catchMatch(s, ti, obj, c.second, adj)) { hit = true; sel = tiId(c.second); break; }
      if (hit || lp.x->cleanup) {
        Frame *f = wframe(fp);
        f->lpPtr = SVal(obj); f->lpSel = SVal(hit ? sel : 0);
        t.curAdj = adj;
        takeEdge(s, f, in.x->e1);
        throw Restart();
      }
    }
    popFrame(s);
  }
}
static void excRelease(State &s, uint64_t obj, bool &pushed);
static void pushCall(State &s, FnInfo *fi, const std::vector<SVal> &args, uint8_t onRet = 0);

static void takeEdge(State &s, Frame *f, const Edge &e) {
  size_t n = e.moves.size();
  if (n) {
    auto get = [&](int o) -> SVal { return o >= 0 ? f->regs[o] : f->code->consts[~o]; };
    if (n == 1) f->regs[e.moves[0].first] = get(e.moves[0].second);
    else {
      SVal tmp[16]; std::vector<SVal> big; SVal *t = tmp;
      if (n > 16) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) t[i] = get(e.moves[i].second);
      for (size_t i = 0; i < n; i++) f->regs[e.moves[i].first] = t[i];
    }
  }
  f->pc = e.target;
}
static void pushCall(State &s, FnInfo *fi, const std::vector<SVal> &args, uint8_t onRet) {
  if (!fi->code) decode(fi);
  fi->executed = true; fi->calls++;
  auto &st = s.threads[s.cur].stack;
  if (st.size() > 20000) violation(s, "stack", "call stack overflow (depth > 20000)");
  Frame *f = new Frame();
  f->code = fi->code; f->regs.resize(fi->code->nregs);
  unsigned na = fi->code->nargs;
  for (unsigned i = 0; i < na && i < args.size(); i++) f->regs[i] = args[i];
  for (unsigned i = na; i < args.size(); i++) f->varargs.push_back(args[i]);
  f->onReturn = onRet;
  st.push_back(FrameP(f));
}
static void finishCall(State &s, Frame *f, const Ins &in, const SVal &ret, bool set) {
  if (set && in.dst >= 0) f->regs[in.dst] = ret;
  if (in.op == I_CALL && in.x->invoke) takeEdge(s, f, in.x->e0); else f->pc++;
}

#include "handlers.inc"

// ---------------------------------------------------------------- instruction semantics
static SVal vecMap2(const SVal &a, const SVal &b, std::function<SVal(const SVal &, const SVal &)> f) {
  std::vector<SVal> r; for (size_t i = 0; i < a.e->agg->size(); i++) r.push_back(f((*a.e->agg)[i], (*b.e->agg)[i])); return SVal(0, mkAgg(r));
}
static SVal vecMap1(const SVal &a, std::function<SVal(const SVal &)> f) {
  std::vector<SVal> r; for (auto &x : *a.e->agg) r.push_back(f(x)); return SVal(0, mkAgg(r));
}
static SVal doBin(State &s, Op op, unsigned w, const SVal &a, const SVal &b) {
  if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
    if (isC(b)) { if (cval(b) == 0) violation(s, "arith", "integer division by zero"); }
    else if (decide(s, mkEq(b.e, mkConst(0, w)))) violation(s, "arith", "integer division by zero");
    if ((op == Op::SDiv || op == Op::SRem)) {
      Expr *ov = mkBin(Op::And, mkEq(ex(a, w), mkConst((u128)1 << (w - 1), w)), mkEq(ex(b, w), mkConst(maskW(w), w)));
      if (decide(s, ov)) violation(s, "arith", "signed division overflow");
    }
  }
  if (!a.e && !b.e) {
    switch (op) {
      case Op::Add: return SVal((a.c + b.c) & mask64(w));
      case Op::Sub: return SVal((a.c - b.c) & mask64(w));
      case Op::Mul: return SVal((a.c * b.c) & mask64(w));
      case Op::And: return SVal(a.c & b.c);
      case Op::Or: return SVal(a.c | b.c);
      case Op::Xor: return SVal(a.c ^ b.c);
      default: return mkV(foldBin(op, w, a.c, b.c), w);
    }
  }
  return wrap(mkBin(op, ex(a, w), ex(b, w)));
}
static SVal doFBin(Op op, unsigned w, const SVal &a, const SVal &b) {
  if (!a.e && !b.e) {
    if (w == 64) {
      double x, y; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); double r;
      switch (op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; default: r = x / y; }
      uint64_t u; memcpy(&u, &r, 8); return SVal(u);
    }
    return mkV(foldF2(op, w, a.c, b.c), w);
  }
  return wrap(mkF2(op, ex(a, w), ex(b, w)));
}
static SVal doICmp(unsigned p, unsigned w, const SVal &a, const SVal &b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return SVal(x == y); case CmpInst::ICMP_NE: return SVal(x != y);
      case CmpInst::ICMP_ULT: return SVal(x < y); case CmpInst::ICMP_ULE: return SVal(x <= y); case CmpInst::ICMP_UGT: return SVal(x > y); case CmpInst::ICMP_UGE: return SVal(x >= y);
      case CmpInst::ICMP_SLT: return SVal(sx < sy); case CmpInst::ICMP_SLE: return SVal(sx <= sy); case CmpInst::ICMP_SGT: return SVal(sx > sy); case CmpInst::ICMP_SGE: return SVal(sx >= sy);
    }
  }
  Expr *x = ex(a, w), *y = ex(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return wrap(mkEq(x, y)); case CmpInst::ICMP_NE: return wrap(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return wrap(mkBin(Op::Ult, x, y)); case CmpInst::ICMP_ULE: return wrap(mkBin(Op::Ule, x, y));
    case CmpInst::ICMP_UGT: return wrap(mkBin(Op::Ult, y, x)); case CmpInst::ICMP_UGE: return wrap(mkBin(Op::Ule, y, x));
    case CmpInst::ICMP_SLT: return wrap(mkBin(Op::Slt, x, y)); case CmpInst::ICMP_SLE: return wrap(mkBin(Op::Sle, x, y));
    case CmpInst::ICMP_SGT: return wrap(mkBin(Op::Slt, y, x)); case CmpInst::ICMP_SGE: return wrap(mkBin(Op::Sle, y, x));
  }
  abort();
}
static SVal doFCmp(unsigned p, unsigned w, const SVal &a, const SVal &b) {
  Expr *x = ex(a, w), *y = ex(b, w);
  Expr *uno = nullptr;
  auto U = [&]() { if (!uno) uno = mkFCmp(Op::FUno, x, y); return uno; };
  auto Or = [&](Expr *q) { return mkBin(Op::Or, U(), q); };
  Expr *r;
  switch (p) {
    case CmpInst::FCMP_FALSE: r = mkFalse(); break; case CmpInst::FCMP_TRUE: r = mkTrue(); break;
    case CmpInst::FCMP_OEQ: r = mkFCmp(Op::FOeq, x, y); break; case CmpInst::FCMP_OLT: r = mkFCmp(Op::FOlt, x, y); break;
    case CmpInst::FCMP_OLE: r = mkFCmp(Op::FOle, x, y); break; case CmpInst::FCMP_OGT: r = mkFCmp(Op::FOlt, y, x); break;
    case CmpInst::FCMP_OGE: r = mkFCmp(Op::FOle, y, x); break;
    case CmpInst::FCMP_ONE: r = mkBin(Op::And, mkNot(U()), mkNot(mkFCmp(Op::FOeq, x, y))); break;
    case CmpInst::FCMP_ORD: r = mkNot(U()); break; case CmpInst::FCMP_UNO: r = U(); break;
    case CmpInst::FCMP_UEQ: r = Or(mkFCmp(Op::FOeq, x, y)); break;
    case CmpInst::FCMP_UNE: r = mkNot(mkFCmp(Op::FOeq, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(mkFCmp(Op::FOle, y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(mkFCmp(Op::FOlt, y, x)); break;
    case CmpInst::FCMP_UGT: r = mkNot(mkFCmp(Op::FOle, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mkFCmp(Op::FOlt, x, y)); break;
    default: abort();
  }
  return wrap(r);
}
static Expr *aggBits(const SVal &v, TyD *t) {
  if (t->kind != K_AGG) return ex(v, t->bits);
  Expr *e = nullptr;
  for (size_t i = 0; i < t->el.size(); i++) { Expr *x = aggBits((*v.e->agg)[i], t->el[i]); e = e ? mkConcat(x, e) : x; }
  return e;
}
static SVal bitsAgg(Expr *e, TyD *t) {
  if (t->kind != K_AGG) return wrap(e);
  std::vector<SVal> r; unsigned lo = 0;
  for (auto *el : t->el) { r.push_back(wrap(mkExtract(e, lo, el->bits))); lo += el->bits; }
  return SVal(0, mkAgg(r));
}
static SVal doSel(const SVal &c, const SVal &a, const SVal &b, TyD *t) {
  if (isC(c)) return cval(c) ? a : b;
  if (t->kind == K_AGG) { std::vector<SVal> r; for (size_t i = 0; i < t->el.size(); i++) r.push_back(doSel(c, (*a.e->agg)[i], (*b.e->agg)[i], t->el[i])); return SVal(0, mkAgg(r)); }
  return wrap(mkIte(c.e, ex(a, t->bits), ex(b, t->bits)));
}
static SVal insV(const SVal &agg, const std::vector<unsigned> &idx, size_t k, const SVal &v) {
  if (k == idx.size()) return v;
  std::vector<SVal> r = *agg.e->agg; r[idx[k]] = insV(r[idx[k]], idx, k + 1, v); return SVal(0, mkAgg(r));
}
static SVal doIntrin(State &s, Frame *f, const Ins &in, std::vector<SVal> &a, bool &handled);

static void step(State &s) {
  Thread *th = &s.threads[s.cur];
  Frame *f = wframe(th->stack.back());
  Code *code = f->code;
#define V(o) ((o) >= 0 ? f->regs[o] : code->consts[~(o)])
  for (;;) {
    const Ins &in = code->ins[f->pc];
    s.steps++; nSteps++; in.hit = true;
    if (optTrace) { std::string t; raw_string_ostream os(t); in.I->print(os); fprintf(stderr, "[%llu:%d] %s\n", (unsigned long long)s.id, s.cur, t.c_str()); }
    switch (in.op) {
      case I_NOP: f->pc++; break;
      case I_BR: takeEdge(s, f, in.x->e0); if ((s.steps & 0xfff) == 0) return; break;
      case I_CBR: {
        SVal c = V(in.a);
        bool b = c.e ? decide(s, c.e) : c.c != 0;
        takeEdge(s, f, b ? in.x->e0 : in.x->e1);
        break; }
      case I_SWITCH: {
        SVal c = V(in.a);
        if (isC(c)) {
          uint64_t v = (uint64_t)cval(c); bool hit = false;
          for (size_t i = 0; i < in.x->cases.size(); i++) if (in.x->cases[i] == v) { takeEdge(s, f, in.x->edges[i]); hit = true; break; }
          if (!hit) takeEdge(s, f, in.x->e0);
        } else {
          uint64_t mv = (uint64_t)evalExpr(c.e, *s.model); (void)mv;
          bool hit = false;
          for (size_t i = 0; i < in.x->cases.size(); i++) if (decide(s, mkEq(c.e, mkConst(in.x->cases[i], in.w)))) { takeEdge(s, f, in.x->edges[i]); hit = true; break; }
          if (!hit) takeEdge(s, f, in.x->e0);
        }
        break; }
      case I_RET: {
        SVal r; if (in.b) r = V(in.a);
        uint8_t orr = f->onReturn;
        popFrame(s);
        auto &st = th->stack;
        if (st.empty()) {
          th->finished = true; th->retval = r.c;
          if (s.cur == 0) return; // main finished
          logOp(s, "exit");
          s.liveThreads--;
          if (th->vc.size()) vcTick(s);
          pickNext(s);
          return;
        }
        f = wframe(st.back()); code = f->code;
        const Ins &ci = code->ins[f->pc];
        finishCall(s, f, ci, r, orr == 0);
        break; }
      case I_UNREACH: violation(s, "ub", "unreachable code executed (undefined behaviour)");
      case I_RESUME: { SVal v = V(in.a); uint64_t obj = (*v.e->agg)[0].c; popFrame(s); if (th->stack.empty()) violation(s, "uncaught", "uncaught exception"); unwind(s, obj, true); }
      case I_BIN: {
        SVal a = V(in.a), b = V(in.b);
        if (in.vec) f->regs[in.dst] = vecMap2(a, b, [&](const SVal &x, const SVal &y) { return doBin(s, (Op)in.sub, in.w, x, y); });
        else f->regs[in.dst] = doBin(s, (Op)in.sub, in.w, a, b);
        f->pc++; break; }
      case I_FBIN: {
        SVal a = V(in.a), b = V(in.b);
        if (in.vec) f->regs[in.dst] = vecMap2(a, b, [&](const SVal &x, const SVal &y) { return doFBin((Op)in.sub, in.w, x, y); });
        else f->regs[in.dst] = doFBin((Op)in.sub, in.w, a, b);
        f->pc++; break; }
      case I_FNEG: {
        SVal a = V(in.a);
        auto g = [&](const SVal &x) { return wrap(mkF1(Op::FNeg, ex(x, in.w), in.w)); };
        f->regs[in.dst] = in.vec ? vecMap1(a, g) : g(a); f->pc++; break; }
      case I_ICMP: {
        SVal a = V(in.a), b = V(in.b);
        f->regs[in.dst] = in.vec ? vecMap2(a, b, [&](const SVal &x, const SVal &y) { return doICmp(in.sub, in.w, x, y); }) : doICmp(in.sub, in.w, a, b);
        f->pc++; break; }
      case I_FCMP: {
        SVal a = V(in.a), b = V(in.b);
        f->regs[in.dst] = in.vec ? vecMap2(a, b, [&](const SVal &x, const SVal &y) { return doFCmp(in.sub, in.w, x, y); }) : doFCmp(in.sub, in.w, a, b);
        f->pc++; break; }
      case I_SEL: {
        SVal c = V(in.a), a = V(in.b), b = V(in.c);
        if (c.e && c.e->op == Op::Agg) { std::vector<SVal> r; for (size_t i = 0; i < in.ty->el.size(); i++) r.push_back(doSel((*c.e->agg)[i], (*a.e->agg)[i], (*b.e->agg)[i], in.ty->el[i])); f->regs[in.dst] = SVal(0, mkAgg(r)); }
        else f->regs[in.dst] = doSel(c, a, b, in.ty);
        f->pc++; break; }
      case I_LOAD: {
        SVal p = V(in.a);
        if (p.e) concretize(s, p, 64, "load address");
        if (in.atomic && s.threads.size() > 1) { if (!code->fn->noSched) schedPoint(s); logOp(s, "aload"); hbAcquire(s, p.c); }
        if (optRaces && s.threads.size() > 1) raceCheck(s, p.c, in.ty->store, false, in.atomic);
        const Obj *o = accessR(s, p.c, in.ty->store, "load");
        f->regs[in.dst] = in.ty->kind == K_AGG ? loadVal(o, offOf(p.c), in.ty) : loadScalar(o, offOf(p.c), in.ty->bits);
        f->pc++; break; }
      case I_STORE: {
        SVal v = V(in.a), p = V(in.b);
        if (p.e) concretize(s, p, 64, "store address");
        if (in.atomic && s.threads.size() > 1) { if (!code->fn->noSched) schedPoint(s); logOp(s, "astore"); hbRelease(s, p.c); }
        if (optRaces && s.threads.size() > 1) raceCheck(s, p.c, in.ty->store, true, in.atomic);
        Obj *o = accessW(s, p.c, in.ty->store, "store");
        storeVal(o, offOf(p.c), v, in.ty);
        f->pc++; break; }
      case I_GEP: {
        SVal p = V(in.a);
        if (p.e && p.e->op == Op::Agg) violation(s, "internal", "vector GEP");
        if (!p.e) p.c += in.imm; else p = wrap(mkBin(Op::Add, p.e, mkConst(in.imm, 64)));
        for (auto &g : in.x->gep) {
          SVal i = V(g.op);
          if (!i.e && !p.e) p.c += (uint64_t)sext64(i.c, g.w) * g.scale;
          else p = wrap(mkBin(Op::Add, mkBin(Op::Mul, mkSExt(ex(i, g.w), 64), mkConst(g.scale, 64)), ex(p, 64)));
        }
        f->regs[in.dst] = p; f->pc++; break; }
      case I_ALLOCA: {
        SVal n = V(in.a); if (n.e) concretize(s, n, in.w2, "alloca size");
        uint64_t a = allocObj(s, in.imm * n.c, 1, code->fn->name.c_str());
        f->allocas.push_back(a); f->regs[in.dst] = SVal(a); f->pc++; break; }
      case I_ZEXT: { SVal a = V(in.a); auto g = [&](const SVal &x) { return !x.e && in.w <= 64 ? x : wrap(mkZExt(ex(x, in.w2), in.w)); }; f->regs[in.dst] = in.vec ? vecMap1(a, g) : g(a); f->pc++; break; }
      case I_SEXT: { SVal a = V(in.a); auto g = [&](const SVal &x) { return !x.e && in.w <= 64 ? SVal((uint64_t)sext64(x.c, in.w2) & mask64(in.w)) : wrap(mkSExt(ex(x, in.w2), in.w)); }; f->regs[in.dst] = in.vec ? vecMap1(a, g) : g(a); f->pc++; break; }
      case I_TRUNC: { SVal a = V(in.a); auto g = [&](const SVal &x) { return !x.e ? SVal(x.c & mask64(in.w)) : wrap(mkExtract(x.e, 0, in.w)); }; f->regs[in.dst] = in.vec ? vecMap1(a, g) : g(a); f->pc++; break; }
      case I_BITCAST: { SVal a = V(in.a); TyD *st = in.x->ty2; if (st->kind == K_AGG || in.ty->kind == K_AGG) f->regs[in.dst] = bitsAgg(aggBits(a, st), in.ty); else f->regs[in.dst] = a; f->pc++; break; }
      case I_FPEXT: case I_FPTRUNC: { SVal a = V(in.a); auto g = [&](const SVal &x) { return wrap(mkF1(Op::FCast, ex(x, in.w2), in.w)); }; f->regs[in.dst] = in.vec ? vecMap1(a, g) : g(a); f->pc++; break; }
      case I_FPTOSI: case I_FPTOUI: { SVal a = V(in.a); auto g = [&](const SVal &x) { return wrap(mkF1(in.op == I_FPTOSI ? Op::FToS : Op::FToU, ex(x, in.w2), in.w)); }; f->regs[in.dst] = in.vec ? vecMap1(a, g) : g(a); f->pc++; break; }
      case I_SITOFP: case I_UITOFP: { SVal a = V(in.a); auto g = [&](const SVal &x) { return wrap(mkF1(in.op == I_SITOFP ? Op::FFromS : Op::FFromU, ex(x, in.w2), in.w)); }; f->regs[in.dst] = in.vec ? vecMap1(a, g) : g(a); f->pc++; break; }
      case I_EXTRACTV: { SVal a = V(in.a); for (unsigned i : in.x->idx) { SVal t = (*a.e->agg)[i]; a = t; } f->regs[in.dst] = a; f->pc++; break; }
      case I_INSERTV: { SVal a = V(in.a), b = V(in.b); f->regs[in.dst] = insV(a, in.x->idx, 0, b); f->pc++; break; }
      case I_EXTRACTE: { SVal a = V(in.a), i = V(in.b); concretize(s, i, 64, "vec index"); SVal t = (*a.e->agg)[i.c]; f->regs[in.dst] = t; f->pc++; break; }
      case I_INSERTE: { SVal a = V(in.a), b = V(in.b), i = V(in.c); concretize(s, i, 64, "vec index"); std::vector<SVal> r = *a.e->agg; r[i.c] = b; f->regs[in.dst] = SVal(0, mkAgg(r)); f->pc++; break; }
      case I_SHUFFLE: { SVal a = V(in.a), b = V(in.b); std::vector<SVal> r; size_t n = a.e->agg->size(); for (unsigned i : in.x->idx) { if ((int)i < 0) r.push_back(undefVal(in.ty->el[0])); else r.push_back(i < n ? (*a.e->agg)[i] : (*b.e->agg)[i - n]); } f->regs[in.dst] = SVal(0, mkAgg(r)); f->pc++; break; }
      case I_LPAD: f->regs[in.dst] = SVal(0, mkAgg({f->lpPtr, f->lpSel})); f->pc++; break;
      case I_FREEZE: f->regs[in.dst] = V(in.a); f->pc++; break;
      case I_ATOMICRMW: {
        SVal p = V(in.a), v = V(in.b); concretize(s, p, 64, "rmw");
        if (s.threads.size() > 1) { if (!code->fn->noSched) schedPoint(s); logOp(s, "rmw"); hbAcquire(s, p.c); hbRelease(s, p.c); raceCheck(s, p.c, in.ty->store, true, true); }
        Obj *o = accessW(s, p.c, in.ty->store, "atomicrmw");
        SVal old = loadScalar(o, offOf(p.c), in.ty->bits); SVal nv; unsigned w = in.ty->bits;
        switch (in.sub) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = doBin(s, Op::Add, w, old, v); break;
          case AtomicRMWInst::Sub: nv = doBin(s, Op::Sub, w, old, v); break;
          case AtomicRMWInst::And: nv = doBin(s, Op::And, w, old, v); break;
          case AtomicRMWInst::Or: nv = doBin(s, Op::Or, w, old, v); break;
          case AtomicRMWInst::Xor: nv = doBin(s, Op::Xor, w, old, v); break;
          default: incomplete("unsupported atomicrmw"); throw Kill();
        }
        storeScalar(o, offOf(p.c), nv, w); f->regs[in.dst] = old; f->pc++; break; }
      case I_CMPXCHG: {
        SVal p = V(in.a), c = V(in.b), n = V(in.c); concretize(s, p, 64, "cas"); TyD *t = in.x->ty2;
        if (s.threads.size() > 1) { if (!code->fn->noSched) schedPoint(s); logOp(s, "cas"); hbAcquire(s, p.c); hbRelease(s, p.c); raceCheck(s, p.c, t->store, true, true); }
        const Obj *ro = accessR(s, p.c, t->store, "cmpxchg");
        SVal old = loadScalar(ro, offOf(p.c), t->bits);
        SVal eq = doICmp(CmpInst::ICMP_EQ, t->bits, old, c);
        bool b = eq.e ? decide(s, eq.e) : eq.c != 0;
        if (b) { Obj *o = accessW(s, p.c, t->store, "cmpxchg"); storeScalar(o, offOf(p.c), n, t->bits); }
        f->regs[in.dst] = SVal(0, mkAgg({old, SVal(b)})); f->pc++; break; }
      case I_INTRIN: {
        std::vector<SVal> a; for (int o : in.x->ops) a.push_back(V(o));
        bool h = true;
        SVal r = doIntrin(s, f, in, a, h);
        if (!h) { incomplete("unsupported intrinsic " + Intrinsic::getBaseName(in.x->intrin).str()); throw Kill(); }
        if (in.dst >= 0) f->regs[in.dst] = r;
        if (in.x->invoke) takeEdge(s, f, in.x->e0); else f->pc++;
        break; }
      case I_CALL: {
        FnInfo *fi = in.x->callee;
        if (!fi) {
          SVal fp = V(in.a); if (fp.e) concretize(s, fp, 64, "function pointer");
          auto it = fnByAddr.find(fp.c);
          if (it == fnByAddr.end()) {
            uint64_t id = idOf(fp.c);
            if (fp.c == 0) violation(s, "memory", "call through null function pointer");
            if (id < gInit.size() && gInit[id]->kind == 4) { incomplete("call through external object " + gvName[id]); throw Kill(); }
            violation(s, "memory", "call through invalid function pointer");
          }
          fi = it->second;
        }
        CallCtx cc; cc.fn = fi; cc.ins = &in;
        cc.args.reserve(in.x->ops.size());
        for (int o : in.x->ops) cc.args.push_back(V(o));
        if (fi->h) {
          HR r = fi->h(s, cc);
          if (r == H_PUSHED) return;
          if (r == H_BLOCK) throw Restart();
          th = &s.threads[s.cur];
          f = wframe(th->stack.back()); code = f->code;
          finishCall(s, f, in, cc.ret, true);
          if (s.threads[s.cur].stack.size() == 0) return;
          break;
        }
        if (!fi->F) {
          extUsed.insert(fi->name);
          incomplete("call to unmodelled external function " + demangle(fi->name) + " [" + fi->name + "] from " + backtrace(s, s.cur, 3)[0]);
          if (getenv("VSE_DEBUG")) for (auto &b : backtrace(s, s.cur)) fprintf(stderr, "    %s\n", b.c_str());
          throw Kill();
        }
        if (!in.x->byval.empty()) for (size_t i = 0; i < in.x->byval.size(); i++) if (in.x->byval[i]) {
          uint64_t n = allocObj(s, in.x->byval[i], 1, "byval");
          SVal p = cc.args[i]; concretize(s, p, 64, "byval"); copyMem(s, n, p.c, in.x->byval[i], "byval copy");
          f->allocas.push_back(n); cc.args[i] = SVal(n);
        }
        pushCall(s, fi, cc.args);
        f = th->stack.back().p; code = f->code;
        if ((s.steps & 0xff) == 0) return;
        break; }
      default: {
        std::string t; raw_string_ostream os(t); in.I->print(os);
        incomplete("unsupported instruction " + t); throw Kill(); }
    }
  }
}

static SVal doIntrin(State &s, Frame *f, const Ins &in, std::vector<SVal> &a, bool &handled) {
  unsigned w = in.w2;
  TyD *at = in.x->ty2;
  auto map1 = [&](std::function<SVal(const SVal &)> g) { return at->vec ? vecMap1(a[0], g) : g(a[0]); };
  auto map2 = [&](std::function<SVal(const SVal &, const SVal &)> g) { return at->vec ? vecMap2(a[0], a[1], g) : g(a[0], a[1]); };
  switch (in.x->intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      for (int i = 0; i < 3; i++) concretize(s, a[i], 64, "memcpy");
      copyMem(s, a[0].c, a[1].c, a[2].c, "memcpy"); return SVal(); }
    case Intrinsic::memset: {
      concretize(s, a[0], 64, "memset"); concretize(s, a[2], 64, "memset");
      if (a[2].c) { raceCheck(s, a[0].c, a[2].c, true, false); Obj *o = accessW(s, a[0].c, a[2].c, "memset"); for (uint64_t i = 0; i < a[2].c; i++) storeScalar(o, offOf(a[0].c) + i, a[1], 8); }
      return SVal(); }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::vaend: return SVal();
    case Intrinsic::stacksave: return SVal(0x10000000); case Intrinsic::stackrestore: return SVal();
    case Intrinsic::trap: violation(s, "ub", "llvm.trap reached"); 
    case Intrinsic::ubsantrap: violation(s, "ub", "undefined behaviour trap (signed overflow or similar) reached, code " + std::to_string(a[0].c));
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    case Intrinsic::is_constant: return SVal(0);
    case Intrinsic::objectsize: return mkV(~(u128)0, in.w);
    case Intrinsic::threadlocal_address: {
      uint64_t ga = a[0].c; auto &m = s.threads[s.cur].tls;
      auto it = m.find(ga); if (it != m.end()) return SVal(it->second);
      const Obj *g = gInit[idOf(ga)].p;
      uint64_t n = allocObj(s, g->size, 2, g->tag);
      Obj *o = wobj(s, idOf(n)); o->b = g->b; o->s = g->s;
      m[ga] = n; return SVal(n); }
    case Intrinsic::eh_typeid_for: return SVal(tiId(a[0].c));
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      bool sg = in.x->intrin == Intrinsic::sadd_with_overflow || in.x->intrin == Intrinsic::ssub_with_overflow || in.x->intrin == Intrinsic::smul_with_overflow;
      Op op = (in.x->intrin == Intrinsic::uadd_with_overflow || in.x->intrin == Intrinsic::sadd_with_overflow) ? Op::Add : (in.x->intrin == Intrinsic::usub_with_overflow || in.x->intrin == Intrinsic::ssub_with_overflow) ? Op::Sub : Op::Mul;
      unsigned W = op == Op::Mul ? 2 * w : w + 1;
      if (W > 128) W = 128;
      Expr *x = ex(a[0], w), *y = ex(a[1], w);
      Expr *X = sg ? mkSExt(x, W) : mkZExt(x, W), *Y = sg ? mkSExt(y, W) : mkZExt(y, W);
      Expr *R = mkBin(op, X, Y), *r = mkBin(op, x, y);
      Expr *ov = mkNot(mkEq(R, sg ? mkSExt(r, W) : mkZExt(r, W)));
      return SVal(0, mkAgg({wrap(r), wrap(ov)})); }
    case Intrinsic::umin: return map2([&](const SVal &x, const SVal &y) { return wrap(mkIte(mkBin(Op::Ult, ex(x, w), ex(y, w)), ex(x, w), ex(y, w))); });
    case Intrinsic::umax: return map2([&](const SVal &x, const SVal &y) { return wrap(mkIte(mkBin(Op::Ult, ex(x, w), ex(y, w)), ex(y, w), ex(x, w))); });
    case Intrinsic::smin: return map2([&](const SVal &x, const SVal &y) { return wrap(mkIte(mkBin(Op::Slt, ex(x, w), ex(y, w)), ex(x, w), ex(y, w))); });
    case Intrinsic::smax: return map2([&](const SVal &x, const SVal &y) { return wrap(mkIte(mkBin(Op::Slt, ex(x, w), ex(y, w)), ex(y, w), ex(x, w))); });
    case Intrinsic::abs: return map1([&](const SVal &x) { return wrap(mkIte(mkBin(Op::Slt, ex(x, w), mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), ex(x, w)), ex(x, w))); });
    case Intrinsic::usub_sat: return map2([&](const SVal &x, const SVal &y) { return wrap(mkIte(mkBin(Op::Ult, ex(x, w), ex(y, w)), mkConst(0, w), mkBin(Op::Sub, ex(x, w), ex(y, w)))); });
    case Intrinsic::uadd_sat: return map2([&](const SVal &x, const SVal &y) { Expr *r = mkBin(Op::Add, ex(x, w), ex(y, w)); return wrap(mkIte(mkBin(Op::Ult, r, ex(x, w)), mkConst(maskW(w), w), r)); });
    case Intrinsic::fshl: case Intrinsic::fshr: {
      if (at->vec || !isC(a[2])) break;
      unsigned sh = (unsigned)(cval(a[2]) % w);
      Expr *cc = mkConcat(ex(a[0], w), ex(a[1], w));
      return wrap(in.x->intrin == Intrinsic::fshl ? mkExtract(cc, w - sh, w) : mkExtract(cc, sh, w)); }
    case Intrinsic::bswap: return map1([&](const SVal &x) { Expr *r = nullptr, *e = ex(x, w); for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } return wrap(r); });
    case Intrinsic::ctpop: return map1([&](const SVal &x) { Expr *e = ex(x, w), *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(e, i, 1), w)); return wrap(r); });
    case Intrinsic::ctlz: return map1([&](const SVal &x) { Expr *e = ex(x, w), *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); return wrap(r); });
    case Intrinsic::cttz: return map1([&](const SVal &x) { Expr *e = ex(x, w), *r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return wrap(r); });
    case Intrinsic::bitreverse: return map1([&](const SVal &x) { Expr *e = ex(x, w), *r = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } return wrap(r); });
    case Intrinsic::fabs: return map1([&](const SVal &x) { return wrap(mkF1(Op::FAbs, ex(x, w), w)); });
    case Intrinsic::sqrt: return map1([&](const SVal &x) { return wrap(mkF1(Op::FSqrt, ex(x, w), w)); });
    case Intrinsic::floor: return map1([&](const SVal &x) { return wrap(mkF1(Op::FRound, ex(x, w), w, 3)); });
    case Intrinsic::ceil: return map1([&](const SVal &x) { return wrap(mkF1(Op::FRound, ex(x, w), w, 2)); });
    case Intrinsic::trunc: return map1([&](const SVal &x) { return wrap(mkF1(Op::FRound, ex(x, w), w, 4)); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return map1([&](const SVal &x) { return wrap(mkF1(Op::FRound, ex(x, w), w, 0)); });
    case Intrinsic::round: return map1([&](const SVal &x) { return wrap(mkF1(Op::FRound, ex(x, w), w, 1)); });
    case Intrinsic::lround: case Intrinsic::llround: return wrap(mkF1(Op::FToS, mkF1(Op::FRound, ex(a[0], w), w, 1), in.w));
    case Intrinsic::lrint: case Intrinsic::llrint: return wrap(mkF1(Op::FToS, mkF1(Op::FRound, ex(a[0], w), w, 0), in.w));
    case Intrinsic::copysign: return map2([&](const SVal &x, const SVal &y) { return wrap(mkConcat(mkExtract(ex(y, w), w - 1, 1), mkExtract(ex(x, w), 0, w - 1))); });
    case Intrinsic::minnum: case Intrinsic::maxnum: return map2([&](const SVal &x, const SVal &y) {
      bool mx = in.x->intrin == Intrinsic::maxnum; Expr *X = ex(x, w), *Y = ex(y, w);
      Expr *lt = mx ? mkFCmp(Op::FOlt, Y, X) : mkFCmp(Op::FOlt, X, Y);
      return wrap(mkIte(mkFCmp(Op::FUno, X, X), Y, mkIte(mkFCmp(Op::FUno, Y, Y), X, mkIte(lt, X, Y)))); });
    case Intrinsic::fmuladd: { if (at->vec) break; return wrap(mkF2(Op::FAdd, mkF2(Op::FMul, ex(a[0], w), ex(a[1], w)), ex(a[2], w))); }
    case Intrinsic::is_fpclass: {
      if (at->vec) break;
      unsigned m = (unsigned)a[1].c; Expr *x = ex(a[0], w); Expr *r = mkFalse();
      unsigned eb = w == 32 ? 8 : w == 64 ? 11 : 15, mb = w - 1 - eb;
      Expr *e = mkExtract(x, mb, eb), *mant = mkExtract(x, 0, w == 80 ? 63 : mb), *sg = mkExtract(x, w - 1, 1);
      Expr *eMax = mkEq(e, mkConst(maskW(eb), eb)), *eZ = mkEq(e, mkConst(0, eb)), *mZ = mkEq(mant, mkConst(0, mant->width));
      auto And = [](Expr *p, Expr *q) { return mkBin(Op::And, p, q); };
      Expr *nan = And(eMax, mkNot(mZ)), *inf = And(eMax, mZ), *zero = And(eZ, mZ), *sub = And(eZ, mkNot(mZ)), *norm = And(mkNot(eMax), mkNot(eZ));
      Expr *q = mkExtract(mant, mant->width - 1, 1);
      auto add = [&](unsigned bit, Expr *c) { if (m & bit) r = mkBin(Op::Or, r, c); };
      if ((m & 3) == 3) r = mkBin(Op::Or, r, nan); else { add(1, And(nan, mkNot(q))); add(2, And(nan, q)); }
      auto both = [&](unsigned nb, unsigned pb, Expr *c) { if ((m & nb) && (m & pb)) r = mkBin(Op::Or, r, c); else { add(nb, And(c, sg)); add(pb, And(c, mkNot(sg))); } };
      both(4, 512, inf); both(8, 256, norm); both(16, 128, sub); both(32, 64, zero);
      return wrap(r); }
    case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: {
      if (at->vec) break;
      const char *n; switch (in.x->intrin) { case Intrinsic::exp: n = "exp"; break; case Intrinsic::log: n = "log"; break; case Intrinsic::pow: n = "pow"; break; case Intrinsic::sin: n = "sin"; break; case Intrinsic::cos: n = "cos"; break; case Intrinsic::exp2: n = "exp2"; break; case Intrinsic::log2: n = "log2"; break; default: n = "log10"; }
      return libmCall(s, n, w, a); }
    case Intrinsic::powi: { if (at->vec || !isC(a[1])) break; std::vector<SVal> b{a[0], a[1]}; double d = (double)(int32_t)a[1].c; uint64_t u; memcpy(&u, &d, 8); if (w == 64) { b[1] = SVal(u); return libmCall(s, "pow", w, b); } break; }
    case Intrinsic::vector_reduce_add: { SVal r = (*a[0].e->agg)[0]; for (size_t i = 1; i < a[0].e->agg->size(); i++) r = doBin(s, Op::Add, w, r, (*a[0].e->agg)[i]); return r; }
    case Intrinsic::vastart: break;
    case Intrinsic::x86_sse_stmxcsr: { Obj *o = accessW(s, a[0].c, 4, "stmxcsr"); storeScalar(o, offOf(a[0].c), SVal(0x1f80), 32); return SVal(); }
    case Intrinsic::x86_sse_ldmxcsr: return SVal();
    case Intrinsic::frexp: {
      unsigned fw = in.w2, iw = 32; if (!isC(a[0])) break;
      int e = 0; uint64_t r; if (fw == 64) { double d; memcpy(&d, &a[0].c, 8); d = frexp(d, &e); memcpy(&r, &d, 8); } else if (fw == 32) { float d; memcpy(&d, &a[0].c, 4); d = frexpf(d, &e); uint32_t q; memcpy(&q, &d, 4); r = q; } else break;
      return SVal(0, mkAgg({SVal(r), SVal((uint64_t)(uint32_t)e & mask64(iw))})); }
    default: break;
  }
  handled = false; return SVal();
}

// ---------------------------------------------------------------- main loop
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string u128hex(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "0x%llx", (unsigned long long)v); return b; }

static void runCtors(State &s, Module &M, const std::function<bool(State &)> &drive) {
  auto *gv = M.getNamedGlobal("llvm.global_ctors");
  if (!gv || !gv->hasInitializer()) return;
  auto *ca = dyn_cast<ConstantArray>(gv->getInitializer()); if (!ca) return;
  std::vector<std::pair<uint64_t, Function *>> v;
  for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); 
    // boost.serialization registers its type information from static initialisers; it is created on first use anyway
    auto *dv = cs->getNumOperands() > 2 ? dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()) : nullptr; if (dv && dv->getName().startswith("_ZN5boost13serialization9singleton")) continue;
    if (f) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &p : v) { pushCall(s, fnFor(p.second), {}); if (!drive(s)) { fprintf(stderr, "static initialisation of %s failed\n", M.getName().str().c_str()); exit(3); } s.threads[0].finished = false; }
}

static bool runState(State *s, bool init) { // returns true if path completed normally
  try {
    for (;;) {
      if (s->threads[0].stack.empty()) { return true; }
      if (now() - tStart > optTime) { if (!stopAll) incomplete("time limit reached"); stopAll = true; return false; }
      if (s->steps > optPathSteps) { incomplete("per-path instruction limit reached at " + backtrace(*s, s->cur, 1)[0]); return false; }
      if (stopAll) return false;
      try { step(*s); } catch (Restart &) {}
    }
  } catch (Kill &) { return false; }
}

int main(int argc, char **argv) {
  std::vector<std::string> files; std::string entry;
  unsigned to = 30000, fb = 60; std::string tmp = "/tmp";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--time") optTime = atof(nx().c_str());
    else if (a == "--preempt") optPreempt = atoi(nx().c_str()); else if (a == "--timeouts") optTimeouts = atoi(nx().c_str());
    else if (a == "--path-steps") optPathSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--trace") optTrace = true; else if (a == "--feas-ms") { optFeasMs = atoi(nx().c_str()); gUseAbs = true; } else if (a == "--races") optRaces = true;
    else if (a == "--solver-ms") to = atoi(nx().c_str()); else if (a == "--fallback-s") fb = atoi(nx().c_str()); else if (a == "--tmp") tmp = nx();
    else if (a == "--stub") optStubs.push_back(nx()); else if (a == "--replay") { optReplay = true; optReplayFile = nx(); } else if (a == "--max-paths") optMaxPaths = atoi(nx().c_str());
    else if (a == "--all") optAllViol = true; else if (a == "--known") optKnown.insert(nx());
    else if (a == "--repo-prefix") repoPrefix = nx();
    else files.push_back(a);
  }
  if (optReplay) { std::ifstream rf(optReplayFile); std::string n, b, v; while (rf >> n >> b >> v) { if (n[0] == '@') continue; replayVals[n] = strtoull(v.c_str(), 0, 16); } }
  { struct rlimit rl; rl.rlim_cur = rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_STACK, &rl); }
  LLVMContext ctx; LC = &ctx;
  ctx.setDiagnosticHandlerCallBack([](const DiagnosticInfo &, void *) {});
  for (auto &f : files) {
    auto mb = MemoryBuffer::getFile(f);
    if (!mb) { fprintf(stderr, "cannot read %s\n", f.c_str()); return 3; }
    auto m = getOwningLazyBitcodeModule(std::move(*mb), ctx);
    if (!m) { fprintf(stderr, "cannot parse %s\n", f.c_str()); return 3; }
    if (auto e = (*m)->materializeMetadata()) { return 3; }
    mods.push_back(std::move(*m));
  }
  DL = &mods[0]->getDataLayout();
  newGlobalObj(0, 4, "<null>");
  for (auto &m : mods) {
    for (auto &f : *m) if (!f.isDeclaration() && !f.hasLocalLinkage() && !f.hasAvailableExternallyLinkage()) { auto &d = defFn[f.getName().str()]; if (!d || (d->isWeakForLinker() && !f.isWeakForLinker())) d = &f; }
    for (auto &g : m->globals()) if (!g.isDeclaration() && !g.hasLocalLinkage() && !g.hasAvailableExternallyLinkage() && !g.hasAppendingLinkage()) { auto &d = defGV[g.getName().str()]; if (!d || (d->isWeakForLinker() && !g.isWeakForLinker())) d = &g; }
    for (auto &a : m->aliases()) if (!a.hasLocalLinkage()) { auto &d = defAlias[a.getName().str()]; if (!d) d = &a; }
  }
  initPasses(); initHandlers();
  for (auto &st : optStubs) handlers[st] = h_zero;
  solverInit(to, fb, tmp);
  tStart = now();
  State *s0 = new State();
  s0->model = std::make_shared<Model>();
  s0->threads.emplace_back(); s0->threads[0].started = true; s0->threads[0].vc = {1};
  for (auto &m : mods) runCtors(*s0, *m, [&](State &s) { bool ok = runState(&s, true); if (!ok) { for (auto &v : viols) { fprintf(stderr, "%s: %s\n", v.kind.c_str(), v.msg.c_str()); for (auto &b : v.stack) fprintf(stderr, "   %s\n", b.c_str()); } } return ok; });
  if (!defFn.count(entry)) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  uint64_t initSteps = nSteps; s0->steps = 0;
  for (auto &kv : fnByName) { kv.second->executed = false; kv.second->calls = 0; }
  for (auto &kv : fnByPtr) { kv.second->executed = false; kv.second->calls = 0; }
  s0->inputs.clear(); s0->inputCount.clear();
  pushCall(*s0, fnNamed(entry), {});
  work.push_back(s0);
  size_t maxWork = 0;
  while (!work.empty() && !stopAll) {
    State *s = work.back(); work.pop_back();
    bool ok = runState(s, false);
    if (ok) {
      nPaths++;
      if (samplePaths.size() < 5) { std::string d; for (auto &p : inputsOf(*s, *s->model)) { d += p.first + "=" + u128hex(p.second.second) + " "; if (d.size() > 400) break; } samplePaths.push_back("path " + std::to_string(nPaths) + ": constraints=" + std::to_string(s->pc.size()) + " steps=" + std::to_string(s->steps) + " witness: " + d); }
      if (optMaxPaths && nPaths >= optMaxPaths) { incomplete("path limit"); break; }
    }
    maxWork = std::max(maxWork, work.size());
    delete s;
  }
  std::string st = !viols.empty() ? "violation" : !incompletes.empty() ? "incomplete" : "ok";
  std::string o = "{\n \"status\": " + jstr(st) + ",\n";
  o += " \"wall_s\": " + std::to_string(now() - tStart) + ",\n \"paths\": " + std::to_string(nPaths) + ", \"forks\": " + std::to_string(nForks) + ", \"assumed_away\": " + std::to_string(nKilled) + ", \"steps\": " + std::to_string(nSteps - initSteps) + ", \"switches\": " + std::to_string(nSwitches) + ", \"max_worklist\": " + std::to_string(maxWork) + ",\n";
  o += " \"asserts_checked\": " + std::to_string(nAssertChecks) + ", \"asserts_trivial\": " + std::to_string(nAssertTrivial) + ",\n";
  o += " \"solver\": {\"queries\": " + std::to_string(gStats.queries) + ", \"sat\": " + std::to_string(gStats.sat) + ", \"unsat\": " + std::to_string(gStats.unsat) + ", \"unknown\": " + std::to_string(gStats.unknown) + ", \"cache_hits\": " + std::to_string(gStats.cacheHits) + ", \"model_hits\": " + std::to_string(gStats.modelHits) + ", \"fallback\": " + std::to_string(gStats.fallback) + ", \"native_mismatch\": " + std::to_string(gStats.sliceDiff) + ", \"time_s\": " + std::to_string(gStats.time) + "},\n";
  auto jmap = [&](std::map<std::string, uint64_t> &m) { std::string r = "{"; bool first = true; for (auto &p : m) { if (!first) r += ", "; first = false; r += jstr(p.first) + ": " + std::to_string(p.second); } return r + "}"; };
  o += " \"reach\": " + jmap(reachHits) + ",\n \"asserts\": " + jmap(asserts) + ",\n \"known\": " + jmap(knownHits) + ",\n";
  auto jlist = [&](const std::vector<std::string> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ", "; r += jstr(v[i]); } return r + "]"; };
  o += " \"incomplete\": " + jlist(incompletes) + ",\n \"samples\": " + jlist(samplePaths) + ",\n";
  std::set<std::string> fns;
  for (auto &kv : fnByName) if (kv.second->executed && kv.second->inRepo) fns.insert(demangle(kv.second->name));
  for (auto &kv : fnByPtr) if (kv.second->executed && kv.second->inRepo) fns.insert(demangle(kv.second->name));
  if (const char *cv = getenv("VSE_COVER")) { // developer aid: executed source lines of the code under test
    std::set<std::string> ls; auto add = [&](FnInfo *fi) { if (fi->executed && fi->code) for (auto &in : fi->code->ins) if (in.hit && in.I) if (const DebugLoc &dl = in.I->getDebugLoc()) ls.insert((dl->getFilename().str()[0] == '/' ? "" : dl->getDirectory().str() + "/") + dl->getFilename().str() + ":" + std::to_string(dl.getLine())); };
    for (auto &kv : fnByName) add(kv.second); for (auto &kv : fnByPtr) add(kv.second);
    std::ofstream f(std::string(cv) + "/" + entry); for (auto &l : ls) f << l << "\n";
  }
  std::vector<std::string> exts; for (auto &x : extUsed) exts.push_back(demangle(x));
  o += " \"external\": " + jlist(exts) + ",\n";
  o += " \"functions\": " + jlist(std::vector<std::string>(fns.begin(), fns.end())) + ",\n";
  o += " \"violations\": [";
  for (size_t i = 0; i < viols.size(); i++) {
    auto &v = viols[i]; if (i) o += ",";
    o += "\n  {\"kind\": " + jstr(v.kind) + ", \"msg\": " + jstr(v.msg) + ", \"loc\": " + jstr(v.loc) + ", \"stack\": " + jlist(v.stack) + ", \"inputs\": [";
    for (size_t k = 0; k < v.inputs.size(); k++) { if (k) o += ", "; o += "[" + jstr(v.inputs[k].first) + ", " + std::to_string(v.inputs[k].second.first) + ", " + jstr(u128hex(v.inputs[k].second.second)) + "]"; }
    o += "], \"schedule\": " + jlist(v.sched) + "}";
  }
  o += "]\n}\n";
  if (!optOut.empty()) { std::ofstream f(optOut); f << o; } else std::cout << o;
  fflush(stdout);
  _exit(st == "ok" ? 0 : st == "violation" ? 1 : 2);
}
