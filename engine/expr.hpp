// Hash-consed bit-vector / IEEE-754 expression DAG with on-the-fly simplification,
// a native evaluator and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Not,
  Eq, Ult, Ule, Slt, Sle,
  ZExt, SExt, Extract, Concat, Ite,
  FAdd, FSub, FMul, FDiv, FSqrt, FNeg, FAbs, FRound, // aux = rounding mode for FRound (0 RNE,1 RNA,2 RTP,3 RTN,4 RTZ)
  FOeq, FOlt, FOle, FUno,
  FCast, FFromS, FFromU, FToS, FToU,
  Agg // not a term: tuple of values
};
const char *opName(Op);

struct SVal;
struct Expr {
  Op op;
  uint16_t width;   // bits
  uint32_t aux = 0; // Extract: low bit; FRound: mode; Var: index
  uint32_t id = 0;
  Expr *k[3] = {nullptr, nullptr, nullptr};
  u128 c = 0;
  std::vector<SVal> *agg = nullptr; // for Agg
  std::vector<uint32_t> *vars = nullptr; // lazily computed sorted list of variable indices
  size_t hash = 0;
  bool isConst() const { return op == Op::Const; }
};

// A value in a register: concrete (e==nullptr, <=64 bits) or an expression / aggregate
struct SVal {
  uint64_t c = 0;
  Expr *e = nullptr;
  SVal() {}
  SVal(uint64_t v) : c(v) {}
  SVal(uint64_t v, Expr *x) : c(v), e(x) {}
  bool conc() const { return e == nullptr; }
};

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= mask64(w);
  return (int64_t)((v ^ m) - m);
}
static inline i128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskW(w);
  return (i128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned width; };
extern std::vector<VarInfo> gVars;

struct Model {
  std::vector<u128> v; // per variable index; missing => 0
  u128 get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
  void set(uint32_t i, u128 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};
typedef std::shared_ptr<const Model> ModelP;

// concrete kernels
u128 foldBin(Op op, unsigned w, u128 a, u128 b);
u128 foldF2(Op op, unsigned w, u128 a, u128 b);
u128 foldF1(Op op, unsigned w, unsigned ow, unsigned aux, u128 a);

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkEq(Expr *a, Expr *b);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkF2(Op op, Expr *a, Expr *b);
Expr *mkFCmp(Op op, Expr *a, Expr *b);
Expr *mkF1(Op op, Expr *a, unsigned outw, unsigned aux = 0);
Expr *mkAgg(std::vector<SVal> v);
static inline Expr *mkTrue() { return mkConst(1, 1); }
static inline Expr *mkFalse() { return mkConst(0, 1); }
const std::vector<uint32_t> &varsOf(Expr *e);

u128 evalExpr(Expr *e, const Model &m);
std::string exprStr(Expr *e, int depth = 6);

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, fallback = 0; double time = 0; uint64_t modelHits = 0; uint64_t sliceDiff = 0; };
extern SolverStats gStats;
enum class Res { Sat, Unsat, Unknown };
// Solve: conjunction of cs (assumed consistent with base model) plus q. On Sat, out = new model.
Res solve(const std::vector<Expr *> &cs, Expr *q, const ModelP &base, ModelP &out, unsigned limitMs = 0);
void solverInit(unsigned timeoutMs, unsigned fallbackS, const std::string &tmpdir);
extern unsigned gSolverTimeoutMs, gFallbackS;
extern double gSolverBudgetS;
extern bool gUseAbs;
