#include "expr.hpp"
#include <cmath>
#include <cfenv>

std::vector<VarInfo> gVars;
static std::unordered_map<size_t, std::vector<Expr *>> table;
static uint32_t nextId = 1;

const char *opName(Op o) {
  static const char *n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","not","eq","ult","ule","slt","sle","zext","sext","extract","concat","ite","fadd","fsub","fmul","fdiv","fsqrt","fneg","fabs","fround","foeq","folt","fole","funo","fcast","ffroms","ffromu","ftos","ftou","agg"};
  return n[(int)o];
}

static size_t hmix(size_t h, size_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ULL + (h >> 29); }

static Expr *intern(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint32_t aux, u128 cv) {
  size_t h = hmix(hmix(hmix((size_t)op * 131 + w, (size_t)a), (size_t)b), (size_t)c);
  h = hmix(hmix(hmix(h, aux), (size_t)cv), (size_t)(cv >> 64));
  auto &bucket = table[h];
  for (Expr *e : bucket)
    if (e->op == op && e->width == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->aux == aux && e->c == cv) return e;
  Expr *e = new Expr();
  e->op = op; e->width = w; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->aux = aux; e->c = cv; e->hash = h; e->id = nextId++;
  bucket.push_back(e);
  return e;
}

Expr *mkConst(u128 v, unsigned w) { return intern(Op::Const, w, 0, 0, 0, 0, v & maskW(w)); }
Expr *mkVar(const std::string &name, unsigned w) {
  gVars.push_back({name, w});
  return intern(Op::Var, w, 0, 0, 0, (uint32_t)gVars.size() - 1, 0);
}
Expr *mkAgg(std::vector<SVal> v) {
  Expr *e = new Expr();
  e->op = Op::Agg; e->width = 0; e->agg = new std::vector<SVal>(std::move(v)); e->id = nextId++;
  return e;
}

u128 foldBin(Op op, unsigned w, u128 a, u128 b) {
  u128 m = maskW(w);
  a &= m; b &= m;
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : m;
    case Op::URem: return b ? (a % b) & m : a;
    case Op::SDiv: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case Op::SRem: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case Op::AShr: { i128 x = sext128(a, w); return (u128)(x >> (b >= w ? (int)w - 1 : (int)b)) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sext128(a, w) < sext128(b, w);
    case Op::Sle: return sext128(a, w) <= sext128(b, w);
    default: abort();
  }
}

static float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static long double asL(u128 v) { long double f = 0; memcpy(&f, &v, 10); return f; }
static u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
static u128 fromL(long double f) { u128 x = 0; memcpy(&x, &f, 10); return x; }

u128 foldF2(Op op, unsigned w, u128 a, u128 b) {
#define DO(T, as, from) { volatile T x = as(a), y = as(b); switch (op) { \
    case Op::FAdd: { volatile T r = x + y; return from(r); } \
    case Op::FSub: { volatile T r = x - y; return from(r); } \
    case Op::FMul: { volatile T r = x * y; return from(r); } \
    case Op::FDiv: { volatile T r = x / y; return from(r); } \
    case Op::FOeq: return x == y; case Op::FOlt: return x < y; case Op::FOle: return x <= y; \
    case Op::FUno: return (x != x) || (y != y); default: abort(); } }
  if (w == 32) DO(float, asF, fromF)
  if (w == 64) DO(double, asD, fromD)
  DO(long double, asL, fromL)
#undef DO
}

template <class T> static T rnd(T x, unsigned mode) {
  switch (mode) { case 0: return std::nearbyint(x); case 1: return std::round(x); case 2: return std::ceil(x); case 3: return std::floor(x); default: return std::trunc(x); }
}
template <class T> static u128 toInt(T x, unsigned ow, bool sgn) {
  // x86-like semantics: out of range => "indefinite"
  if (sgn) {
    T lim = std::ldexp((T)1, ow - 1);
    if (!(x >= -lim - (T)(ow < 53 ? 0.9999 : 0) && x < lim) || x != x) return (u128)1 << (ow - 1);
    return (u128)(i128)(long long)x & maskW(ow);
  } else {
    T lim = std::ldexp((T)1, ow);
    if (x != x || !(x > (T)-1 && x < lim)) {
      if (ow <= 32) { // cvttsd2si 64 then truncate
        T l64 = std::ldexp((T)1, 63);
        if (x != x || !(x >= -l64 && x < l64)) return 0;
        return (u128)(i128)(long long)x & maskW(ow);
      }
      return (u128)1 << (ow - 1);
    }
    return (u128)(unsigned long long)x & maskW(ow);
  }
}
u128 foldF1(Op op, unsigned w, unsigned ow, unsigned aux, u128 a) {
  switch (op) {
    case Op::FNeg: return a ^ ((u128)1 << (w - 1));
    case Op::FAbs: return a & ~((u128)1 << (w - 1)) & maskW(w);
    case Op::FSqrt: if (w == 32) return fromF(std::sqrt(asF(a))); if (w == 64) return fromD(std::sqrt(asD(a))); return fromL(std::sqrt(asL(a)));
    case Op::FRound: if (w == 32) return fromF(rnd(asF(a), aux)); if (w == 64) return fromD(rnd(asD(a), aux)); return fromL(rnd(asL(a), aux));
    case Op::FCast: {
      if (w == 32) { float f = asF(a); if (ow == 64) return fromD(f); if (ow == 80) return fromL(f); return a; }
      if (w == 64) { double f = asD(a); if (ow == 32) return fromF((float)f); if (ow == 80) return fromL(f); return a; }
      long double f = asL(a); if (ow == 32) return fromF((float)f); if (ow == 64) return fromD((double)f); return a;
    }
    case Op::FFromS: { i128 x = sext128(a, w); if (ow == 32) return fromF((float)x); if (ow == 64) return fromD((double)x); return fromL((long double)x); }
    case Op::FFromU: { u128 x = a & maskW(w); if (ow == 32) return fromF((float)x); if (ow == 64) return fromD((double)x); return fromL((long double)x); }
    case Op::FToS: if (w == 32) return toInt(asF(a), ow, true); if (w == 64) return toInt(asD(a), ow, true); return toInt(asL(a), ow, true);
    case Op::FToU: if (w == 32) return toInt(asF(a), ow, false); if (w == 64) return toInt(asD(a), ow, false); return toInt(asL(a), ow, false);
    default: abort();
  }
}

static bool isC(Expr *e, u128 v) { return e->isConst() && e->c == (v & maskW(e->width)); }
static bool isBoolOp(Op o) { return o == Op::Eq || o == Op::Ult || o == Op::Ule || o == Op::Slt || o == Op::Sle || o == Op::FOeq || o == Op::FOlt || o == Op::FOle || o == Op::FUno; }

Expr *mkNot(Expr *a) {
  if (a->isConst()) return mkConst(~a->c, a->width);
  if (a->op == Op::Not) return a->k[0];
  if (a->width == 1) {
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
  }
  return intern(Op::Not, a->width, a, 0, 0, 0, 0);
}

Expr *mkEq(Expr *a, Expr *b) { return mkBin(Op::Eq, a, b); }

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "mkBin width mismatch %s %d %d\n", opName(op), a->width, b->width); abort(); }
  bool cmp = isBoolOp(op);
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, w, a->c, b->c), cmp ? 1 : w);
  // canonicalise constants to the right for commutative ops
  if (a->isConst() && (op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq)) std::swap(a, b);
  else if (!b->isConst() && a->id > b->id && (op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq)) std::swap(a, b);
  u128 m = maskW(w);
  switch (op) {
    case Op::Add:
      if (isC(b, 0)) return a;
      if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + b->c, w));
      break;
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(Op::Add, a, mkConst(-b->c, w));
      if (a->op == Op::Add && a->k[0] == b) return a->k[1];
      if (a->op == Op::Add && a->k[1] == b) return a->k[0];
      break;
    case Op::Mul:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (b->isConst() && a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Mul, a->k[0], b), mkConst(a->k[1]->c * b->c, w));
      if (b->isConst() && a->op == Op::Not && w > 1) return mkBin(Op::Sub, mkConst(-b->c, w), mkBin(Op::Mul, a->k[0], b));
      for (int i = 0; i < 2; i++) { Expr *x = i ? b : a, *y = i ? a : b; if ((x->op == Op::SDiv || x->op == Op::UDiv) && x->k[1] == y) return mkBin(Op::Sub, x->k[0], mkBin(x->op == Op::SDiv ? Op::SRem : Op::URem, x->k[0], y)); } // (a/y)*y
      break;
    case Op::UDiv:
      if (isC(b, 1)) return a;
      if (b->isConst() && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (((b->c >> s) & 1) == 0) s++; return mkBin(Op::LShr, a, mkConst(s, w)); }
      break;
    case Op::URem:
      if (isC(b, 1)) return mkConst(0, w);
      if (b->isConst() && b->c && (b->c & (b->c - 1)) == 0) return mkBin(Op::And, a, mkConst(b->c - 1, w));
      break;
    case Op::SDiv: if (isC(b, 1)) return a; break;
    case Op::And:
      if (isC(b, 0)) return b;
      if (isC(b, m)) return a;
      if (a == b) return a;
      if (w == 1 && ((a->op == Op::Not && a->k[0] == b) || (b->op == Op::Not && b->k[0] == a))) return mkConst(0, 1);
      if (b->isConst()) { // low mask => zext(extract)
        u128 c = b->c;
        if ((c & (c + 1)) == 0) { unsigned n = 0; while ((c >> n) & 1) n++; if (n > 0 && n < w) return mkZExt(mkExtract(a, 0, n), w); }
        if (a->op == Op::And && a->k[1]->isConst()) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & c, w));
      }
      break;
    case Op::Or:
      if (isC(b, 0)) return a;
      if (isC(b, m)) return b;
      if (a == b) return a;
      if (w == 1 && ((a->op == Op::Not && a->k[0] == b) || (b->op == Op::Not && b->k[0] == a))) return mkConst(1, 1);
      // zext(x) | (y << n) with disjoint bits => concat
      for (int sw = 0; sw < 2; sw++) {
        Expr *x = sw ? b : a, *y = sw ? a : b;
        if (x->op == Op::ZExt && y->op == Op::Concat && y->k[1]->isConst() && y->k[1]->c == 0 && x->k[0]->width <= y->k[1]->width)
          return mkConcat(y->k[0], mkZExt(x->k[0], y->k[1]->width));
      }
      break;
    case Op::Xor:
      if (isC(b, 0)) return a;
      if (a == b) return mkConst(0, w);
      if (isC(b, m)) return mkNot(a);
      break;
    case Op::Shl:
      if (isC(b, 0)) return a;
      if (b->isConst()) { if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case Op::LShr:
      if (isC(b, 0)) return a;
      if (b->isConst()) { if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case Op::AShr:
      if (isC(b, 0)) return a;
      if (b->isConst()) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case Op::Eq:
      if (a == b) return mkConst(1, 1);
      if (w == 1) {
        if (isC(b, 1)) return a;
        if (isC(b, 0)) return mkNot(a);
      }
      if (b->isConst()) {
        if (a->op == Op::ZExt) {
          if (b->c >> a->k[0]->width) return mkConst(0, 1);
          return mkEq(a->k[0], mkConst(b->c, a->k[0]->width));
        }
        if (a->op == Op::SExt) {
          unsigned kw = a->k[0]->width;
          if ((u128)sext128(b->c, kw) != (u128)sext128(b->c, w)) return mkConst(0, 1);
          return mkEq(a->k[0], mkConst(b->c, kw));
        }
        if (a->op == Op::Add && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w));
        if (a->op == Op::Xor && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w));
        if (a->op == Op::Not) return mkEq(a->k[0], mkConst(~b->c, w));
        if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst()) {
          bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
          if (t && f) return mkConst(1, 1);
          if (t) return a->k[0];
          if (f) return mkNot(a->k[0]);
          return mkConst(0, 1);
        }
        if (a->op == Op::Concat) {
          unsigned lw = a->k[1]->width;
          return mkBin(Op::And, mkEq(a->k[0], mkConst(b->c >> lw, a->k[0]->width)), mkEq(a->k[1], mkConst(b->c, lw)));
        }
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
      if (a->op == Op::Sub && isC(b, 0)) return mkEq(a->k[0], a->k[1]);
      break;
    case Op::Ult:
      if (a == b) return mkConst(0, 1);
      if (isC(b, 0)) return mkConst(0, 1);
      if (isC(b, 1)) return mkEq(a, mkConst(0, w));
      if (isC(a, m)) return mkConst(0, 1);
      if (b->isConst() && a->op == Op::ZExt) { unsigned kw = a->k[0]->width; if (b->c > maskW(kw)) return mkConst(1, 1); return mkBin(op, a->k[0], mkConst(b->c, kw)); }
      if (a->isConst() && b->op == Op::ZExt) { unsigned kw = b->k[0]->width; if (a->c >= maskW(kw)) return mkConst(0, 1); return mkBin(op, mkConst(a->c, kw), b->k[0]); }
      break;
    case Op::Ule:
      if (a == b) return mkConst(1, 1);
      if (isC(a, 0)) return mkConst(1, 1);
      if (isC(b, m)) return mkConst(1, 1);
      if (isC(b, 0)) return mkEq(a, b);
      if (b->isConst() && a->op == Op::ZExt) { unsigned kw = a->k[0]->width; if (b->c >= maskW(kw)) return mkConst(1, 1); return mkBin(op, a->k[0], mkConst(b->c, kw)); }
      break;
    case Op::Slt:
      if (a == b) return mkConst(0, 1);
      if (a->op == Op::ZExt && a->k[0]->width < w && b->isConst()) { i128 bv = sext128(b->c, w); if (bv <= 0) return mkConst(0, 1); return mkBin(Op::Ult, a, b); }
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
      break;
    case Op::Sle:
      if (a == b) return mkConst(1, 1);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
      break;
    default: break;
  }
  return intern(op, cmp ? 1 : w, a, b, 0, 0, 0);
}

Expr *mkZExt(Expr *a, unsigned w) {
  if (a->width == w) return a;
  if (a->width > w) abort();
  if (a->isConst()) return mkConst(a->c, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  return intern(Op::ZExt, w, a, 0, 0, 0, 0);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (a->width == w) return a;
  if (a->width > w) abort();
  if (a->isConst()) return mkConst((u128)sext128(a->c, a->width), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  return intern(Op::SExt, w, a, 0, 0, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (lo + w > a->width) { fprintf(stderr, "bad extract\n"); abort(); }
  if (a->isConst()) return mkConst(a->c >> lo, w);
  if (a->op == Op::Extract) return mkExtract(a->k[0], a->aux + lo, w);
  if (a->op == Op::Concat) {
    unsigned lw = a->k[1]->width;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  if (a->op == Op::ZExt) {
    unsigned kw = a->k[0]->width;
    if (lo >= kw) return mkConst(0, w);
    if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
    return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
  }
  if (a->op == Op::SExt) {
    unsigned kw = a->k[0]->width;
    if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
    if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w);
    return mkSExt(mkExtract(a->k[0], kw - 1, 1), w);
  }
  if (a->op == Op::Ite && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (lo == 0 && (a->op == Op::Add || a->op == Op::Mul || a->op == Op::Sub) && w <= 64 && a->width <= 128 && (a->k[0]->op == Op::ZExt || a->k[0]->op == Op::SExt || a->k[0]->isConst()) && (a->k[1]->op == Op::ZExt || a->k[1]->op == Op::SExt || a->k[1]->isConst()))
    return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
  if (a->op == Op::And || a->op == Op::Or || a->op == Op::Xor) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  return intern(Op::Extract, w, a, 0, 0, lo, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst() && w <= 128) return mkConst((hi->c << lo->width) | lo->c, w);
  if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width) return mkExtract(hi->k[0], lo->aux, w);
  if (hi->op == Op::Extract && lo->op != Op::Extract && hi->k[0] == lo && hi->aux == lo->width) return mkExtract(hi->k[0], 0, w);
  // (hi, (ext, rest)) merge
  if (lo->op == Op::Concat) {
    Expr *lh = lo->k[0];
    if (hi->op == Op::Extract && lh->op == Op::Extract && hi->k[0] == lh->k[0] && hi->aux == lh->aux + lh->width)
      return mkConcat(mkExtract(hi->k[0], lh->aux, hi->width + lh->width), lo->k[1]);
    if (hi->isConst() && lh->isConst() && hi->width + lh->width <= 128) return mkConcat(mkConcat(hi, lh), lo->k[1]);
  }
  if (hi->op == Op::Concat) {
    Expr *hl = hi->k[1];
    if (hl->isConst() && lo->isConst() && hl->width + lo->width <= 128) return mkConcat(hi->k[0], mkConcat(hl, lo));
    if (hl->op == Op::Extract && lo->op == Op::Extract && hl->k[0] == lo->k[0] && hl->aux == lo->aux + lo->width)
      return mkConcat(hi->k[0], mkExtract(hl->k[0], lo->aux, hl->width + lo->width));
  }
  // zext pieces: concat(0.., extract of zext) handled by ZExt above; Ite of byte pieces with same condition
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  return intern(Op::Concat, w, hi, lo, 0, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->k[0], b, a);
  if (a->width == 1) {
    if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
    if (a->isConst()) return a->c ? mkBin(Op::Or, c, b) : mkBin(Op::And, mkNot(c), b);
    if (b->isConst()) return b->c ? mkBin(Op::Or, mkNot(c), a) : mkBin(Op::And, c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(Op::Ite, a->width, c, a, b, 0, 0);
}
// ---- doubles that are provably small integers: arithmetic on them is exact, so it can be done on integers
static unsigned sbits(Expr *e, int d = 0) { // significant bits of the signed value
  unsigned w = e->width, r = w;
  if (d > 16) return w;
  switch (e->op) {
    case Op::Const: { i128 v = sext128(e->c, w); if (v < 0) v = ~v; r = 1; while (v) { r++; v >>= 1; } break; }
    case Op::SExt: r = sbits(e->k[0], d + 1); break;
    case Op::ZExt: r = e->k[0]->width + 1; break;
    case Op::Add: case Op::Sub: r = std::max(sbits(e->k[0], d + 1), sbits(e->k[1], d + 1)) + 1; break;
    case Op::Mul: r = sbits(e->k[0], d + 1) + sbits(e->k[1], d + 1); break;
    case Op::Ite: r = std::max(sbits(e->k[1], d + 1), sbits(e->k[2], d + 1)); break;
    case Op::Extract: { unsigned b = sbits(e->k[0], d + 1); r = b > e->aux ? b - e->aux : 1; break; }
    case Op::AShr: r = sbits(e->k[0], d + 1); if (e->k[1]->isConst()) r = r > e->k[1]->c ? r - (unsigned)e->k[1]->c : 1; break;
    case Op::SRem: r = std::min(sbits(e->k[0], d + 1), sbits(e->k[1], d + 1)); break;
    case Op::SDiv: r = sbits(e->k[0], d + 1) + 1; break;
    case Op::And: for (int i = 0; i < 2; i++) if (e->k[i]->isConst() && sext128(e->k[i]->c, w) >= 0) r = std::min(r, sbits(e->k[i], d + 1)); r = std::min(r, std::max(sbits(e->k[0], d + 1), sbits(e->k[1], d + 1))); break;
    default: break;
  }
  return std::min(r, w);
}
static Expr *sx64(Expr *e) { return e->width == 64 ? e : e->width < 64 ? mkSExt(e, 64) : mkExtract(e, 0, 64); }
// fixed point view: value == x * 2^-s with x a 64 bit integer of the given number of significant bits (sign included)
// strict: additionally s == 0 and the value is never -0
static unsigned mant(unsigned w) { return w == 80 ? 64 : w == 64 ? 53 : w == 32 ? 24 : 0; }
static long double constVal(Expr *e) { u128 c = e->width == 80 ? e->c : foldF1(Op::FCast, e->width, 80, 0, e->c); long double f = 0; memcpy(&f, &c, 10); return f; }
static Expr *shlK(Expr *x, unsigned k) { return k ? mkBin(Op::Mul, x, mkConst((u128)1 << k, 64)) : x; }
static Expr *ashrK(Expr *x, unsigned k) { return k ? mkBin(Op::AShr, x, mkConst(k, 64)) : x; }
static Expr *negK(Expr *x) { return mkBin(Op::Sub, mkConst(0, 64), x); }
static Expr *fixView(Expr *e, unsigned &bits, unsigned &s, bool strict, int d = 0) {
  unsigned M = mant(e->width); s = 0;
  if (!M || d > 12) return nullptr;
  unsigned b1, b2, s1, s2; Expr *x, *y;
  auto align = [&]() { // brings both operands to the larger scale
    s = std::max(s1, s2); if (b1 + (s - s1) > 62 || b2 + (s - s2) > 62) return false;
    x = shlK(x, s - s1); b1 += s - s1; y = shlK(y, s - s2); b2 += s - s2; return true; };
  switch (e->op) {
    case Op::Const: {
      long double v = constVal(e);
      if (!(v > -4.5e15L && v < 4.5e15L) || (strict && v == 0 && std::signbit(v))) return nullptr;
      while (v != (long double)(int64_t)v) { if (strict || ++s > 40) return nullptr; v *= 2; if (!(v > -4.5e15L && v < 4.5e15L)) return nullptr; }
      x = mkConst((u128)(uint64_t)(int64_t)v, 64); bits = sbits(x); return x; }
    case Op::FFromS: bits = sbits(e->k[0]); if (bits > std::min(M, 62u)) return nullptr; return sx64(e->k[0]);
    case Op::FFromU: { Expr *k = e->k[0]; unsigned kw = k->op == Op::ZExt ? k->k[0]->width : k->width; if (kw > 52 || kw + 1 > M || k->width > 64) return nullptr; bits = kw + 1; return mkZExt(k, 64); }
    case Op::FCast: if (!(x = fixView(e->k[0], bits, s, strict, d + 1)) || bits > M) return nullptr; return x;
    case Op::FRound: if (strict || !(x = fixView(e->k[0], b1, s1, false, d + 1))) return nullptr;
      s = 0; if (!s1) { bits = b1; return x; } bits = (b1 > s1 ? b1 - s1 : 0) + 2;
      switch (e->aux) {
        case 3: return ashrK(x, s1);
        case 2: return negK(ashrK(negK(x), s1));
        case 4: return mkIte(mkBin(Op::Slt, x, mkConst(0, 64)), negK(ashrK(negK(x), s1)), ashrK(x, s1));
        case 1: { Expr *h = mkConst((u128)1 << (s1 - 1), 64); return mkIte(mkBin(Op::Slt, x, mkConst(0, 64)), negK(ashrK(mkBin(Op::Add, negK(x), h), s1)), ashrK(mkBin(Op::Add, x, h), s1)); }
        default: return nullptr;
      }
    case Op::FAdd: case Op::FSub: if (strict) return nullptr;
      if (!(x = fixView(e->k[0], b1, s1, false, d + 1)) || !(y = fixView(e->k[1], b2, s2, false, d + 1)) || !align()) return nullptr;
      bits = std::max(b1, b2) + 1; if (bits > std::min(M, 60u)) return nullptr; return mkBin(e->op == Op::FAdd ? Op::Add : Op::Sub, x, y);
    case Op::FMul: if (strict) return nullptr;
      if (!(x = fixView(e->k[0], b1, s1, false, d + 1)) || !(y = fixView(e->k[1], b2, s2, false, d + 1))) return nullptr;
      bits = b1 + b2; s = s1 + s2; if (bits > std::min(M, 60u) || s > 60) return nullptr; return mkBin(Op::Mul, x, y);
    case Op::FDiv: { if (strict || !e->k[1]->isConst() || !(x = fixView(e->k[0], b1, s1, false, d + 1))) return nullptr; // by a power of two
      int ex; long double m = frexpl(constVal(e->k[1]), &ex); if (fabsl(m) != 0.5L) return nullptr; int ns = (int)s1 + (ex - 1);
      if (m < 0) { x = negK(x); b1++; } if (ns < 0) { if (b1 - ns > std::min(M, 60u)) return nullptr; x = shlK(x, -ns); b1 -= ns; ns = 0; } if (ns > 60 || b1 > M) return nullptr; s = ns; bits = b1; return x; }
    case Op::FNeg: if (strict || !(x = fixView(e->k[0], b1, s, false, d + 1))) return nullptr; bits = b1 + 1; return negK(x);
    case Op::FAbs: if (!(x = fixView(e->k[0], b1, s, strict, d + 1))) return nullptr; bits = b1 + 1; return mkIte(mkBin(Op::Slt, x, mkConst(0, 64)), negK(x), x);
    case Op::Ite: if (!(x = fixView(e->k[1], b1, s1, strict, d + 1)) || !(y = fixView(e->k[2], b2, s2, strict, d + 1)) || !align()) return nullptr; bits = std::max(b1, b2); if (bits > std::min(M, 60u)) return nullptr; return mkIte(e->k[0], x, y);
    default: return nullptr;
  }
}
static Expr *intView(Expr *e, unsigned &bits, bool strict) { unsigned s; Expr *x = fixView(e, bits, s, strict); return x && s == 0 && bits <= 53 ? x : nullptr; }
// comparison of a fixed point value with an arbitrary constant
static Expr *cmpConst(Op op, Expr *x, unsigned s, long double c, bool constLeft) {
  if (c != c) return nullptr;
  long double t = ldexpl(c, (int)s);
  if (op == Op::FUno) return mkFalse();
  bool big = t >= 0x1p62L, low = t <= -0x1p62L;
  if (op == Op::FOeq) { if (big || low || t != floorl(t) || (t == 0 && c != 0)) return mkFalse(); return mkEq(x, mkConst((u128)(uint64_t)(int64_t)t, 64)); }
  if (t == 0 && c != 0) return nullptr;
  if (!constLeft) { if (big) return mkTrue(); if (low) return mkFalse(); if (op == Op::FOlt) return mkBin(Op::Slt, x, mkConst((u128)(uint64_t)(int64_t)ceill(t), 64)); return mkBin(Op::Sle, x, mkConst((u128)(uint64_t)(int64_t)floorl(t), 64)); }
  if (big) return mkFalse(); if (low) return mkTrue(); if (op == Op::FOlt) return mkBin(Op::Slt, mkConst((u128)(uint64_t)(int64_t)floorl(t), 64), x); return mkBin(Op::Sle, mkConst((u128)(uint64_t)(int64_t)ceill(t), 64), x);
}
Expr *mkF2(Op op, Expr *a, Expr *b) {
  if (a->isConst() && b->isConst()) return mkConst(foldF2(op, a->width, a->c, b->c), a->width);
  if ((op == Op::FAdd || op == Op::FSub) && a->width == 64) {
    unsigned b1, b2; Expr *x = intView(a, b1, true), *y = x ? intView(b, b2, true) : nullptr;
    if (x && y && std::max(b1, b2) < 52) return mkF1(Op::FFromS, mkBin(op == Op::FAdd ? Op::Add : Op::Sub, x, y), 64);
  }
  // canonical forms (all exact in IEEE arithmetic; NaN payloads are not distinguished)
  unsigned w = a->width;
  if (w == 64 || w == 32) {
    u128 sgn = (u128)1 << (w - 1), msk = w == 64 ? (u128)0xffffffffffffffffULL : (u128)0xffffffffULL;
    auto isNaNc = [&](Expr *e) { return foldF2(Op::FUno, w, e->c, e->c) != 0; };
    if (op == Op::FDiv && b->isConst() && !isNaNc(b)) { // division by a power of two
      unsigned mb = w == 64 ? 52 : 23, bias = w == 64 ? 1023 : 127; u128 man = b->c & (((u128)1 << mb) - 1); int ex = (int)((uint64_t)(b->c >> mb) & (2 * bias + 1));
      int rx = 2 * (int)bias - ex; if (man == 0 && ex > 0 && ex < (int)(2 * bias + 1) && rx > 0 && rx < (int)(2 * bias + 1)) return mkF2(Op::FMul, a, mkConst((b->c & sgn) | ((u128)(unsigned)rx << mb), w));
    }
    if (op == Op::FSub) {
      if (b->isConst() && !isNaNc(b)) return mkF2(Op::FAdd, a, mkConst((b->c ^ sgn) & msk, w));
      if (b->op == Op::FNeg) return mkF2(Op::FAdd, a, b->k[0]);
    } else if (op == Op::FAdd) {
      if (a->isConst()) std::swap(a, b);
      if (b->op == Op::FNeg) return mkF2(Op::FSub, a, b->k[0]);
      if (a->op == Op::FNeg && !b->isConst()) return mkF2(Op::FSub, b, a->k[0]);
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
    } else if (op == Op::FMul) {
      if (a->isConst()) std::swap(a, b);
      if (a->op == Op::FNeg && b->op == Op::FNeg) return mkF2(op, a->k[0], b->k[0]);
      if (a->op == Op::FNeg && b->isConst() && !isNaNc(b)) return mkF2(op, a->k[0], mkConst((b->c ^ sgn) & msk, w));
      if (a->op == Op::FNeg && !b->isConst()) return mkF1(Op::FNeg, mkF2(op, a->k[0], b), w);
      if (b->op == Op::FNeg) return mkF1(Op::FNeg, mkF2(op, a, b->k[0]), w);
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
    } else if (op == Op::FDiv) {
      if (a->op == Op::FNeg && b->op == Op::FNeg) return mkF2(op, a->k[0], b->k[0]);
      if (a->op == Op::FNeg && b->isConst() && !isNaNc(b)) return mkF2(op, a->k[0], mkConst((b->c ^ sgn) & msk, w));
      if (b->op == Op::FNeg && a->isConst() && !isNaNc(a)) return mkF2(op, mkConst((a->c ^ sgn) & msk, w), b->k[0]);
      if (a->op == Op::FNeg) return mkF1(Op::FNeg, mkF2(op, a->k[0], b), w);
      if (b->op == Op::FNeg) return mkF1(Op::FNeg, mkF2(op, a, b->k[0]), w);
    }
  }
  return intern(op, a->width, a, b, 0, 0, 0);
}
Expr *mkFCmp(Op op, Expr *a, Expr *b) {
  if (a->isConst() && b->isConst()) return mkConst(foldF2(op, a->width, a->c, b->c), 1);
  if (op == Op::FUno) {
    if (a->isConst() && !foldF2(Op::FUno, a->width, a->c, a->c)) return mkFCmp(op, b, b);
    if (b->isConst() && !foldF2(Op::FUno, b->width, b->c, b->c)) { if (a != b) b = a; }
    if (a == b && (a->op == Op::FFromS || a->op == Op::FFromU) ) return mkFalse();
    if (a == b && (a->op == Op::FNeg || a->op == Op::FAbs || a->op == Op::FCast || a->op == Op::FRound)) return mkFCmp(op, a->k[0], a->k[0]);
  }
  if (mant(a->width) && (a->op != Op::Var || b->op != Op::Var)) {
    { unsigned b1, b2, s1, s2;
      if (b->isConst() && !a->isConst()) { if (Expr *x = fixView(a, b1, s1, false)) if (Expr *r = cmpConst(op, x, s1, constVal(b), false)) return r; }
      else if (a->isConst() && !b->isConst()) { if (Expr *x = fixView(b, b1, s1, false)) if (Expr *r = cmpConst(op, x, s1, constVal(a), true)) return r; }
      else if (Expr *x = fixView(a, b1, s1, false)) if (Expr *y = fixView(b, b2, s2, false)) { unsigned s = std::max(s1, s2);
        if (b1 + s - s1 <= 62 && b2 + s - s2 <= 62) { x = shlK(x, s - s1); y = shlK(y, s - s2);
          switch (op) { case Op::FUno: return mkFalse(); case Op::FOeq: return mkEq(x, y); case Op::FOlt: return mkBin(Op::Slt, x, y); case Op::FOle: return mkBin(Op::Sle, x, y); default: break; } } }
    }
    if (a->width == 64) {
    // quotients by a positive integer constant: with small operands fl(x/n) compares to an integer like x to k*n
    auto quot = [](Expr *e, unsigned &bits, uint64_t &n) -> Expr * {
      if ((e->op != Op::FDiv && e->op != Op::FMul) || !e->k[1]->isConst()) return nullptr;
      double v; uint64_t u = (uint64_t)e->k[1]->c; memcpy(&v, &u, 8); if (e->op == Op::FMul) { if (!(v > 0 && v < 1) || (u & 0xfffffffffffffULL)) return nullptr; v = 1 / v; } if (!(v >= 1 && v < 1048576) || v != (double)(int64_t)v) return nullptr;
      n = (uint64_t)v; Expr *x = intView(e->k[0], bits, false); return x && bits <= 24 ? x : nullptr; };
    unsigned b1 = 0, b2 = 0; uint64_t n1 = 1, n2 = 1; Expr *x = quot(a, b1, n1), *y = quot(b, b2, n2);
    bool qa = x, qb = y;
    if (!x) x = intView(a, b1, false); if (x && !y) y = intView(b, b2, false);
    if (x && y) {
      if (qa && qb) { if (n1 != n2) x = nullptr; }
      else if (qa) { if (b2 > 24) x = nullptr; else y = mkBin(Op::Mul, y, mkConst(n1, 64)); }
      else if (qb) { if (b1 > 24) x = nullptr; else x = mkBin(Op::Mul, x, mkConst(n2, 64)); }
    }
    if (x && y) switch (op) {
      case Op::FUno: return mkFalse();
      case Op::FOeq: return mkEq(x, y);
      case Op::FOlt: return mkBin(Op::Slt, x, y);
      case Op::FOle: return mkBin(Op::Sle, x, y);
      default: break;
    }
    }
  }
  return intern(op, 1, a, b, 0, 0, 0);
}
Expr *mkF1(Op op, Expr *a, unsigned ow, unsigned aux) {
  if (a->isConst()) return mkConst(foldF1(op, a->width, ow, aux, a->c), ow);
  if (op == Op::FCast && a->width == ow) return a;
  if (op == Op::FNeg && a->op == Op::FNeg) return a->k[0];
  if (op == Op::FNeg && (ow == 64 || ow == 32) && a->op == Op::FMul && a->k[1]->isConst() && !foldF2(Op::FUno, ow, a->k[1]->c, a->k[1]->c)) return mkF2(Op::FMul, a->k[0], mkConst((a->k[1]->c ^ ((u128)1 << (ow - 1))), ow));
  if (op == Op::FAbs && (a->op == Op::FAbs)) return a;
  if (op == Op::FAbs && (a->op == Op::FNeg)) return mkF1(Op::FAbs, a->k[0], ow);
  // exact narrowing of a widening
  if (op == Op::FCast && a->op == Op::FCast && a->k[0]->width == ow && a->width > ow) return a->k[0];
  if (op == Op::FCast && a->op == Op::Ite) return mkIte(a->k[0], mkF1(op, a->k[1], ow, aux), mkF1(op, a->k[2], ow, aux));
  if ((op == Op::FToS || op == Op::FToU) && ow <= 64) { unsigned b, s; if (Expr *x = fixView(a, b, s, false)) { // truncation
    unsigned rb = (b > s ? b - s : 0) + 1; if (rb <= ow && op == Op::FToS) { if (s) x = mkIte(mkBin(Op::Slt, x, mkConst(0, 64)), negK(ashrK(negK(x), s)), ashrK(x, s)); return mkExtract(x, 0, ow); } } }
  return intern(op, ow, a, 0, 0, aux, 0);
}

const std::vector<uint32_t> &varsOf(Expr *e) {
  static std::vector<uint32_t> empty;
  if (e->vars) return *e->vars;
  if (e->isConst()) return empty;
  auto *v = new std::vector<uint32_t>();
  if (e->op == Op::Var) v->push_back(e->aux);
  else {
    for (int i = 0; i < 3 && e->k[i]; i++) {
      const auto &kv = varsOf(e->k[i]);
      if (v->empty()) *v = kv;
      else if (!kv.empty()) {
        std::vector<uint32_t> r;
        std::set_union(v->begin(), v->end(), kv.begin(), kv.end(), std::back_inserter(r));
        v->swap(r);
      }
    }
  }
  e->vars = v;
  return *v;
}

static u128 evalRec(Expr *e, const Model &m, std::unordered_map<Expr *, u128> &memo) {
  if (e->op == Op::Const) return e->c;
  if (e->op == Op::Var) return m.get(e->aux) & maskW(e->width);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  u128 r = 0;
  switch (e->op) {
    case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: case Op::Xor:
    case Op::Shl: case Op::LShr: case Op::AShr: case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: {
      u128 a = evalRec(e->k[0], m, memo), b = evalRec(e->k[1], m, memo);
      r = foldBin(e->op, e->k[0]->width, a, b); break; }
    case Op::And: { u128 a = evalRec(e->k[0], m, memo); r = a ? (a & evalRec(e->k[1], m, memo)) : 0; break; }
    case Op::Or: { u128 a = evalRec(e->k[0], m, memo); r = a == maskW(e->width) ? a : (a | evalRec(e->k[1], m, memo)); break; }
    case Op::Not: r = ~evalRec(e->k[0], m, memo) & maskW(e->width); break;
    case Op::ZExt: r = evalRec(e->k[0], m, memo); break;
    case Op::SExt: r = (u128)sext128(evalRec(e->k[0], m, memo), e->k[0]->width) & maskW(e->width); break;
    case Op::Extract: r = (evalRec(e->k[0], m, memo) >> e->aux) & maskW(e->width); break;
    case Op::Concat: r = (evalRec(e->k[0], m, memo) << e->k[1]->width) | evalRec(e->k[1], m, memo); break;
    case Op::Ite: r = evalRec(e->k[0], m, memo) ? evalRec(e->k[1], m, memo) : evalRec(e->k[2], m, memo); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: {
      u128 a = evalRec(e->k[0], m, memo), b = evalRec(e->k[1], m, memo);
      r = foldF2(e->op, e->k[0]->width, a, b); break; }
    case Op::FSqrt: case Op::FNeg: case Op::FAbs: case Op::FRound: case Op::FCast: case Op::FFromS: case Op::FFromU: case Op::FToS: case Op::FToU:
      r = foldF1(e->op, e->k[0]->width, e->width, e->aux, evalRec(e->k[0], m, memo)); break;
    default: abort();
  }
  memo[e] = r;
  return r;
}
u128 evalExpr(Expr *e, const Model &m) {
  if (e->op == Op::Const) return e->c;
  std::unordered_map<Expr *, u128> memo;
  return evalRec(e, m, memo);
}

std::string exprStr(Expr *e, int depth) {
  if (!e) return "<null>";
  if (e->op == Op::Const) { char b[64]; snprintf(b, 64, "0x%llx:%d", (unsigned long long)e->c, e->width); return b; }
  if (e->op == Op::Var) return gVars[e->aux].name;
  if (depth == 0) return "...";
  std::string s = "(" + std::string(opName(e->op));
  if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  for (int i = 0; i < 3 && e->k[i]; i++) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
