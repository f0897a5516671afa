#include "expr.hpp"
#include <z3.h>
#include <cmath>
#include <chrono>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <fcntl.h>

SolverStats gStats;
unsigned gSolverTimeoutMs = 20000, gFallbackS = 120;
double gSolverBudgetS = 1e9;
static Z3_context ctx;
static std::string gTmp = "/tmp";
static Z3_sort sF32, sF64, sF80;
static Z3_ast rne, rna, rtp, rtn, rtz;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool gZ3Err = false;
static void errh(Z3_context c, Z3_error_code e) { gZ3Err = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

void solverInit(unsigned t, unsigned f, const std::string &tmp) {
  gSolverTimeoutMs = t; gFallbackS = f; gTmp = tmp;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // no ref counting: ASTs live for the process lifetime
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
  sF32 = Z3_mk_fpa_sort(ctx, 8, 24); sF64 = Z3_mk_fpa_sort(ctx, 11, 53); sF80 = Z3_mk_fpa_sort(ctx, 15, 64);
  rne = Z3_mk_fpa_rne(ctx); rna = Z3_mk_fpa_rna(ctx); rtp = Z3_mk_fpa_rtp(ctx); rtn = Z3_mk_fpa_rtn(ctx); rtz = Z3_mk_fpa_rtz(ctx);
}

static std::unordered_map<Expr *, Z3_ast> cBV, cFP, cBool;
static std::unordered_map<Expr *, Z3_ast> absDefs; static std::unordered_map<Expr *, Z3_ast> fpDefs; // definitional constraints for FP->BV conversions
static std::unordered_map<uint32_t, Z3_ast> varAst;

static Z3_ast toBV(Expr *e);
static Z3_ast toFP(Expr *e);
static Z3_ast toBool(Expr *e);
static Z3_sort fpSort(unsigned w) { return w == 32 ? sF32 : w == 64 ? sF64 : sF80; }
static bool isFPop(Op o) { return o == Op::FAdd || o == Op::FSub || o == Op::FMul || o == Op::FDiv || o == Op::FSqrt || o == Op::FNeg || o == Op::FAbs || o == Op::FRound || o == Op::FCast || o == Op::FFromS || o == Op::FFromU; }
static bool isBoolNode(Expr *e) { return e->width == 1; }
static Z3_ast rmode(unsigned a) { switch (a) { case 0: return rne; case 1: return rna; case 2: return rtp; case 3: return rtn; default: return rtz; } }

static Z3_ast numeral(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, s);
  std::string d; u128 x = v; if (!x) d = "0"; while (x) { d += char('0' + (int)(x % 10)); x /= 10; } std::reverse(d.begin(), d.end());
  return Z3_mk_numeral(ctx, d.c_str(), s);
}

static Z3_ast bvToFp(Z3_ast bv, unsigned w) {
  if (w == 80) {
    Z3_ast hi = Z3_mk_extract(ctx, 79, 64, bv), lo = Z3_mk_extract(ctx, 62, 0, bv);
    return Z3_mk_fpa_to_fp_bv(ctx, Z3_mk_concat(ctx, hi, lo), sF80);
  }
  return Z3_mk_fpa_to_fp_bv(ctx, bv, fpSort(w));
}

// over-approximation: expensive operations become unknowns about which only a few facts are given (unsat stays unsat)
bool gUseAbs = false; static bool gAbs = false;
static bool absOp(Expr *e) {
  switch (e->op) {
    case Op::FDiv: case Op::FSqrt: case Op::SDiv: case Op::SRem: case Op::UDiv: case Op::URem: return true;
    case Op::FMul: case Op::FAdd: case Op::FSub: return true;
    case Op::FRound: return e->width == 80;
    default: return false;
  }
}
static Z3_ast absFP(Expr *e) {
  std::string n = "ah" + std::to_string(e->id);
  Z3_sort fs = fpSort(e->width);
  Z3_ast r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), fs), a = toFP(e->k[0]), b = e->k[1] ? toFP(e->k[1]) : nullptr;
  auto A2 = [](Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_and(ctx, 2, v); };
  auto O2 = [](Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_or(ctx, 2, v); };
  auto nan = [](Z3_ast x) { return Z3_mk_fpa_is_nan(ctx, x); }; auto inf = [](Z3_ast x) { return Z3_mk_fpa_is_infinite(ctx, x); }; auto zero = [](Z3_ast x) { return Z3_mk_fpa_is_zero(ctx, x); };
  auto pow2 = [&](unsigned k) { return Z3_mk_fpa_numeral_int64_uint64(ctx, false, (int64_t)k, 0, fs); };
  auto le = [&](Z3_ast x, Z3_ast y) { return Z3_mk_fpa_leq(ctx, Z3_mk_fpa_abs(ctx, x), y); };
  Z3_ast anyNan = b ? O2(nan(a), nan(b)) : nan(a), f;
  unsigned small = e->width == 80 ? 1100 : e->width == 64 ? 500 : 60;
  switch (e->op) {
    case Op::FDiv: f = Z3_mk_iff(ctx, nan(r), O2(anyNan, O2(A2(zero(a), zero(b)), A2(inf(a), inf(b))))); break;
    case Op::FMul: f = A2(Z3_mk_iff(ctx, nan(r), O2(anyNan, O2(A2(zero(a), inf(b)), A2(inf(a), zero(b))))), Z3_mk_implies(ctx, A2(le(a, pow2(small)), le(b, pow2(small))), le(r, pow2(2 * small)))); break;
    case Op::FAdd: case Op::FSub: f = A2(Z3_mk_implies(ctx, nan(r), O2(anyNan, A2(inf(a), inf(b)))), A2(Z3_mk_implies(ctx, anyNan, nan(r)), Z3_mk_implies(ctx, A2(le(a, pow2(2 * small)), le(b, pow2(2 * small))), le(r, pow2(2 * small + 1))))); break;
    case Op::FRound: f = A2(Z3_mk_iff(ctx, nan(r), nan(a)), Z3_mk_iff(ctx, inf(r), inf(a))); break;
    default: f = Z3_mk_implies(ctx, nan(a), nan(r)); break;
  }
  absDefs[e] = f;
  return r;
}
static Z3_ast absBV(Expr *e) {
  std::string n = "ah" + std::to_string(e->id);
  Z3_ast r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->width)), a = toBV(e->k[0]), b = toBV(e->k[1]), z = numeral(0, e->width);
  std::vector<Z3_ast> f; auto imp = [&](std::vector<Z3_ast> p, Z3_ast c) { f.push_back(Z3_mk_implies(ctx, Z3_mk_and(ctx, p.size(), p.data()), c)); };
  auto sle = [&](Z3_ast x, Z3_ast y) { return Z3_mk_bvsle(ctx, x, y); }; auto slt = [&](Z3_ast x, Z3_ast y) { return Z3_mk_bvslt(ctx, x, y); }; auto neg = [&](Z3_ast x) { return Z3_mk_bvneg(ctx, x); };
  switch (e->op) {
    case Op::SRem: imp({sle(z, a), slt(z, b)}, sle(z, r)); imp({sle(z, a), slt(z, b)}, slt(r, b)); imp({sle(z, a), slt(z, b)}, sle(r, a)); imp({slt(a, z), slt(z, b)}, slt(neg(b), r)); imp({slt(a, z), slt(z, b)}, sle(r, z)); imp({slt(a, z), slt(z, b)}, sle(a, r)); break;
    case Op::SDiv: imp({sle(z, a), slt(z, b)}, sle(z, r)); imp({sle(z, a), slt(z, b)}, sle(r, a)); imp({slt(a, z), slt(z, b)}, sle(r, z)); imp({slt(a, z), slt(z, b)}, sle(a, r)); break;
    case Op::URem: imp({Z3_mk_bvult(ctx, z, b)}, Z3_mk_bvult(ctx, r, b)); f.push_back(Z3_mk_bvule(ctx, r, a)); break;
    default: imp({Z3_mk_bvult(ctx, z, b)}, Z3_mk_bvule(ctx, r, a)); break;
  }
  absDefs[e] = Z3_mk_and(ctx, f.size(), f.data());
  return r;
}
static Z3_ast toFP(Expr *e) {
  auto it = cFP.find(e); if (it != cFP.end()) return it->second;
  Z3_ast r;
  if (gAbs && absOp(e)) { r = absFP(e); cFP[e] = r; return r; }
  switch (e->op) {
    case Op::FAdd: r = Z3_mk_fpa_add(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FSub: r = Z3_mk_fpa_sub(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FMul: r = Z3_mk_fpa_mul(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FDiv: r = Z3_mk_fpa_div(ctx, rne, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rne, toFP(e->k[0])); break;
    case Op::FNeg: r = Z3_mk_fpa_neg(ctx, toFP(e->k[0])); break;
    case Op::FAbs: r = Z3_mk_fpa_abs(ctx, toFP(e->k[0])); break;
    case Op::FRound: r = Z3_mk_fpa_round_to_integral(ctx, rmode(e->aux), toFP(e->k[0])); break;
    case Op::FCast: r = Z3_mk_fpa_to_fp_float(ctx, rne, toFP(e->k[0]), fpSort(e->width)); break;
    case Op::FFromS: r = Z3_mk_fpa_to_fp_signed(ctx, rne, toBV(e->k[0]), fpSort(e->width)); break;
    case Op::FFromU: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, toBV(e->k[0]), fpSort(e->width)); break;
    case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), toFP(e->k[1]), toFP(e->k[2])); break;
    default: r = bvToFp(toBV(e), e->width);
  }
  cFP[e] = r;
  return r;
}

static Z3_ast toBV(Expr *e) {
  auto it = cBV.find(e); if (it != cBV.end()) return it->second;
  Z3_ast r = nullptr;
  if (gAbs && (e->op == Op::SDiv || e->op == Op::SRem || e->op == Op::UDiv || e->op == Op::URem)) { r = absBV(e); cBV[e] = r; return r; }
  if (e->op == Op::Const) r = numeral(e->c, e->width);
  else if (e->op == Op::Var) {
    std::string n = "v" + std::to_string(e->aux);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->width));
    varAst[e->aux] = r;
  } else if (isBoolNode(e) && !(e->op == Op::Extract)) {
    r = Z3_mk_ite(ctx, toBool(e), numeral(1, 1), numeral(0, 1));
  } else if (isFPop(e->op)) {
    std::string n = "fb" + std::to_string(e->id);
    unsigned w = e->width;
    if (w == 80) {
      Z3_ast b = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, 79));
      fpDefs[e] = Z3_mk_eq(ctx, Z3_mk_fpa_to_fp_bv(ctx, b, sF80), toFP(e));
      Z3_ast hi = Z3_mk_extract(ctx, 78, 63, b), lo = Z3_mk_extract(ctx, 62, 0, b);
      Z3_ast ib = Z3_mk_ite(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, 77, 63, b), numeral(0, 15)), numeral(0, 1), numeral(1, 1));
      r = Z3_mk_concat(ctx, hi, Z3_mk_concat(ctx, ib, lo));
    } else {
      Z3_ast b = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, w));
      fpDefs[e] = Z3_mk_eq(ctx, Z3_mk_fpa_to_fp_bv(ctx, b, fpSort(w)), toFP(e));
      r = b;
    }
  } else {
    auto A = [&](int i) { return toBV(e->k[i]); };
    switch (e->op) {
      case Op::Add: r = Z3_mk_bvadd(ctx, A(0), A(1)); break;
      case Op::Sub: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
      case Op::Mul: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
      case Op::UDiv: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
      case Op::SDiv: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
      case Op::URem: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
      case Op::SRem: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
      case Op::And: r = Z3_mk_bvand(ctx, A(0), A(1)); break;
      case Op::Or: r = Z3_mk_bvor(ctx, A(0), A(1)); break;
      case Op::Xor: r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
      case Op::Shl: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
      case Op::LShr: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
      case Op::AShr: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
      case Op::Not: r = Z3_mk_bvnot(ctx, A(0)); break;
      case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, A(0)); break;
      case Op::SExt: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, A(0)); break;
      case Op::Extract: r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, A(0)); break;
      case Op::Concat: r = Z3_mk_concat(ctx, A(0), A(1)); break;
      case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), A(1), A(2)); break;
      case Op::FToS: case Op::FToU: {
        bool s = e->op == Op::FToS; unsigned ow = e->width, fw = e->k[0]->width;
        Z3_ast f = toFP(e->k[0]);
        Z3_ast conv = s ? Z3_mk_fpa_to_sbv(ctx, rtz, f, ow) : Z3_mk_fpa_to_ubv(ctx, rtz, f, ow);
        // guard: in-range (truncated value representable), else x86 "indefinite"
        Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, rtz, f);
        Z3_sort fs = fpSort(fw);
        double lim = std::ldexp(1.0, s ? ow - 1 : ow);
        Z3_ast hi = Z3_mk_fpa_numeral_double(ctx, lim, fs), lo = Z3_mk_fpa_numeral_double(ctx, s ? -lim : 0.0, fs);
        Z3_ast in[2] = {Z3_mk_fpa_lt(ctx, t, hi), Z3_mk_fpa_geq(ctx, t, lo)};
        Z3_ast inr = Z3_mk_and(ctx, 2, in);
        Z3_ast other;
        if (s || ow > 32) other = numeral((u128)1 << (ow - 1), ow);
        else {
          Z3_ast c64 = Z3_mk_fpa_to_sbv(ctx, rtz, f, 64);
          Z3_ast h2 = Z3_mk_fpa_numeral_double(ctx, std::ldexp(1.0, 63), fs), l2 = Z3_mk_fpa_numeral_double(ctx, -std::ldexp(1.0, 63), fs);
          Z3_ast in2[2] = {Z3_mk_fpa_lt(ctx, t, h2), Z3_mk_fpa_geq(ctx, t, l2)};
          other = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in2), Z3_mk_extract(ctx, ow - 1, 0, c64), numeral(0, ow));
        }
        r = Z3_mk_ite(ctx, inr, conv, other);
        break;
      }
      default: fprintf(stderr, "toBV: unhandled %s\n", opName(e->op)); abort();
    }
  }
  cBV[e] = r;
  return r;
}

static Z3_ast toBool(Expr *e) {
  auto it = cBool.find(e); if (it != cBool.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case Op::Const: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case Op::Eq:
      if (e->k[0]->width == 1) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
      else r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1]));
      break;
    case Op::Ult: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::FOeq: r = Z3_mk_fpa_eq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FOlt: r = Z3_mk_fpa_lt(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FOle: r = Z3_mk_fpa_leq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FUno: {
      Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, toFP(e->k[0])), Z3_mk_fpa_is_nan(ctx, toFP(e->k[1]))};
      r = e->k[0] == e->k[1] ? a[0] : Z3_mk_or(ctx, 2, a); break; }
    case Op::Not: r = Z3_mk_not(ctx, toBool(e->k[0])); break;
    case Op::And: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case Op::Or: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case Op::Xor: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
    case Op::Add: case Op::Sub: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
    case Op::Mul: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    default: r = Z3_mk_eq(ctx, toBV(e), numeral(1, 1));
  }
  cBool[e] = r;
  return r;
}

static void collectDefs(Expr *e, std::set<Expr *> &seen, std::vector<Z3_ast> &out, bool &fp, std::vector<uint32_t> &) {
  std::vector<Expr *> st{e};
  while (!st.empty()) {
    Expr *x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if ((int)x->op >= (int)Op::FAdd && (int)x->op <= (int)Op::FToU) fp = true;
    auto it = fpDefs.find(x);
    if (it != fpDefs.end()) out.push_back(it->second);
    if (gAbs) { auto ia = absDefs.find(x); if (ia != absDefs.end()) out.push_back(ia->second); }
    for (int i = 0; i < 3 && x->k[i]; i++) st.push_back(x->k[i]);
  }
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u128>> vals; };
static std::map<std::vector<uint32_t>, CacheEnt> qcache;

static u128 parseBV(const std::string &s) {
  u128 r = 0;
  if (s.compare(0, 2, "#b") == 0) for (size_t i = 2; i < s.size(); i++) r = r * 2 + (s[i] - '0');
  else if (s.compare(0, 2, "#x") == 0) for (size_t i = 2; i < s.size(); i++) { char c = s[i]; r = r * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
  else for (char c : s) r = r * 10 + (c - '0');
  return r;
}

// run external solvers in parallel on an SMT-LIB file; first definite answer wins
static Res external(const std::string &smt, const std::vector<uint32_t> &vars, std::vector<std::pair<uint32_t, u128>> &vals) {
  gStats.fallback++;
  static int seq = 0;
  std::string base = gTmp + "/q" + std::to_string(getpid()) + "_" + std::to_string(seq++);
  { std::ofstream f(base + ".smt2");
    f << "(set-option :produce-models true)\n";
    if (smt.find("(set-logic") == std::string::npos) f << "(set-logic QF_BVFP)\n";
    f << smt << "\n";
    if (!vars.empty()) { f << "(get-value ("; for (auto v : vars) f << " v" << v; f << "))\n"; } }
  struct Run { pid_t pid; std::string out; };
  std::vector<Run> runs;
  auto launch = [&](const char *tag, std::vector<std::string> args) {
    std::string out = base + "." + tag;
    pid_t p = fork();
    if (p == 0) {
      int fd = open(out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2);
      std::vector<char *> av; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
      execvp(av[0], av.data()); _exit(127);
    }
    runs.push_back({p, out});
  };
  std::string to = std::to_string(gFallbackS);
  launch("cvc5", {"cvc5", "--fp-exp", "--tlimit=" + std::to_string(gFallbackS * 1000), base + ".smt2"});
  launch("z3", {"z3", "-T:" + to, base + ".smt2"});
  double t0 = now();
  Res res = Res::Unknown;
  std::vector<bool> done(runs.size(), false);
  while (res == Res::Unknown && now() - t0 < gFallbackS + 2) {
    bool all = true;
    for (size_t i = 0; i < runs.size(); i++) {
      if (done[i]) continue;
      int st; pid_t r = waitpid(runs[i].pid, &st, WNOHANG);
      if (r == 0) { all = false; continue; }
      done[i] = true;
      std::ifstream f(runs[i].out); std::stringstream ss; ss << f.rdbuf(); std::string o = ss.str();
      size_t nl = o.find('\n'); std::string first = o.substr(0, nl);
      if (first == "unsat") { res = Res::Unsat; break; }
      if (first == "sat" && o.find("(error") == std::string::npos) {
        res = Res::Sat;
        for (auto v : vars) {
          std::string key = "(v" + std::to_string(v) + " ";
          size_t p = o.find(key);
          if (p == std::string::npos) { continue; }
          p += key.size(); size_t q = o.find(')', p);
          vals.push_back({v, parseBV(o.substr(p, q - p))});
        }
        break;
      }
    }
    if (all) break;
    usleep(5000);
  }
  for (size_t i = 0; i < runs.size(); i++) { if (!done[i]) { kill(runs[i].pid, SIGKILL); int st; waitpid(runs[i].pid, &st, 0); } unlink(runs[i].out.c_str()); }
  if (res != Res::Unknown) unlink((base + ".smt2").c_str());
  return res;
}

// the abstract query: true if it is unsatisfiable
static bool hasAbs(const std::vector<Expr *> &slice) {
  std::set<Expr *> seen; std::vector<Expr *> st(slice.begin(), slice.end());
  while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (absOp(x)) return true; for (int i = 0; i < 3 && x->k[i]; i++) st.push_back(x->k[i]); }
  return false;
}
static bool absUnsat(const std::vector<Expr *> &slice) {
  static std::unordered_map<Expr *, Z3_ast> xBV, xFP, xBool, xDefs;
  if (!hasAbs(slice)) return false;
  auto swapAll = [&] { std::swap(cBV, xBV); std::swap(cFP, xFP); std::swap(cBool, xBool); std::swap(fpDefs, xDefs); };
  swapAll(); gAbs = true;
  std::vector<Z3_ast> as, defs; for (auto *e : slice) as.push_back(toBool(e));
  std::set<Expr *> seen; bool fp; std::vector<uint32_t> dummy; for (auto *e : slice) collectDefs(e, seen, defs, fp, dummy);
  Z3_tactic t = Z3_mk_tactic(ctx, "qffpbv"); Z3_tactic_inc_ref(ctx, t); Z3_solver s = Z3_mk_solver_from_tactic(ctx, t); Z3_tactic_dec_ref(ctx, t); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 2000); Z3_solver_set_params(ctx, s, p);
  for (auto a : as) Z3_solver_assert(ctx, s, a); for (auto a : defs) Z3_solver_assert(ctx, s, a);
  bool r = Z3_solver_check(ctx, s) == Z3_L_FALSE;
  Z3_solver_dec_ref(ctx, s); Z3_params_dec_ref(ctx, p);
  gAbs = false; swapAll(); return r;
}
static std::set<std::vector<uint32_t>> unkShort;
// base == null: nothing is known about cs; limitMs != 0: one attempt with that limit, no external solvers
Res solve(const std::vector<Expr *> &cs, Expr *q, const ModelP &base, ModelP &out, unsigned limitMs) {
  if (q->isConst() && !q->c) return Res::Unsat;
  if (q->isConst() && base) { out = base; return Res::Sat; }
  // try base model first
  if (base && evalExpr(q, *base)) { gStats.modelHits++; out = base; return Res::Sat; }
  // independent slice
  std::vector<Expr *> slice{q};
  std::set<uint32_t> vs(varsOf(q).begin(), varsOf(q).end());
  std::vector<bool> used(cs.size(), false);
  bool ch = true;
  if (!base) { ch = false; for (auto *c : cs) { slice.push_back(c); const auto &cv = varsOf(c); vs.insert(cv.begin(), cv.end()); } }
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (used[i]) continue;
      const auto &cv = varsOf(cs[i]);
      bool hit = false;
      for (auto v : cv) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = true; ch = true; slice.push_back(cs[i]); vs.insert(cv.begin(), cv.end()); }
    }
  }
  std::vector<uint32_t> key; key.reserve(slice.size());
  for (auto *e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto finish = [&](const CacheEnt &ce) {
    if (ce.r == Res::Sat) {
      auto m = std::make_shared<Model>(base ? *base : Model());
      for (auto &p : ce.vals) m->set(p.first, p.second);
      out = m;
    }
    return ce.r;
  };
  auto it = qcache.find(key);
  if (it != qcache.end()) { gStats.cacheHits++; return finish(it->second); }
  if (limitMs && unkShort.count(key)) return Res::Unknown;
  double t0 = now();
  gStats.queries++;
  if (gUseAbs && absUnsat(slice)) { double dt = now() - t0; gStats.time += dt; gStats.unsat++; CacheEnt ce; ce.r = Res::Unsat; qcache[key] = ce; return Res::Unsat; }
  if (limitMs == 1 && hasAbs(slice)) { unkShort.insert(key); gStats.unknown++; gStats.time += now() - t0; return Res::Unknown; }
  std::vector<uint32_t> vlist(vs.begin(), vs.end());
  std::vector<Z3_ast> asserts;
  for (auto *e : slice) asserts.push_back(toBool(e));
  std::set<Expr *> seen; bool fp = false;
  std::vector<Z3_ast> defs;
  for (auto *e : slice) collectDefs(e, seen, defs, fp, vlist);
  Z3_solver s = Z3_mk_simple_solver(ctx);
  if (true) {
    Z3_tactic t = Z3_mk_tactic(ctx, fp ? "qffpbv" : "qfbv");
    Z3_tactic_inc_ref(ctx, t);
    s = Z3_mk_solver_from_tactic(ctx, t);
    Z3_tactic_dec_ref(ctx, t);
  }
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), limitMs > 1 ? limitMs : limitMs ? 1000 : gSolverTimeoutMs);
  Z3_solver_set_params(ctx, s, p);
  for (auto a : asserts) Z3_solver_assert(ctx, s, a);
  for (auto a : defs) Z3_solver_assert(ctx, s, a);
  Z3_lbool r = Z3_solver_check(ctx, s);
  CacheEnt ce;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    for (auto v : vlist) {
      auto va = varAst.find(v);
      if (va == varAst.end()) continue;
      Z3_ast val = nullptr;
      if (Z3_model_eval(ctx, m, va->second, true, &val)) {
        const char *str = Z3_get_numeral_string(ctx, val);
        ce.vals.push_back({v, parseBV(str)});
      }
    }
    Z3_model_dec_ref(ctx, m);
    ce.r = Res::Sat;
  } else if (r == Z3_L_FALSE) ce.r = Res::Unsat;
  else if (limitMs) { ce.r = Res::Unknown; unkShort.insert(key); }
  else {
    std::string smt;
    { Z3_solver s2 = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s2);
      for (auto a : asserts) Z3_solver_assert(ctx, s2, a);
      for (auto a : defs) Z3_solver_assert(ctx, s2, a);
      smt = Z3_solver_to_string(ctx, s2); Z3_solver_dec_ref(ctx, s2); smt += "\n(check-sat)\n"; }
    ce.r = external(smt, vlist, ce.vals);
  }
  Z3_solver_dec_ref(ctx, s);
  Z3_params_dec_ref(ctx, p);
  double dt = now() - t0;
  gStats.time += dt;
  if (getenv("VSE_SLOWQ") && dt > (getenv("VSE_MIN") ? atof(getenv("VSE_MIN")) : 1.0)) fprintf(stderr, "[slow query %.1fs %s] %s\n", dt, ce.r == Res::Sat ? "sat" : ce.r == Res::Unsat ? "unsat" : "unknown", exprStr(q, getenv("VSE_DEPTH") ? atoi(getenv("VSE_DEPTH")) : 5).c_str());
  if (ce.r == Res::Sat) gStats.sat++; else if (ce.r == Res::Unsat) gStats.unsat++; else gStats.unknown++;
  Res rr = finish(ce);
  if (rr == Res::Sat) {
    // validate the model with the native evaluator (guards the encoding)
    if (!evalExpr(q, *out)) {
      gStats.sliceDiff++;
      if (getenv("VSE_DEBUG")) fprintf(stderr, "model does not satisfy query natively: %s\n", exprStr(q, 8).c_str());
    }
  }
  if (ce.r != Res::Unknown) qcache[key] = ce;
  return rr;
}
