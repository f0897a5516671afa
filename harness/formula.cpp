// GFormulaParserT: formulas over symbolic constants evaluate to what they say
#include "vs.hpp"
#include "common/GFormulaParserT.hpp"
#include <cmath>
using namespace Gem::Common;
typedef GFormulaParserT<double> FP; typedef GFormulaParserT<float> FF;
#define THROWS(expr) ([&] { try { (void)(expr); return false; } catch (gemfony_exception &) { return true; } }())
static bool same(double a, double b) { return (vs_bits(a) == vs_bits(b)) | (a == b) | ((a != a) & (b != b)); }
static const char *UN[] = {"acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs", "floor", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh"};
static double un(unsigned k, double x) {
  switch (k) { case 0: return std::acos(x); case 1: return std::asin(x); case 2: return std::atan(x); case 3: return std::ceil(x); case 4: return std::cos(x); case 5: return std::cosh(x); case 6: return std::exp(x); case 7: return std::fabs(x);
    case 8: return std::floor(x); case 9: return std::log(x); case 10: return std::log10(x); case 11: return std::sin(x); case 12: return std::sinh(x); case 13: return std::sqrt(x); case 14: return std::tan(x); default: return std::tanh(x); }
}
static bool unBad(unsigned k, double x) { return k <= 1 ? (x < -1. || x > 1.) : k == 9 || k == 10 ? x <= 0. : k == 13 ? x < 0. : false; }
static double bin(char o, double a, double b) { return o == '+' ? a + b : o == '-' ? a - b : o == '*' ? a * b : a / b; }
HARNESS h_f_unary() {
  unsigned k = sym_choice("fn", 16); double x = sym_fin("x"); FP p(std::string(UN[k]) + "(q)", {{"q", x}}); double r = 0; bool th = false, cls = false;
  try { r = p(); } catch (math_logic_error &) { th = true; cls = true; } catch (gemfony_exception &) { th = true; }
  VASSERT(th == unBad(k, x) && (!th || cls), "arguments outside of the mathematical domain, and only these, raise a mathematical error");
  if (!th) { VASSERT(same(r, un(k, x)), "the function of that name is evaluated"); vs_reach("value"); } else vs_reach("error");
}
HARNESS h_f_binary() {
  static const char *F[] = {"q+w", "q-w", "q*w", "q/w", "min(q,w)", "max(q,w)", "pow(q,w)", "hypot(q,w)"}; unsigned k = sym_choice("op", 8);
  double a = sym_fin("a"), b = sym_fin("b"), r = 0; FP p(F[k], {{"q", a}, {"w", b}}); bool th = false; try { r = p(); } catch (division_by_0 &) { th = true; }
  VASSERT(th == (k == 3 && b == 0.), "division by zero, and only that, is reported"); if (th) { vs_reach("div0"); return; }
  double e = k < 4 ? bin("+-*/"[k], a, b) : k == 4 ? (a < b ? a : b) : k == 5 ? (a > b ? a : b) : k == 6 ? std::pow(a, b) : hypot(a, b);
  VASSERT(same(r, e), "the operation is applied to the operands in order"); vs_reach("value");
}
// two operators: precedence, associativity, parentheses, signs, blanks
HARNESS h_f_prec() {
  char o1 = "+-*/"[sym_choice("o1", 4)], o2 = "+-*/"[sym_choice("o2", 4)]; unsigned form = sym_choice("form", 6);
  double a = sym_fin("a"), b = sym_fin("b"), c = sym_fin("c"); VASSUME(a != 0. && b != 0. && c != 0.);
  std::string A = "q", B = "w", C = "r", O1(1, o1), O2(1, o2), f; double e, in; bool hi2 = o2 == '*' || o2 == '/', hi1 = o1 == '*' || o1 == '/', zero = false;
  auto ev = [&](double x, double y, double z) { if (hi2 && !hi1) { in = bin(o2, y, z); zero = o1 == '/' && in == 0.; return bin(o1, x, in); } in = bin(o1, x, y); return bin(o2, in, z); };
  switch (form) {
    case 0: f = A + O1 + B + O2 + C; e = ev(a, b, c); break;
    case 1: f = "(" + A + O1 + B + ")" + O2 + C; e = bin(o2, bin(o1, a, b), c); break;
    case 2: f = A + O1 + "(" + B + O2 + C + ")"; in = bin(o2, b, c); zero = o1 == '/' && in == 0.; e = bin(o1, a, in); break;
    case 3: f = "-" + A + O1 + "-" + B + O2 + "+" + C; e = ev(-a, -b, c); break;
    case 4: f = " " + A + " " + O1 + "  ( " + B + " )" + O2 + " " + C + "\t"; e = ev(a, b, c); break;
    default: f = "-(" + A + O1 + B + O2 + C + ")"; e = -ev(a, b, c); break;
  }
  FP p(f, {{"q", a}, {"w", b}, {"r", c}}); double r = 0; bool th = false; try { r = p(); } catch (division_by_0 &) { th = true; }
  VASSERT(th == zero, "division by zero is reported, wherever it occurs"); if (!th) { VASSERT(same(r, e), "multiplication binds stronger than addition, equal operators group to the left, parentheses first"); VASSERT(same(p(), e), "evaluating again gives the same result"); vs_reach("value"); }
}
// nesting of functions, built-in constants, numbers
HARNESS h_f_nest() {
  double a = sym_fin("a"), b = sym_fin("b"); unsigned k = sym_choice("form", 8); std::string f; double e = 0;
  const double pi = boost::math::constants::pi<double>(), eu = boost::math::constants::e<double>();
  switch (k) {
    case 0: f = "sin(cos(q)+w)"; e = std::sin(std::cos(a) + b); break;
    case 1: f = "max(q,min(w,2.5))"; { double m = b < 2.5 ? b : 2.5; e = a > m ? a : m; } break;
    case 2: f = "pow(q,w)-pow(w,q)"; e = std::pow(a, b) - std::pow(b, a); break;
    case 3: f = "pi*q + e*w"; e = pi * a + eu * b; break;
    case 4: f = "(sin(3.)*fabs(q) - (2*pi))/4"; e = (std::sin(3.) * std::fabs(a) - (2. * pi)) / 4.; break;
    case 5: f = "1.5e2*q-0.25-w-.5"; e = 1.5e2 * a - 0.25 - b - .5; break;
    case 6: f = "hypot(-q,floor(w))"; e = hypot(-a, std::floor(b)); break;
    case 7: f = "tanh(exp(q))*sinh(-w)+cosh(1)"; e = std::tanh(std::exp(a)) * std::sinh(-b) + std::cosh(1.); break;
  }
  FP p(f, {{"q", a}, {"w", b}}); VASSERT(same(p(), e), "nested formulas evaluate from the inside to the outside"); vs_reach("value");
}
HARNESS h_f_float() { float a = sym_finf("a"), b = sym_finf("b"); FF p("(q+w)*2-q", {{"q", a}, {"w", b}}); float r = p(), e = (a + b) * 2.f - a; VASSERT(r == e || (r != r && e != e), "single precision formulas"); vs_reach("value"); }
// malformed input is rejected
HARNESS h_f_bad() {
  static const char *F[] = {"", "1+", "(1", "1)", "foo(1)", "q+", "1 2", "min(1)", "min(1,2", "sin 1", "1**2", "{{x}}", "*1", "pow(1,)", "1..2", "z", "sin()"};
  unsigned k = sym_choice("k", sizeof F / sizeof *F); FP p(F[k], {{"q", sym_fin("q")}}); VASSERT(THROWS(p()), "a malformed formula is rejected with an exception"); VASSERT(THROWS(p()), "also when evaluated again"); vs_reach("rejected");
}
// place holders
HARNESS h_f_ph() {
  static const double V[] = {0., 1., -1., 0.5, -2.25, 1e-7, -3e-10, 123456789.125, 1e300, 3.}; unsigned i = sym_choice("i", 10), j = sym_choice("j", 10), k = sym_choice("k", 3); double a = V[i], b = V[j], q = sym_fin("q");
  auto near = [](double x, double y) { return x == y || std::fabs(x - y) <= 1e-12 * std::fabs(y); };
  FP p("{{x}}*2 - {{y[1]}}", {{"q", q}}); FP::parameter_map m{{"x", {a}}, {"y", {7., b}}}; double r = p(m); VASSERT(near(r, a * 2 - b), "place holders are replaced by the values supplied");
  FP::parameter_map m2{{"x", {b}}, {"y", {7., a}}}; VASSERT(near(p(m2), b * 2 - a), "another evaluation uses the new values");
  if (k == 0) { VASSERT(THROWS(p()), "missing values are rejected"); } else if (k == 1) { FP::parameter_map m3{{"x", {a}}, {"y", {7.}}}; VASSERT(THROWS(p(m3)), "too short vectors are rejected"); } else { FP::parameter_map m4{{"x", {}}, {"y", {7., 8.}}}; VASSERT(THROWS(p(m4)), "empty vectors are rejected"); }
  VASSERT(near(p(m), r), "a rejected evaluation leaves no trace"); vs_reach("value");
}
