// Parameters with boundaries: transfer function, boundary handling
#include "vs.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include <cmath>
using namespace Gem::Geneva;
#define THROWS(expr) ([&] { try { (void)(expr); return false; } catch (gemfony_exception &) { return true; } }())
static const double LO[] = {0., -1., 0.1, 1e-10, -5., -0.3, 100.}, UP[] = {1., 1., 0.3, 1., 10., 0.7, 101.};
static double prior(double x) { return std::nextafter(x, -INFINITY); }
// an arbitrary value; the upper end of the range is treated as a case of its own
static double anyVal(const char *n, double u1, double u2) { unsigned c = sym_choice(n, 3); if (c == 0) return u1; if (c == 1) return u2; double v = sym_fin("value"); VASSUME(((v == 0.) | (std::fabs(v) >= 0x1p-1022)) & (v != u1) & (v != u2)); return v; }
static bool normalOr0(double v) { return (v == 0.) | ((std::fabs(v) >= 0x1p-1022) & (v - v == 0.)); }
// whatever the internal value is, the external one lies inside of the boundaries and does not change when asked for again
static void fp_range(unsigned first, unsigned n) {
  unsigned k = first + sym_choice("range", n); double l = LO[k], u = UP[k], v = sym_fin("internal"); VASSUME(normalOr0(v));
  GConstrainedDoubleObject o(l, l, u); o.GParameterT<double>::setValue(v); bool in = false; if (v >= l && v < prior(u)) in = true;
  try { double r = o.value(); VASSERT(r >= l && r < u, "the external value lies inside of [lower, upper["); if (in) VASSERT(r == v, "values inside of the boundaries are not changed"); vs_reach("mapped"); } catch (std::exception &) { vs_reach("refused"); }
}
HARNESS h_fp_range() { fp_range(1, 2); }
HARNESS h_fp_range_t() { fp_range(0, 7); }
// the mapping folds the axis like a strip of paper: mirrored at every boundary
static const double DL[] = {0., -1., 2., -12.}, DU[] = {1., 1., 6., -4.};
static double fold(double v, double l, double u) { double w = u - l, q = std::floor((v - l) / (2 * w)), t = v - l - q * (2 * w); return l + (t <= w ? t : 2 * w - t); }
HARNESS h_fp_fold() {
  unsigned k = sym_choice("range", 4); double l = DL[k], u = DU[k], v = sym_intd("internal*8", 12) * 0.125;
  GConstrainedDoubleObject o(l, l, std::nextafter(u, INFINITY)); o.GParameterT<double>::setValue(v);
  VASSERT(o.value() == fold(v, l, u), "values outside are mirrored at the boundaries"); vs_reach("folded");
}
static void fpc_range(unsigned first, unsigned n, double lim) {
  unsigned k = first + sym_choice("range", n); double l = LO[k], u = UP[k], v = sym_fin("internal"); VASSUME(normalOr0(v));
  VASSUME(std::fabs(v) <= lim); GConstrainedDoubleCollection o(2, l, l, u); o[1] = v; double r; bool in = false; if (v >= l && v < prior(u)) in = true;
  try { r = o.value(1); } catch (std::exception &) { vs_reach("refused"); return; }
  VASSERT(r >= l && r <= u, "the external value lies inside of the boundaries"); VASSERT(o.value(0) == l, "other positions are not affected");
  if (in) VASSERT(r == v, "values inside of the boundaries are not changed");
  vs_reach("mapped");
}
HARNESS h_fpc_range() { fpc_range(1, 2, 1e300); }
HARNESS h_fpc_range_t() { fpc_range(0, 7, 1.7e308); }
HARNESS h_fpc_fold() {
  unsigned k = sym_choice("range", 4); double l = DL[k], u = DU[k], v = sym_intd("internal*8", 12) * 0.125;
  GConstrainedDoubleCollection o(1, l, l, std::nextafter(u, INFINITY)); o[0] = v;
  VASSERT(o.value(0) == fold(v, l, u), "values outside are mirrored at the boundaries"); vs_reach("folded");
}
// setting values and boundaries
HARNESS h_fp_set() {
  unsigned k = sym_choice("range", 7); double l = LO[k], u = UP[k], v = anyVal("case", u, prior(u));
  bool in = v >= l && v <= u; double ev = v == u ? prior(u) : v;
  bool how = sym_bool("how"); GConstrainedDoubleObject *o = nullptr;
  bool th = how ? THROWS(o = new GConstrainedDoubleObject(v, l, u)) : THROWS((o = new GConstrainedDoubleObject())->setValue(v, l, u));
  VASSERT(th == !in, "values outside of the boundaries, and only these, are rejected"); if (th) { vs_reach("rejected"); return; }
  VASSERT(o->value() == ev && o->getLowerBoundary() == l && o->getUpperBoundary() == prior(u), "value and boundaries are set; the upper boundary is open");
  double w = anyVal("case2", u, prior(u)); bool in2 = w >= l && w <= u, op = sym_bool("op"); th = op ? THROWS(*o = w) : THROWS(o->setValue(w)); VASSERT(th == !in2, "assigning a value outside of the boundaries is rejected");
  VASSERT(o->value() == (in2 ? (w == u ? prior(u) : w) : ev), "the assigned value, or the old one after a rejected attempt"); vs_reach("set");
}
HARNESS h_fp_bound() {
  double i = sym_intd("internal*8", 7) * 0.125; static const double BL[] = {0., -1., 0.25, 0.5, 1., 2., 0.5}, BU[] = {1., 2., 0.75, 0.5, 0.5, 3., 4.}; unsigned k = sym_choice("new boundaries", 7); double l = BL[k], u = BU[k]; GConstrainedDoubleObject o(0., 0., std::nextafter(1., 2.)); o.GParameterT<double>::setValue(i);
  double v = fold(i, 0., 1.); bool ok = l < u && v >= l && v < u;
  bool th = THROWS(o.setBoundaries(l, u)); VASSERT(th == !ok, "new boundaries are accepted exactly if they contain the external value"); VASSERT(o.value() == v, "changing boundaries does not change the external value");
  VASSERT(o.getLowerBoundary() == (ok ? l : 0.) && o.getUpperBoundary() == (ok ? prior(u) : 1.), "the boundaries change only if they are accepted"); vs_reach(ok ? "accepted" : "rejected");
}
HARNESS h_fpc_bound() {
  double i = sym_intd("internal*8", 7) * 0.125; static const double BL[] = {0., -1., 0.25, 0.5, 1., 2., 0.5}, BU[] = {1., 2., 0.75, 0.5, 0.5, 3., 4.}; unsigned k = sym_choice("new boundaries", 7); double l = BL[k], u = BU[k]; GConstrainedDoubleCollection o(1, 0., 0., std::nextafter(1., 2.)); o[0] = i;
  double v = fold(i, 0., 1.); bool ok = l <= u && v >= l && v <= u;
  bool th = THROWS(o.setBoundaries(l, u)); VASSERT(th == !ok, "new boundaries are accepted exactly if they contain the external value"); if (l < u) VASSERT(o.value(0) == v, "changing boundaries does not change the external value"); vs_reach(ok ? "accepted" : "rejected");
}
HARNESS h_fpc_set() {
  unsigned k = sym_choice("range", 7); double l = LO[k], u = prior(UP[k]), v = anyVal("case", u, UP[k]); GConstrainedDoubleCollection o(2, l, l, UP[k]);
  bool in = v >= l && v <= u; bool th = THROWS(o.setValue(1, v)); VASSERT(th == !in, "assigning a value outside of the boundaries is rejected"); VASSERT(o.value(1) == (in ? v : l) && o.value(0) == l, "only the selected position changes"); vs_reach(in ? "set" : "rejected");
}
// integers: closed range, mirrored with every value occurring once per fold
HARNESS h_int_range() {
  static const int32_t IL[] = {-10, 0, -214748364, -134217728, 214748000, 3, -2}, IU[] = {10, 1, 214748364, -134215775, 214748364, 9, 0}; unsigned k = sym_choice("range", 7); int32_t l = IL[k], u = IU[k], v = sym_i32("internal");
  GConstrainedInt32Object o; o.setValue(l, l, u); o.GParameterT<int32_t>::setValue(v); int32_t r = o.value(); VASSERT(r >= l && r <= u, "the external value lies inside of [lower, upper]"); VASSERT(!(v >= l && v <= u) || r == v, "values inside of the boundaries are not changed"); vs_reach("mapped");
}
HARNESS h_int_fold() {
  static const int32_t FL[] = {0, -3, 5, -20}, FW[] = {2, 5, 8, 3}; unsigned k = sym_choice("range", 4); int32_t l = FL[k], w = FW[k], u = l + w - 1, v = (int32_t)sym_small("internal", 9);
  GConstrainedInt32Object o; o.setValue(l, l, u); o.GParameterT<int32_t>::setValue(v); int32_t d = v - l, q = d >= 0 ? d / (2 * w) : -((-d + 2 * w - 1) / (2 * w)), t = d - q * 2 * w, e = l + (t < w ? t : 2 * w - 1 - t);
  VASSERT(o.value() == e, "values outside are mirrored at the boundaries"); vs_reach("folded");
}
HARNESS h_int_set() {
  int32_t l = sym_i32("lower"), u = sym_i32("upper"), v = sym_i32("value"), l2 = sym_i32("lower2"), u2 = sym_i32("upper2"); const int32_t M = 214748364; bool ok = l <= u && l >= -M && u <= M && v >= l && v <= u;
  GConstrainedInt32Object o; bool th = THROWS(o.setValue(v, l, u)); VASSERT(th == !ok, "value and boundaries are checked"); if (th) { vs_reach("rejected"); return; }
  VASSERT(o.value() == v && o.getLowerBoundary() == l && o.getUpperBoundary() == u, "value and boundaries are set");
  bool ok2 = l2 <= u2 && l2 >= -M && u2 <= M && v >= l2 && v <= u2; th = THROWS(o.setBoundaries(l2, u2)); VASSERT(th == !ok2, "new boundaries have to contain the value"); VASSERT(o.value() == v && o.getLowerBoundary() == (ok2 ? l2 : l) && o.getUpperBoundary() == (ok2 ? u2 : u), "boundaries change only if they are accepted"); vs_reach("set");
}
