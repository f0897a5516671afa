// Range checks, bounds and small vector helpers
#include "vs.hpp"
#include <vector>
#include <tuple>
#include <limits>
#include <cfloat>
#include "common/GCommonMathHelperFunctionsT.hpp"
using namespace Gem::Common;
#define THROWS(expr) ([&] { try { (void)(expr); return false; } catch (gemfony_exception &) { return true; } }())
template <class T> static T symT(const char *n);
template <> double symT<double>(const char *n) { return sym_fin(n); }
template <> float symT<float>(const char *n) { return sym_finf(n); }
template <> int symT<int>(const char *n) { return sym_i32(n); }
template <> std::size_t symT<std::size_t>(const char *n) { return sym_u64(n); }
template <> unsigned char symT<unsigned char>(const char *n) { return sym_u8(n); }
// enforceRangeConstraint
template <class T> static void enforce() {
  T v = symT<T>("v"), lo = symT<T>("lo"), hi = symT<T>("hi"), o = v; bool verbose = sym_bool("verbose");
  bool th = THROWS(enforceRangeConstraint<T>(v, lo, hi, "x", verbose));
  if (lo > hi) { VASSERT(th, "an inverted range is rejected"); vs_reach("rejected"); return; }
  VASSERT(!th, "a valid range is accepted");
  VASSERT(v >= lo && v <= hi, "the result lies in the range");
  VASSERT(o < lo ? v == lo : o > hi ? v == hi : v == o, "values inside the range are kept, others are moved to the violated boundary");
  T w = o; VASSERT(enforceRangeConstraint<T>(w, lo, hi) == v, "the adapted value is returned"); vs_reach("enforced");
}
HARNESS h_enforce() { enforce<double>(); }
HARNESS h_enforce_f() { enforce<float>(); }
template <class T> static void compl_() {
  T v = symT<T>("v"), lo = symT<T>("lo"), hi = symT<T>("hi"); bool r = false;
  bool th = THROWS(r = checkRangeCompliance<T>(v, lo, hi, "x"));
  VASSERT(th == (lo > hi), "inverted ranges, and only these, are rejected");
  if (!th) { VASSERT(r == (v >= lo && v <= hi), "compliance means lower <= value <= upper"); vs_reach("ok"); }
}
HARNESS h_compl() { compl_<double>(); }
HARNESS h_compl_i() { compl_<int>(); }
HARNESS h_compl_u() { compl_<std::size_t>(); }
template <class T> static void cvr(T lo, T hi) {
  T v = symT<T>("v"), r = v; bool lop = sym_bool("lopen"), uop = sym_bool("uopen"), warn = sym_bool("warn");
  bool in = (lop ? v > lo : v >= lo) && (uop ? v < hi : v <= hi);
  bool th; if constexpr (std::is_floating_point<T>::value) th = THROWS(r = checkValueRange<T>(v, lo, hi, lop, uop, warn, "x")); else th = THROWS(r = checkValueRange<T>(v, lo, hi, lop, uop, warn));
  VASSERT(th == (!in && !warn), "a value outside of the range (respecting open and closed ends) is rejected, unless only a warning was asked for");
  if (!th) { VASSERT(r == v, "the value is returned unchanged"); vs_reach("accepted"); } else vs_reach("rejected");
}
HARNESS h_cvr() { static const double L[] = {0., -1., 1e-300, 0.5, 0., -DBL_MAX}, H[] = {1., 1., 1., 0.75, 1e100, 100.}; unsigned k = sym_choice("range", 6); cvr<double>(L[k], H[k]); }
HARNESS h_cvr_f() { static const float L[] = {0.f, -3.f}, H[] = {1.f, 100.f}; unsigned k = sym_choice("range", 2); cvr<float>(L[k], H[k]); }
HARNESS h_cvr_i() { int a = sym_i32("a"), b = sym_i32("b"); VASSUME(a <= b); cvr<int>(a, b); }
HARNESS h_cvr_u() { std::size_t a = sym_u64("a"), b = sym_u64("b"); VASSUME(a <= b); cvr<std::size_t>(a, b); }
HARNESS h_worst() {
  double v = sym_fin("v"); float f = sym_finf("f");
  VASSERT(getWorstCase<double>(sortOrder::HIGHERISBETTER) <= v && getBestCase<double>(sortOrder::HIGHERISBETTER) >= v, "no value is worse than the worst / better than the best case when maximizing");
  VASSERT(getWorstCase<double>(sortOrder::LOWERISBETTER) >= v && getBestCase<double>(sortOrder::LOWERISBETTER) <= v, "no value is worse than the worst / better than the best case when minimizing");
  VASSERT(getWorstCase<float>(true) <= f && getBestCase<float>(true) >= f && getWorstCase<float>(false) >= f && getBestCase<float>(false) <= f, "same for maxMode");
  VASSERT(getWorstCase<double>(sortOrder::HIGHERISBETTER) == -DBL_MAX && getWorstCase<double>(sortOrder::LOWERISBETTER) == DBL_MAX, "the worst case is a finite number"); vs_reach("worst");
}
// getMinMax, one to four components
HARNESS h_minmax1() {
  unsigned n = sym_choice("n", 5); std::vector<double> v; for (unsigned i = 0; i < n; i++) v.push_back(sym_fin("v"));
  double mn = 0, mx = 0; bool th = THROWS(std::tie(mn, mx) = getMinMax(v));
  VASSERT(th == (n < 2), "at least two values are required"); if (th) return;
  bool emn = false, emx = false; for (double x : v) { VASSERT(mn <= x && x <= mx, "minimum and maximum enclose all values"); emn |= x == mn; emx |= x == mx; }
  VASSERT(emn && emx, "minimum and maximum are taken from the data"); vs_reach("minmax");
}
template <std::size_t I, class Tup, class V> static void mm(const Tup &r, const V &v) {
  auto mn = std::get<2 * I>(r); auto mx = std::get<2 * I + 1>(r); bool emn = false, emx = false;
  for (auto &t : v) { auto x = std::get<I>(t); VASSERT(mn <= x && x <= mx, "minimum and maximum enclose all values"); emn |= x == mn; emx |= x == mx; }
  VASSERT(emn && emx, "minimum and maximum are taken from the data");
}
HARNESS h_minmax2() { std::vector<std::tuple<double, double>> v; VASSERT(THROWS(getMinMax(v)), "empty data is rejected"); for (int i = 0; i < 3; i++) v.emplace_back(sym_fin("x"), sym_fin("y")); auto r = getMinMax(v); mm<0>(r, v); mm<1>(r, v); vs_reach("minmax"); }
HARNESS h_minmax3() { std::vector<std::tuple<int, int, int>> v; VASSERT(THROWS(getMinMax(v)), "empty data is rejected"); for (int i = 0; i < 2; i++) v.emplace_back(sym_i32("x"), sym_i32("y"), sym_i32("z")); auto r = getMinMax(v); mm<0>(r, v); mm<1>(r, v); mm<2>(r, v); vs_reach("minmax"); }
HARNESS h_minmax4() { std::vector<std::tuple<int, int, int, int>> v; VASSERT(THROWS(getMinMax(v)), "empty data is rejected"); for (int i = 0; i < 2; i++) v.emplace_back(sym_i32("x"), sym_i32("y"), sym_i32("z"), sym_i32("w")); auto r = getMinMax(v); mm<0>(r, v); mm<1>(r, v); mm<2>(r, v); mm<3>(r, v); vs_reach("minmax"); }
// element-wise operations (exact on the integers)
HARNESS h_vec() {
  unsigned n = sym_choice("n", 4), m = sym_choice("m", 4), op = sym_choice("op", 4);
  std::vector<int64_t> a, b; for (unsigned i = 0; i < n; i++) a.push_back(sym_i64("a")); for (unsigned i = 0; i < m; i++) b.push_back(sym_i64("b"));
  std::vector<int64_t> o = a; int64_t c = sym_i64("c"); bool th = false;
  for (auto x : a) VASSUME(x > -1000000000 && x < 1000000000); for (auto x : b) VASSUME(x > -1000000000 && x < 1000000000); VASSUME(c > -1000000000 && c < 1000000000);
  if (op == 0) th = THROWS(addVec(a, b)); else if (op == 1) th = THROWS(subtractVec(a, b)); else if (op == 2) multVecConst(a, c); else assignVecConst(a, c);
  if (op < 2) VASSERT(th == (n != m), "vectors of different sizes are rejected");
  if (th) return;
  VASSERT(a.size() == n, "size is kept");
  for (unsigned i = 0; i < n; i++) VASSERT(a[i] == (op == 0 ? o[i] + b[i] : op == 1 ? o[i] - b[i] : op == 2 ? o[i] * c : c), "the operation is applied to every element"); vs_reach("vec");
}
// mean and standard deviation; inputs are small integers, so the sums are exact in any order
HARNESS h_mean() {
  unsigned n = 1 + sym_choice("n", 4); std::vector<double> v; int64_t s = 0; double mn = 40000, mx = -40000;
  for (unsigned i = 0; i < n; i++) { int64_t x = sym_small("v", 16); s += x; v.push_back((double)x); if (x < mn) mn = x; if (x > mx) mx = x; }
  double m = GMean(v); VASSERT(m >= mn && m <= mx, "the mean lies between the smallest and the largest value");
  VASSERT(m == (double)s / (double)n, "the mean is the sum divided by the number of values"); vs_reach("mean");
}
HARNESS h_sigma() {
  double m, s;
  int a = (int)sym_small("a", 3), d = (int)sym_choice("d", 3); a = (int)vs_concretize((uint64_t)(int64_t)a); std::vector<double> w{(double)(a - d), (double)a, (double)(a + d)};
  std::tie(m, s) = GStandardDeviation(w); VASSERT(m == a && s == d, "standard deviation of a-d, a, a+d is d (n-1 in the denominator)");
  std::vector<std::vector<double>> t{{(double)(a - d), 1.}, {(double)a, 1.}, {(double)(a + d), 1.}}; std::vector<std::tuple<double, double>> r(5);
  GVecStandardDeviation(t, r); VASSERT(r.size() == 2, "one entry per component"); VASSERT(std::get<0>(r[0]) == a && std::get<1>(r[0]) == d && std::get<0>(r[1]) == 1. && std::get<1>(r[1]) == 0., "component-wise mean and standard deviation");
  std::vector<double> one{sym_intd("x", 16)}; std::tie(m, s) = GStandardDeviation(one); VASSERT(m == one[0] && s == 0., "a single value has no spread"); vs_reach("sigma");
}
HARNESS h_close() {
  double v = sym_intd("v", 24), t = sym_intd("t", 24), m = (double)(sym_small("m", 24) & 0x7fffff);
  bool r = isClose(v, t, m); VASSERT(r == (v - t <= m && t - v <= m), "isClose means |value - target| <= margin"); vs_reach("close");
}
// shared helper templates
#include "common/GCommonHelperFunctionsT.hpp"
HARNESS h_erase() {
  unsigned n = sym_choice("n", 5); std::vector<int> v, o; std::vector<bool> f;
  for (unsigned i = 0; i < n; i++) { v.push_back(sym_i32("v")); }
  o = v; int thr = sym_i32("thr");
  std::size_t k = Gem::Common::erase_if(v, [&](int x) { return x < thr; });
  unsigned j = 0; for (int x : o) if (!(x < thr)) { VASSERT(j < v.size() && v[j] == x, "items not fulfilling the predicate are kept in order"); j++; }
  VASSERT(j == v.size() && k == n - j, "all items fulfilling the predicate are removed and counted"); vs_reach("erased");
}
HARNESS h_erase_flags() {
  unsigned n = 1 + sym_choice("n", 4), b = sym_choice("start", n), e = sym_choice("end", n + 1); if (e <= b) return; std::vector<int> v, o; std::vector<bool> f; bool fl = sym_bool("value");
  for (unsigned i = 0; i < n; i++) v.push_back(sym_i32("v")); for (unsigned i = 0; i < n; i++) f.push_back(sym_bool("flag")); o = v;
  Gem::Common::erase_according_to_flags(v, f, fl, b, e);
  unsigned j = 0; for (unsigned i = 0; i < n; i++) if (i < b || i >= e || f[i] != fl) { VASSERT(j < v.size() && v[j] == o[i], "items that are not flagged, or outside of the range, are kept in order"); j++; }
  VASSERT(j == v.size(), "flagged items are removed"); vs_reach("erased");
}
// sums over points, the regression line, ratios with errors (small integers, so all sums are exact)
using pt = std::tuple<double, double>;
HARNESS h_sums() {
  unsigned n = sym_choice("n", 4); std::vector<pt> p; int64_t sx = 0, sy = 0, qx = 0, qy = 0, xy = 0, sd = 0; int64_t a = sym_small("a", 4), b = sym_small("b", 4);
  for (unsigned i = 0; i < n; i++) { int64_t x = sym_small("x", 5), y = sym_small("y", 5); p.emplace_back((double)x, (double)y); sx += x; sy += y; qx += x * x; qy += y * y; xy += x * y; int64_t d = y - a - b * x; sd += d * d; }
  auto s = sumTupleVec(p); VASSERT(std::get<0>(s) == (double)sx && std::get<1>(s) == (double)sy, "the sums of both components");
  double pr = productSumTupleVec(p); VASSERT(pr == (double)xy, "the sum of the products"); vs_reach("sums");
}
HARNESS h_regress() {
  unsigned n = 3 + sym_choice("more", 2); int k[4]; std::vector<pt> p; int a = (int)sym_choice("a", 5) - 2, b = (int)sym_choice("b", 5) - 2; bool same = true;
  for (unsigned i = 0; i < n; i++) { k[i] = (int)sym_choice("x", 3) - 1; same = same && k[i] == k[0]; p.emplace_back((double)k[i], (double)(a + b * k[i])); }
  if (same) return;
  auto [ra, ea, rb, eb] = getRegressionParameters(p);
  VASSERT(ra == a && rb == b && ea == 0. && eb == 0., "points on a line yield its offset and slope without errors");
  std::vector<pt> none; auto [na, nea, nb, neb] = getRegressionParameters(none); VASSERT(na == 0. && nea == 0. && nb == 0. && neb == 0., "no points: all zero"); vs_reach("regress");
}
HARNESS h_regress_err() { // y = a + b x with the residuals (r, -2r, r) at x = -1, 0, 1 shifted by c: variance 6 r^2 / (n - 2)
  int a = (int)sym_choice("a", 5) - 2, b = (int)sym_choice("b", 5) - 2, r = (int)sym_choice("r", 3); std::vector<pt> p{pt(-1., a - b + r), pt(0., a - 2 * r), pt(1., a + b + r)};
  auto [ra, ea, rb, eb] = getRegressionParameters(p);
  VASSERT(ra == a && rb == b, "the fit is not affected by residuals orthogonal to it"); double ea2 = ea * ea - 2. * r * r, eb2 = eb * eb - 3. * r * r;
  VASSERT(ea2 < 1e-6 && ea2 > -1e-6 && eb2 < 1e-6 && eb2 > -1e-6, "the errors of offset and slope are sqrt(s^2/n) and sqrt(s^2/sum x^2)");
  double d = squareDeviation(p, (double)a, (double)b); VASSERT(d == 6. * r * r, "the squared deviation from the line"); auto q = squareSumTupleVec(p); VASSERT(std::get<0>(q) == 2. && std::get<1>(q) == (double)((a - b + r) * (a - b + r) + (a - 2 * r) * (a - 2 * r) + (a + b + r) * (a + b + r)), "the sums of the squares"); vs_reach("errors");
}
using q4 = std::tuple<double, double, double, double>;
HARNESS h_ratio() {
  unsigned n = sym_choice("n", 3), m = sym_choice("m", 3); std::vector<q4> s, p, r; bool bad = n != m; double st[2], pt_[2]; int sv[2], pv[2], se[2];
  for (unsigned i = 0; i < n; i++) { st[i] = sym_intd("s_time", 8); sv[i] = (int)sym_choice("s", 3) - 1; se[i] = (int)sym_choice("s_err", 2); s.emplace_back(st[i], 7., (double)sv[i], (double)se[i]); }
  for (unsigned i = 0; i < m; i++) { pt_[i] = sym_intd("p_time", 8); pv[i] = (int)sym_choice("p", 3) - 1; p.emplace_back(pt_[i], 9., (double)(2 * pv[i]), 0.); }
  if (!bad) for (unsigned i = 0; i < n; i++) bad = bad || pv[i] == 0 || st[i] != pt_[i];
  bool th = THROWS(r = getRatioErrors(s, p)); VASSERT(th == bad, "different sizes, different times and divisions by zero are refused, and only these"); if (th) { vs_reach("refused"); return; }
  VASSERT(r.size() == n, "one ratio per pair"); for (unsigned i = 0; i < n; i++) VASSERT(std::get<0>(r[i]) == st[i] && std::get<1>(r[i]) == 0. && std::get<2>(r[i]) == (double)sv[i] / (2. * pv[i]) && std::get<3>(r[i]) == se[i] / 2., "the time, the ratio and its error");
  vs_reach("ratio");
}
HARNESS h_wrap() {
  double x = sym_fin("x"), y = sym_fin("y"); float fx = sym_finf("fx"), fy = sym_finf("fy"); int i = sym_i32("i"); long l = sym_i64("l"); VASSUME(i != std::numeric_limits<int>::min() && l != std::numeric_limits<long>::min());
  VASSERT(gmax(x, y) == (x > y ? x : y) && gmin(x, y) == (x < y ? x : y) && gmax(fx, fy) == (fx > fy ? fx : fy) && gmin(fx, fy) == (fx < fy ? fx : fy), "gmin and gmax are minimum and maximum");
  VASSERT(gfabs(x) == (x < 0. ? -x : x) && gfabs(fx) == (fx < 0.f ? -fx : fx) && giabs(i) == (i < 0 ? -i : i) && giabs(l) == (l < 0 ? -l : l), "absolute values");
  VASSERT((x > 0. ? gsign(x) == 1. : x < 0. ? gsign(x) == -1. : true) && (fx > 0.f ? gsign(fx) == 1.f : fx < 0.f ? gsign(fx) == -1.f : true), "gsign is the sign");
  vs_reach("wrap");
}
HARNESS h_mix() {
  double b = sym_intd("bottom", 10), t = sym_intd("top", 10); unsigned c = sym_choice("alpha", 5); float r = gmix((float)b, (float)t, c / 4.f);
  double d = gmix(b, t, c / 4.); VASSERT(4. * d == b * (4. - c) + t * c && (double)r == d, "gmix interpolates linearly between both values: 0 yields the first, 1 the second"); 
  double v = sym_fin("value"); bool neg = sym_bool("negative"), inf = sym_bool("infinite"); double bar = 1. + sym_choice("barrier", 3), i = neg ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity();
  if (inf) VASSERT(gsigmoid(i, bar, 1.) == (neg ? -bar : bar) && gsigmoid((float)i, (float)bar, 1.f) == (float)(neg ? -bar : bar), "the sigmoid of infinity is the barrier");
  vs_reach("mix");
}
