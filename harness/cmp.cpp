// Comparison framework: equality, inequality and similarity of values, containers, pointers and objects; tokens
#include "vs.hpp"
#include <list>
#include <set>
#include <chrono>
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
using namespace Gem::Common; using namespace Gem::Geneva; using E = expectation; using std::string; template <class T> using sp = std::shared_ptr<T>;
static const double LIM = CE_DEF_SIMILARITY_DIFFERENCE;
template <class T> static bool met(const T &x, const T &y, E e, double lim = LIM) { try { compare(x, y, string("x"), string("y"), e, lim); return true; } catch (g_expectation_violation &) { return false; } }
template <class T> static bool token(const T &x, const T &y, E e) { GToken t("harness", e); bool pre = t.expectationMet(); VASSERT(pre == (e != E::INEQUALITY), "no checks so far"); compare_t(IDENTITY(x, y), t); bool r = true; try { t.evaluate(); } catch (g_expectation_violation &) { r = false; } VASSERT(r == t.expectationMet() && r == (bool)t && t.getTestCounter() == 1 && t.getSuccessCounter() == (r ? 1 : 0), "evaluation of the token"); return r; }
template <class T> static void check(const T &x, const T &y, bool same, bool similar, double lim = LIM) {
  unsigned k = sym_choice("expectation", 3); E e = k == 0 ? E::EQUALITY : k == 1 ? E::INEQUALITY : E::FP_SIMILARITY; bool want = k == 0 ? same : k == 1 ? !same : similar; bool got = lim == LIM && sym_choice("token", 2) ? token(x, y, e) : met(x, y, e, lim); VASSERT(got == want, k == 0 ? "equality" : k == 1 ? "inequality" : "similarity"); vs_reach(want ? "met" : "not met");
}
static bool near(double a, double b, double lim) { double d = a - b; return (a == b) | ((d < lim) & (-d < lim)); }
HARNESS h_double() { double x = sym_f64("x"), y = sym_f64("y"), lim = sym_choice("limit", 2) ? LIM : 0.25; if (lim != LIM) { vs_assume((x - x == 0.) & (y - y == 0.)); } check(x, y, x == y, near(x, y, lim), lim); }
HARNESS h_float() { float x = sym_f32("x"), y = sym_f32("y"), d = x - y; float lim = (float)LIM; check(x, y, x == y, (x == y) | ((d < lim) & (-d < lim))); }
HARNESS h_int() { int x = (int)vs_sym("x", 32), y = (int)vs_sym("y", 32); check(x, y, x == y, x == y); }
HARNESS h_bool() { bool x = sym_choice("x", 2), y = sym_choice("y", 2); check(x, y, x == y, x == y); }
HARNESS h_string() { static const char *t[5] = {"", "a", "b", "ab", "aa"}; unsigned i = sym_choice("x", 5), j = sym_choice("y", 5); check(string(t[i]), string(t[j]), i == j, i == j); }
HARNESS h_tribool() { using B = boost::logic::tribool; static const B t[3] = {B(true), B(false), B(boost::logic::indeterminate)}; unsigned i = sym_choice("x", 3), j = sym_choice("y", 3); check(t[i], t[j], i == j, i == j); }
HARNESS h_time() { using C = std::chrono::steady_clock; long i = (long)vs_sym("x", 32), j = (long)vs_sym("y", 32); if (sym_choice("kind", 2)) check(std::chrono::duration<long>(i), std::chrono::duration<long>(j), i == j, i == j); else check(C::time_point(C::duration(i)), C::time_point(C::duration(j)), i == j, i == j); }
template <class C> static void fpcont() { unsigned n = sym_choice("n", 3), m = sym_choice("m", 3); std::vector<double> a, b; for (unsigned i = 0; i < n; i++) a.push_back(sym_f64("a")); for (unsigned i = 0; i < m; i++) b.push_back(sym_f64("b")); bool s = n == m, z = n == m; if (n == m) for (unsigned i = 0; i < n; i++) { s = s & (a[i] == b[i]); z = z & near(a[i], b[i], LIM); } check(C(a.begin(), a.end()), C(b.begin(), b.end()), s, z); }
HARNESS h_vec_double() { fpcont<std::vector<double>>(); } HARNESS h_list_double() { fpcont<std::list<double>>(); }
HARNESS h_vec_int() { unsigned n = sym_choice("n", 3), m = sym_choice("m", 3); std::vector<int> a, b; for (unsigned i = 0; i < n; i++) a.push_back((int)vs_sym("a", 32)); for (unsigned i = 0; i < m; i++) b.push_back((int)vs_sym("b", 32)); bool s = n == m; if (n == m) for (unsigned i = 0; i < n; i++) s = s & (a[i] == b[i]); check(a, b, s, s); }
HARNESS h_vec_string() { std::vector<string> t[4] = {{}, {"a"}, {"a", "b"}, {"a", "c"}}; unsigned i = sym_choice("x", 4), j = sym_choice("y", 4); check(t[i], t[j], i == j, i == j); }
HARNESS h_set_int() { std::set<int> t[4] = {{}, {1}, {1, 2}, {1, 3}}; unsigned i = sym_choice("x", 4), j = sym_choice("y", 4); check(t[i], t[j], i == j, i == j); }
HARNESS h_set_double() { std::set<double> t[5] = {{}, {1.}, {1., 2.}, {1., 3.}, {1., 2. + 1e-12}}; unsigned i = sym_choice("x", 5), j = sym_choice("y", 5); bool c = (i == 2 && j == 4) || (i == 4 && j == 2); check(t[i], t[j], i == j, i == j || c); }
// objects: a double parameter with its value and boundaries
static sp<GDoubleObject> obj(double v, bool name = false) { auto p = std::make_shared<GDoubleObject>(v, 0., 1.); p->setParameterName(name ? "n" : "m"); return p; }
HARNESS h_object() { double x = sym_fin("x"), y = sym_fin("y"); bool n = sym_choice("name", 2); auto a = obj(x), b = obj(y, n); bool s = (x == y) & !n, z = near(x, y, LIM) & !n; if (sym_choice("operators", 2)) { VASSERT((*a == *b) == s && (*a != *b) == !s, "operators"); vs_reach("operators"); return; } check(*a, *b, s, z); }
HARNESS h_pointer() { double x = sym_fin("x"), y = sym_fin("y"); unsigned k = sym_choice("empty", 4); sp<GDoubleObject> a = k & 1 ? nullptr : obj(x), b = k & 2 ? nullptr : obj(y); bool s = k == 0 ? x == y : k == 3, z = k == 0 ? near(x, y, LIM) : k == 3; check(a, b, s, z); }
HARNESS h_pointers() { unsigned n = sym_choice("n", 3), m = sym_choice("m", 3); std::vector<sp<GDoubleObject>> a, b; std::vector<double> va, vb; unsigned ea = n ? sym_choice("ea", n + 1) : 0, eb = m ? sym_choice("eb", m + 1) : 0; for (unsigned i = 0; i < n; i++) { va.push_back(sym_fin("a")); a.push_back(i + 1 == ea ? nullptr : obj(va[i])); } for (unsigned i = 0; i < m; i++) { vb.push_back(sym_fin("b")); b.push_back(i + 1 == eb ? nullptr : obj(vb[i])); } bool s = n == m && ea == eb, z = s; if (s) for (unsigned i = 0; i < n; i++) if (i + 1 != ea) { s = s & (va[i] == vb[i]); z = z & near(va[i], vb[i], LIM); } check(a, b, s, z); }
// tokens with several checks
HARNESS h_token() { unsigned k = sym_choice("expectation", 3); E e = k == 0 ? E::EQUALITY : k == 1 ? E::INEQUALITY : E::FP_SIMILARITY; GToken t("harness", e); unsigned n = sym_choice("checks", 4); bool all = true, any = false; for (unsigned i = 0; i < n; i++) { bool d = sym_choice("differs", 2); int x = 1, y = d ? 2 : 1; compare_t(IDENTITY(x, y), t); all = all && !d; any = any || d; } VASSERT(t.expectationMet() == (k == 1 ? any : all), "expectation"); bool th = false; try { t.evaluate(); } catch (g_expectation_violation &g) { th = true; VASSERT(string(g.what()).size() > 0, "message"); } VASSERT(th == !t.expectationMet() && t.getExpectation() == e && t.getCallerName() == "harness", "evaluation"); vs_reach("done"); }
