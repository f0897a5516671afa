// Operations over the parameters of an individual: extraction, assignment, arithmetic, random initialization, activity modes
#include "vs.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GDoubleObjectCollection.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GInt32ObjectCollection.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GBooleanObjectCollection.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GParameterSet.hpp"
using namespace Gem::Geneva; using i32 = std::int32_t; using AM = activityMode;
#define THROWS(expr) ([&] { try { (void)(expr); return false; } catch (std::exception &) { return true; } }())
struct PS : public GParameterSet { PS() : GParameterSet(std::size_t(1)) {} PS(const PS &o) : GParameterSet(o) {} void load_(const GObject *cp) override { GParameterSet::load_(cp); } GObject *clone_() const override { return new PS(*this); } double fitnessCalculation() override { return 0.; } };
// A single value inside of a parameter object
struct Leaf { char t; GParameterBase *b; int i; bool con; bool act; };
template <class C> static GParameterBase *at(C &c, int i) { return c.at(i).get(); }
static void leaves(std::vector<Leaf> &v, GParameterBase &b) {
  bool a = b.adaptionsActive(); auto many = [&](char t, int n, bool con) { for (int i = 0; i < n; i++) v.push_back({t, &b, i, con, a}); };
  if (dynamic_cast<GDoubleObject *>(&b)) v.push_back({'d', &b, -1, false, a}); else if (dynamic_cast<GConstrainedDoubleObject *>(&b)) v.push_back({'d', &b, -1, true, a});
  else if (dynamic_cast<GInt32Object *>(&b)) v.push_back({'i', &b, -1, false, a}); else if (dynamic_cast<GConstrainedInt32Object *>(&b)) v.push_back({'i', &b, -1, true, a}); else if (dynamic_cast<GBooleanObject *>(&b)) v.push_back({'b', &b, -1, false, a});
  else if (auto p = dynamic_cast<GDoubleCollection *>(&b)) many('d', p->size(), false); else if (auto p = dynamic_cast<GConstrainedDoubleCollection *>(&b)) many('d', p->size(), true); else if (auto p = dynamic_cast<GInt32Collection *>(&b)) many('i', p->size(), false); else if (auto p = dynamic_cast<GBooleanCollection *>(&b)) many('b', p->size(), false);
#define OC(C) else if (auto p = dynamic_cast<C *>(&b)) { for (std::size_t i = 0; i < p->size(); i++) leaves(v, *at(*p, i)); }
  OC(GDoubleObjectCollection) OC(GConstrainedDoubleObjectCollection) OC(GInt32ObjectCollection) OC(GConstrainedInt32ObjectCollection) OC(GBooleanObjectCollection) OC(GParameterObjectCollection)
  else VASSERT(false, "unknown parameter object");
}
static std::vector<Leaf> all(PS &p) { std::vector<Leaf> v; for (std::size_t i = 0; i < p.size(); i++) leaves(v, *p.at(i)); return v; }
template <class T> struct X;
template <> struct X<double> { static const char t = 'd'; static double get(const Leaf &l) { if (l.i < 0) return l.con ? static_cast<GConstrainedDoubleObject *>(l.b)->value() : static_cast<GDoubleObject *>(l.b)->value(); return l.con ? static_cast<GConstrainedDoubleCollection *>(l.b)->value(l.i) : static_cast<GDoubleCollection *>(l.b)->value(l.i); }
  static double map(const Leaf &l, double v) { if (!l.con) return v; return l.i < 0 ? static_cast<GConstrainedDoubleObject *>(l.b)->transfer(v) : static_cast<GConstrainedDoubleCollection *>(l.b)->transfer(v); }
  static double lo(const Leaf &l) { if (l.i < 0) return l.con ? static_cast<GConstrainedDoubleObject *>(l.b)->getLowerBoundary() : static_cast<GDoubleObject *>(l.b)->getLowerInitBoundary(); return l.con ? static_cast<GConstrainedDoubleCollection *>(l.b)->getLowerBoundary() : static_cast<GDoubleCollection *>(l.b)->getLowerInitBoundary(); }
  static double hi(const Leaf &l) { if (l.i < 0) return l.con ? static_cast<GConstrainedDoubleObject *>(l.b)->getUpperBoundary() : static_cast<GDoubleObject *>(l.b)->getUpperInitBoundary(); return l.con ? static_cast<GConstrainedDoubleCollection *>(l.b)->getUpperBoundary() : static_cast<GDoubleCollection *>(l.b)->getUpperInitBoundary(); }
  static double sym(const char *n) { return sym_fin(n); } static double tab(const char *n) { static const double t[4] = {1.25, -0.5, 7.5, -4.25}; return t[sym_choice(n, 4)]; } };
template <> struct X<i32> { static const char t = 'i'; static i32 get(const Leaf &l) { if (l.i < 0) return l.con ? static_cast<GConstrainedInt32Object *>(l.b)->value() : static_cast<GInt32Object *>(l.b)->value(); return static_cast<GInt32Collection *>(l.b)->value(l.i); }
  static i32 map(const Leaf &l, i32 v) { return l.con ? static_cast<GConstrainedInt32Object *>(l.b)->transfer(v) : v; }
  static i32 lo(const Leaf &l) { if (l.i < 0) return l.con ? static_cast<GConstrainedInt32Object *>(l.b)->getLowerBoundary() : static_cast<GInt32Object *>(l.b)->getLowerInitBoundary(); return static_cast<GInt32Collection *>(l.b)->getLowerInitBoundary(); }
  static i32 hi(const Leaf &l) { if (l.i < 0) return l.con ? static_cast<GConstrainedInt32Object *>(l.b)->getUpperBoundary() : static_cast<GInt32Object *>(l.b)->getUpperInitBoundary(); return static_cast<GInt32Collection *>(l.b)->getUpperInitBoundary(); }
  static i32 sym(const char *n) { i32 r = (i32)vs_sym(n, 32); vs_assume((r >= -1000) & (r <= 1000)); return r; } static i32 tab(const char *n) { static const i32 t[4] = {1, -1, 5, -7}; return t[sym_choice(n, 4)]; } };
template <> struct X<bool> { static const char t = 'b'; static bool get(const Leaf &l) { return l.i < 0 ? static_cast<GBooleanObject *>(l.b)->value() : static_cast<GBooleanCollection *>(l.b)->at(l.i); } static bool map(const Leaf &, bool v) { return v; } static bool lo(const Leaf &) { return false; } static bool hi(const Leaf &) { return true; } static bool sym(const char *n) { return sym_choice(n, 2) != 0; } static bool tab(const char *n) { return sym(n); } };
struct Snap { std::vector<double> d; std::vector<i32> i; std::vector<bool> b; };
static Snap snap(const std::vector<Leaf> &v) { Snap s; for (auto &l : v) { s.d.push_back(l.t == 'd' ? X<double>::get(l) : 0.); s.i.push_back(l.t == 'i' ? X<i32>::get(l) : 0); s.b.push_back(l.t == 'b' ? X<bool>::get(l) : false); } return s; }
template <class T> static bool eq(T a, T b) { return a == b; } template <> bool eq<double>(double a, double b) { return (a == b) | (vs_bits(a) == vs_bits(b)); }
static void same(const Leaf &l, const Snap &s, std::size_t k, const char *m) { if (l.t == 'd') VASSERT(eq(X<double>::get(l), s.d[k]), m); else if (l.t == 'i') VASSERT(X<i32>::get(l) == s.i[k], m); else VASSERT(X<bool>::get(l) == s.b[k], m); }
template <class T> static T old(const Snap &s, std::size_t k); template <> double old<double>(const Snap &s, std::size_t k) { return s.d[k]; } template <> i32 old<i32>(const Snap &s, std::size_t k) { return s.i[k]; } template <> bool old<bool>(const Snap &s, std::size_t k) { return s.b[k]; }
static AM am() { static const AM m[3] = {AM::ACTIVEONLY, AM::ALLPARAMETERS, AM::INACTIVEONLY}; return m[sym_choice("mode", 3)]; }
static bool hit(const Leaf &l, AM a) { return a == AM::ALLPARAMETERS || (a == AM::ACTIVEONLY) == l.act; }
struct Draw { double a, b, r; }; static std::vector<Draw> U; struct IDraw { long long a, b, r; }; static std::vector<IDraw> I; static std::vector<std::pair<double, bool>> B; static bool g_tab;
static double uh(double a, double b) { double r; if (a == b) r = a; else if (g_tab) { static const double t[3] = {0., 0.375, 0.9375}; r = a + (b - a) * t[(U.size() + sym_choice("u", 3)) % 3]; } else { r = sym_f64("u"); vs_assume((r >= a) & (r < b)); } U.push_back({a, b, r}); return r; }
static long long ih(long long a, long long b) { long long r; if (g_tab) r = sym_choice("i", 2) ? b : a; else { r = (i32)vs_sym("i", 32); vs_assume((r >= a) & (r <= b)); } I.push_back({a, b, r}); return r; }
static bool bh(double p) { bool r = p <= 0. ? false : p >= 1. ? true : sym_choice("b", 2) != 0; B.push_back({p, r}); return r; }
// K: the kind under test, first and last in the set. Its builder gets a name and a number
typedef std::shared_ptr<GParameterBase> PB; typedef PB (*Mk)(const std::string &, int);
static std::shared_ptr<PS> mkset(Mk mk, int base, bool flags) { auto p = std::make_shared<PS>(); auto x = std::make_shared<GDoubleObject>(base + 0.5, -1., 2.); x->setParameterName("x"); auto i = std::make_shared<GInt32Object>(base + 3, -4, 6); i->setParameterName("i"); auto b = std::make_shared<GBooleanObject>(base % 2 == 0); b->setParameterName("b"); PB k = mk("k", base), m = mk("m", base + 1); p->push_back(k); p->push_back(x); p->push_back(i); p->push_back(b); p->push_back(m); if (flags) { unsigned f = sym_choice("inactive", 4); std::vector<Leaf> kl; leaves(kl, *k); if (f & 1) { kl[0].b->setAdaptionsInactive(); i->setAdaptionsInactive(); } if (f & 2) { x->setAdaptionsInactive(); b->setAdaptionsInactive(); k->setAdaptionsInactive(); } } return p; }
static void symvals(PS &p) { for (auto &l : all(p)) { if (l.t == 'd') { if (!l.con) { double v = sym_fin("v"); vs_assume((v >= -1e100) & (v <= 1e100)); if (l.i < 0) static_cast<GDoubleObject *>(l.b)->setValue(v); else static_cast<GDoubleCollection *>(l.b)->setValue(l.i, v); } } else if (l.t == 'i') { if (!l.con) { i32 v = X<i32>::sym("v"); if (l.i < 0) static_cast<GInt32Object *>(l.b)->setValue(v); else static_cast<GInt32Collection *>(l.b)->setValue(l.i, v); } } } }
// adapted values outside of the boundaries, as left behind by an adaptor before the value is read
static void raw(const Leaf &l, int k) { if (!l.con) return; if (l.t == 'd') { double v = k ? 7.75 : -4.5; if (l.i < 0) static_cast<GConstrainedDoubleObject *>(l.b)->m_val = v; else static_cast<GConstrainedDoubleCollection *>(l.b)->m_data_cnt[l.i] = v; } else static_cast<GConstrainedInt32Object *>(l.b)->m_val = k ? 9 : -8; }
static std::shared_ptr<PS> start(Mk mk, bool sym = true) { vsr::hook = uh; vsr::ihook = ih; vsr::bhook = bh; U.clear(); I.clear(); B.clear(); g_tab = false; auto p = mkset(mk, 0, true); if (sym) symvals(*p); return p; }
template <class T> static void extract(Mk mk) {
  auto p = start(mk); AM a = am(); auto v = all(*p); auto s = snap(v); std::vector<T> e, l, h, w, bl, bh; std::map<std::string, std::vector<T>> em, wm; for (std::size_t k = 0; k < v.size(); k++) if (v[k].t == X<T>::t && hit(v[k], a)) { e.push_back(old<T>(s, k)); l.push_back(X<T>::lo(v[k])); h.push_back(X<T>::hi(v[k])); em[v[k].b->getParameterName()].push_back(e.back()); }
  unsigned kind = sym_choice("what", 4); if (kind == 0) { w.push_back(T()); p->streamline<T>(w, a); VASSERT(w.size() == e.size(), "all values are extracted"); for (std::size_t k = 0; k < e.size(); k++) VASSERT(w[k] == e[k], "values in their order"); VASSERT(p->countParameters<T>(a) == e.size(), "count"); }
  if (kind == 1) { wm["old"].push_back(T()); p->streamline<T>(wm, a); VASSERT(wm.size() == em.size(), "all names are extracted"); for (auto &x : em) { auto f = wm.find(x.first); VASSERT(f != wm.end() && f->second.size() == x.second.size(), "values by name"); for (std::size_t k = 0; k < x.second.size(); k++) VASSERT(f->second[k] == x.second[k], "values by name"); } }
  if (kind == 2) { bl.push_back(T()); p->boundaries<T>(bl, bh, a); VASSERT(bl.size() == e.size() && bh.size() == e.size(), "one pair of boundaries for each value"); for (std::size_t k = 0; k < e.size(); k++) VASSERT(bl[k] == l[k] && bh[k] == h[k], "boundaries in the order of the values"); }
  if (kind == 3) { auto names = p->getVariableNames<T>(); std::size_t n = 0, c = 0; std::map<std::string, std::size_t> seen; for (auto &x : v) if (x.t == X<T>::t) { n++; seen[x.b->getParameterName()]++; } VASSERT(names.size() == seen.size(), "names"); for (auto &x : names) VASSERT(seen.count(x), "names"); std::string d(1, X<T>::t); seen.clear(); for (std::size_t k = 0; k < v.size(); k++) if (v[k].t == X<T>::t) { std::string nm = v[k].b->getParameterName(); T g = boost::any_cast<T>(p->getVarVal(d, std::make_tuple(std::size_t(0), std::string(), c++))); VASSERT(g == old<T>(s, k), "value by position"); g = boost::any_cast<T>(p->getVarVal(d, std::make_tuple(std::size_t(1), nm, seen[nm]++))); VASSERT(g == old<T>(s, k), "value by name"); } VASSERT(THROWS(p->getVarVal(d, std::make_tuple(std::size_t(0), std::string(), n))) && THROWS(p->getVarVal(d, std::make_tuple(std::size_t(1), std::string("nobody"), std::size_t(0)))), "unknown values are refused"); }
  for (std::size_t k = 0; k < v.size(); k++) same(v[k], s, k, "extraction changes nothing"); VASSERT(!p->is_due_for_processing(), "extraction needs no evaluation"); vs_reach("extracted");
}
template <class T> static void assign(Mk mk) {
  auto p = start(mk); AM a = am(); auto v = all(*p); auto s = snap(v); std::vector<T> w; std::map<std::string, std::vector<T>> m; std::vector<T> e(v.size()); unsigned kind = sym_choice("what", 3); int c = 0; for (std::size_t k = 0; k < v.size(); k++) if (v[k].t == X<T>::t && hit(v[k], a)) { T x; if (v[k].con) { static const double t[4] = {1.25, 7.5, -4.25, -0.5}; x = (T)t[(c + sym_choice("first", 4)) % 4]; c++; } else x = X<T>::sym("w"); w.push_back(x); m[v[k].b->getParameterName()].push_back(x); e[k] = X<T>::map(v[k], x); }
  if (kind == 0) p->assignValueVector<T>(w, a); if (kind == 1) { m["unrelated"].push_back(T()); p->assignValueVectors<T>(m, a); }
  if (kind == 2) { if (sym_choice("size", 2) && !w.empty()) w.pop_back(); else w.push_back(T()); VASSERT(THROWS(p->assignValueVector<T>(w, a)), "vectors of the wrong size are refused"); for (std::size_t k = 0; k < v.size(); k++) same(v[k], s, k, "a refused vector changes nothing"); vs_reach("refused"); return; }
  for (std::size_t k = 0; k < v.size(); k++) if (v[k].t == X<T>::t && hit(v[k], a)) VASSERT(X<T>::get(v[k]) == (T)e[k], "assigned value"); else same(v[k], s, k, "other values stay"); VASSERT(p->is_due_for_processing(), "changed individuals need evaluation"); vs_reach("assigned");
}
template <class T> static bool among(double v) { for (auto &d : U) if (d.r == v) return true; for (auto &d : I) if (d.r == v) return true; return false; }
template <class T> static void arith(Mk mk) {
  unsigned op = sym_choice("op", 5); auto p = start(mk); auto v = all(*p); bool anycon = false; for (auto &l : v) anycon = anycon || l.con; unsigned rk = anycon ? sym_choice("adapted", 3) : 0; auto s0 = snap(v); AM a = am(); Snap s; if (rk) { for (auto &l : v) raw(l, rk - 1); s = snap(v); for (auto &l : v) raw(l, rk - 1); } else s = s0; std::vector<T> e(v.size()); std::size_t n = 0; for (auto &l : v) n += l.t == X<T>::t && hit(l, a);
  std::shared_ptr<PS> q; T x = T(); if (op < 2) x = anycon && X<T>::t == (mk("k", 0), v[0].t) ? X<T>::tab("x") : X<T>::sym("x"); if (op == 2 || op == 3) { q = mkset(mk, 1, false); symvals(*q); }
  auto u = q ? all(*q) : v; if (q && rk) for (auto &l : u) raw(l, 2 - rk); auto su = snap(u); if (q && rk) for (auto &l : u) raw(l, 2 - rk); if (rk) for (auto &l : v) raw(l, rk - 1);
  if (op == 0) p->multiplyBy<T>(x, a); if (op == 1) p->fixedValueInit<T>(x, a); if (op == 2) p->add<T>(q, a); if (op == 3) p->subtract<T>(q, a);
  U.clear(); I.clear(); T mn = (T)(X<T>::t == 'd' ? 0.5 : 2), mx = (T)(X<T>::t == 'd' ? 1.5 : 5); if (op == 4) { g_tab = anycon; p->multiplyByRandom<T>(mn, mx, a); VASSERT((X<T>::t == 'd' ? U.size() : I.size()) == n, "one draw for each value"); for (auto &d : U) VASSERT(d.a == mn && d.b == mx, "range of the draws"); for (auto &d : I) VASSERT(d.a == mn && d.b == mx, "range of the draws"); }
  std::size_t c = 0; for (std::size_t k = 0; k < v.size(); k++) if (v[k].t == X<T>::t && hit(v[k], a)) { T o = old<T>(s, k), w = op == 0 ? T(x * o) : op == 1 ? x : op == 2 ? T(o + old<T>(su, k)) : op == 3 ? T(o - old<T>(su, k)) : T(o * (T)(X<T>::t == 'd' ? U[c].r : (double)I[c].r)); c++; VASSERT(eq<T>(X<T>::get(v[k]), X<T>::map(v[k], w)), "result of the operation"); } else same(v[k], s, k, "other values stay");
  if (q) for (std::size_t k = 0; k < u.size(); k++) same(u[k], su, k, "the other operand stays"); VASSERT(p->is_due_for_processing(), "changed individuals need evaluation"); vs_reach("computed");
}
template <class T> static void fraction(Mk mk) { // multiplication by random numbers in [0, 1[
  std::shared_ptr<PS> p = start(mk, X<T>::t == 'd'); auto v = all(*p); AM a = am(); auto s = snap(v); g_tab = true; U.clear(); I.clear(); std::size_t n = 0; for (auto &l : v) n += l.t == X<T>::t && hit(l, a); p->multiplyByRandom<T>(a); VASSERT(U.size() == n && I.empty(), "one draw for each value"); for (auto &d : U) VASSERT(d.a == 0. && d.b == 1., "draws from [0, 1[");
  std::size_t c = 0; for (std::size_t k = 0; k < v.size(); k++) if (v[k].t == X<T>::t && hit(v[k], a)) { VASSERT(eq<T>(X<T>::get(v[k]), X<T>::map(v[k], T(old<T>(s, k) * U[c].r))), "result of the operation"); c++; } else same(v[k], s, k, "other values stay"); VASSERT(p->is_due_for_processing(), "changed individuals need evaluation"); vs_reach("scaled");
}
static void rinit(Mk mk) {
  auto p = start(mk, false); auto v = all(*p); AM a = am(); unsigned blocked = sym_choice("blocked", 3); if (blocked == 1) v[0].b->blockRandomInitialization(); if (blocked == 2) p->at(0)->blockRandomInitialization(); std::size_t k0 = 0; { std::vector<Leaf> kl; leaves(kl, *p->at(0)); k0 = kl.size(); } bool any = false; for (auto &l : v) any = any || l.con; g_tab = any; auto s = snap(v); U.clear(); I.clear(); B.clear(); bool r = p->randomInit(a); std::size_t nd = 0, ni = 0, nb = 0, tb = 0, t2 = 0; for (auto &d : B) { VASSERT(d.first == 0.5, "booleans with equal probability"); t2 += d.second; }
  for (std::size_t k = 0; k < v.size(); k++) { bool bl = (blocked == 1 && v[k].b == v[0].b) || (blocked == 2 && k < k0); if (!hit(v[k], a) || bl) { same(v[k], s, k, "other values stay"); continue; }
    if (v[k].t == 'd') { nd++; double x = X<double>::get(v[k]), lo = X<double>::lo(v[k]), hi = X<double>::hi(v[k]); VASSERT((x >= lo) & (x <= hi), "value inside of the boundaries"); bool f = false; for (auto &d : U) f = f | ((d.a == lo) & (d.b == hi) & (d.r == x)); VASSERT(f, "a new value drawn from the range"); } else if (v[k].t == 'i') { ni++; i32 x = X<i32>::get(v[k]), lo = X<i32>::lo(v[k]), hi = X<i32>::hi(v[k]); VASSERT((x >= lo) & (x <= hi), "value inside of the boundaries"); bool f = false; for (auto &d : I) f = f | ((d.a == lo) & (d.b == hi) & (d.r == x)); VASSERT(f, "a new value drawn from the range"); } else { nb++; tb += X<bool>::get(v[k]); } }
  VASSERT(U.size() == nd && I.size() == ni && B.size() == nb && tb == t2, "one draw for each initialized value"); VASSERT(r == (nd + ni + nb > 0) && p->is_due_for_processing() == r, "reports whether something was initialized"); vs_reach("initialized");
}
template <class T> static void numeric(Mk mk) { switch (sym_choice("group", 4)) { case 0: extract<T>(mk); break; case 1: assign<T>(mk); break; case 2: arith<T>(mk); break; default: fraction<T>(mk); } }
static void boolean(Mk mk) { if (sym_choice("group", 2)) extract<bool>(mk); else assign<bool>(mk); }
template <class T> static PB named(T *t, const std::string &n) { std::shared_ptr<T> r(t); r->setParameterName(n); return r; }
template <class C, class F> static PB coll(const std::string &n, F f) { auto c = std::make_shared<C>(); for (int i = 0; i < 2; i++) { auto x = f(i); x->setParameterName(n + char('0' + i)); c->push_back(x); } c->setParameterName(n); return c; }
static PB mk_d(const std::string &n, int k) { return named(new GDoubleObject(k + 1.5, -3., 4.), n); }
static PB mk_cd(const std::string &n, int k) { return named(new GConstrainedDoubleObject(k + 0.25, -2., 3.), n); }
static PB mk_i(const std::string &n, int k) { return named(new GInt32Object(k + 2, -3, 4), n); }
static PB mk_ci(const std::string &n, int k) { return named(new GConstrainedInt32Object(k + 1, -2, 3), n); }
static PB mk_b(const std::string &n, int k) { return named(new GBooleanObject(k != 0), n); }
static PB mk_dc(const std::string &n, int k) { auto c = new GDoubleCollection(2, k + 1.5, -3., 4.); c->setValue(1, k + 2.5); return named(c, n); }
static PB mk_cdc(const std::string &n, int k) { auto c = new GConstrainedDoubleCollection(2, -2., 3.); c->setValue(0, k + 0.25); c->setValue(1, k - 1.5); return named(c, n); }
static PB mk_ic(const std::string &n, int k) { auto c = new GInt32Collection(2, k + 2, -3, 4); c->setValue(1, k - 1); return named(c, n); }
static PB mk_bc(const std::string &n, int k) { auto c = new GBooleanCollection(2, k != 0); c->at(1) = true; return named(c, n); }
static PB mk_doc(const std::string &n, int k) { return coll<GDoubleObjectCollection>(n, [k](int i) { return std::make_shared<GDoubleObject>(k + i + 0.5, -3., 4. + i); }); }
static PB mk_cdoc(const std::string &n, int k) { return coll<GConstrainedDoubleObjectCollection>(n, [k](int i) { return std::make_shared<GConstrainedDoubleObject>(k + i * 0.5, -2., 3. + i); }); }
static PB mk_ioc(const std::string &n, int k) { return coll<GInt32ObjectCollection>(n, [k](int i) { return std::make_shared<GInt32Object>(k + i, -3, 4 + i); }); }
static PB mk_cioc(const std::string &n, int k) { return coll<GConstrainedInt32ObjectCollection>(n, [k](int i) { return std::make_shared<GConstrainedInt32Object>(k + i, -2, 3 + i); }); }
static PB mk_boc(const std::string &n, int k) { return coll<GBooleanObjectCollection>(n, [k](int i) { return std::make_shared<GBooleanObject>((k + i) % 2 == 0); }); }
static PB mk_poc(const std::string &n, int k) { auto c = std::make_shared<GParameterObjectCollection>(); c->push_back(mk_d(n + "a", k)); c->push_back(mk_i(n + "b", k)); auto q = std::make_shared<GParameterObjectCollection>(); q->push_back(mk_b(n + "c", k)); q->push_back(mk_dc(n + "d", k)); c->push_back(q); return c; }
#define UNIT(n) HARNESS h_##n##_double() { numeric<double>(mk_##n); } HARNESS h_##n##_int() { numeric<i32>(mk_##n); } HARNESS h_##n##_bool() { boolean(mk_##n); } HARNESS h_##n##_init() { rinit(mk_##n); }
UNIT(d) UNIT(cd) UNIT(i) UNIT(ci) UNIT(b) UNIT(dc) UNIT(cdc) UNIT(ic) UNIT(bc) UNIT(doc) UNIT(cdoc) UNIT(ioc) UNIT(cioc) UNIT(boc) UNIT(poc)
