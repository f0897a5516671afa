// An in-memory archive: serializes objects of the library into a list of values and back, through the library's own
// serialize() functions. Polymorphic objects behind smart pointers are restored with their type (types are registered by the harness).
#pragma once
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <vector>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/logic/tribool.hpp>
#include <atomic>
#include <deque>
#include <list>
#include <set>
#include <array>
struct Tok { char k; std::uint64_t u; double d; std::string s; std::string n; bool operator==(const Tok &o) const { return k == o.k && (k == 'd' || k == 'f' ? (d == o.d) | ((d != d) & (o.d != o.d)) : k == 's' ? s == o.s : u == o.u); } bool operator!=(const Tok &o) const { return !(*this == o); } };
using Toks = std::vector<Tok>;
template <class... Ts> struct TypeList {};
template <bool SAVE, class L> struct Ar {
  Toks &t; size_t pos = 0; bool inplace = false; /* keep existing objects when loading */ std::string name; explicit Ar(Toks &v) : t(v) {}
  using is_saving = boost::mpl::bool_<SAVE>; using is_loading = boost::mpl::bool_<!SAVE>;
  template <class T> Ar &operator&(const T &x) { item(const_cast<T &>(x)); return *this; }
  template <class T> Ar &operator<<(const T &x) { return *this & x; } template <class T> Ar &operator>>(const T &x) { return *this & x; }
  unsigned get_library_version() const { return 0; } template <class T> void register_type(T * = nullptr) {} void reset_object_address(const void *, const void *) {}
  Tok &next() { VASSERT(pos < t.size(), "archives are read as they were written"); return t[pos++]; }
  void u(std::uint64_t &x, char k) { if (SAVE) t.push_back(Tok{k, x, 0., "", name}); else { Tok &q = next(); VASSERT(q.k == k, "archives are read as they were written"); x = q.u; } }
  template <class T> void item(boost::serialization::nvp<T> &n) { std::string old = name; if (SAVE) name = n.name(); item(const_cast<std::remove_const_t<T> &>(n.const_value())); name = old; }
  template <class T> void item(T &x) {
    if constexpr (std::is_same<T, bool>::value) { std::uint64_t v = SAVE ? x : 0; u(v, 'b'); if (!SAVE) x = v != 0; }
    else if constexpr (std::is_enum<T>::value) { std::uint64_t v = (std::uint64_t)(std::underlying_type_t<T>)x; u(v, 'e'); if (!SAVE) x = (T)(std::underlying_type_t<T>)v; }
    else if constexpr (std::is_integral<T>::value) { std::uint64_t v = (std::uint64_t)x; u(v, 'i'); if (!SAVE) x = (T)v; }
    else if constexpr (std::is_floating_point<T>::value) { const char k = sizeof(T) == 4 ? 'f' : 'd'; if (SAVE) t.push_back(Tok{k, 0, (double)x, "", name}); else { Tok &q = next(); VASSERT(q.k == k, "archives are read as they were written"); x = (T)q.d; } }
    else boost::serialization::serialize_adl(*this, x, 0u);
  }
  void item(std::string &s) { if (SAVE) t.push_back(Tok{'s', 0, 0., s, name}); else { Tok &q = next(); VASSERT(q.k == 's', "archives are read as they were written"); s = q.s; } }
  void item(boost::logic::tribool &x) { std::uint64_t v = x.value; u(v, 't'); x.value = (decltype(x.value))v; }
  template <class C> void seq(C &c) { std::uint64_t n = c.size(); u(n, 'n'); if (!SAVE) { if (!inplace) c.clear(); c.resize(n); } for (auto &x : c) item(x); }
  template <class T> void item(std::vector<T> &c) { seq(c); } template <class T> void item(std::deque<T> &c) { seq(c); } template <class T> void item(std::list<T> &c) { seq(c); }
  void item(std::vector<bool> &c) { std::uint64_t n = c.size(); u(n, 'n'); if (!SAVE) { c.clear(); c.resize(n); } for (size_t i = 0; i < n; i++) { bool b = c[i]; item(b); c[i] = b; } }
  template <class T, size_t N> void item(std::array<T, N> &c) { for (auto &x : c) item(x); }
  template <class A, class B> void item(std::pair<A, B> &p) { item(const_cast<std::remove_const_t<A> &>(p.first)); item(p.second); }
  template <class K, class V> void item(std::map<K, V> &m) { std::uint64_t n = m.size(); u(n, 'n'); if (SAVE) for (auto &p : m) item(p); else { m.clear(); for (size_t i = 0; i < n; i++) { std::pair<K, V> p; item(p); m.insert(std::move(p)); } } }
  template <class T> void item(std::shared_ptr<T> &p) { if (SAVE) { if (!p) { std::uint64_t z = 0; u(z, 'p'); } else put(*p, L()); } else { std::uint64_t k = 0; u(k, 'p'); if (!k || !inplace) p.reset(); if (k) get(p, k, L()); } }
  template <class T, class... Ts> void put(T &x, TypeList<Ts...>) { std::uint64_t k = 0; bool done = false; (void)std::initializer_list<int>{(++k, one<T, Ts>(x, k, done), 0)...}; if (!done) { if constexpr (!std::is_polymorphic<T>::value) { k = 999; u(k, 'p'); item(x); } else VASSERT(false, "type of object is known"); } }
  template <class T, class X> void one(T &x, std::uint64_t k, bool &done) { if constexpr (std::is_base_of<T, X>::value) if (!done && typeid(x) == typeid(X)) { done = true; u(k, 'p'); item(static_cast<X &>(x)); } }
  template <class T, class... Ts> void get(std::shared_ptr<T> &p, std::uint64_t want, TypeList<Ts...>) { if constexpr (!std::is_polymorphic<T>::value) { if (!p) p = std::make_shared<T>(); item(*p); } else { std::uint64_t k = 0; (void)std::initializer_list<int>{(++k, mk<T, Ts>(p, k, want), 0)...}; } }
  template <class T, class X> void mk(std::shared_ptr<T> &p, std::uint64_t k, std::uint64_t want) { if constexpr (std::is_base_of<T, X>::value) if (k == want) { if (p && typeid(*p) == typeid(X)) item(static_cast<X &>(*p)); else { auto q = std::shared_ptr<X>(new X()); item(*q); p = q; } } }
};
template <class L, class X> Toks ar_save(const X &x) { Toks t; Ar<true, L> a(t); a.item(const_cast<X &>(x)); return t; }
template <class L, class X> void ar_load(X &x, const Toks &t, bool inplace = false) { Toks c(t); Ar<false, L> a(c); a.inplace = inplace; a.item(x); VASSERT(a.pos == c.size(), "archives are read as they were written"); }
template <class L, class X> bool ar_same(const X &a, const X &b) { Toks s = ar_save<L>(a), t = ar_save<L>(b); if (s.size() != t.size()) return false; bool r = true; for (size_t i = 0; i < s.size(); i++) { if (s[i].k != t[i].k) return false; r = r & (s[i] == t[i]); } return r; }
// the root of the hierarchy a class belongs to, providing load() and clone()
template <class X, class = void> struct ar_root { using type = Gem::Geneva::GObject; };
// All ways of copying objects of a class carry over each of its values, and comparisons notice each difference.
// skip: names of values that are not part of an object's identity
template <class L, class X, class F> void ar_copies(const X &o, X &&other, F &&skip, const Toks *known = nullptr) { // known: values with these names are not changed
  using Gem::Common::expectation; Toks t = ar_save<L>(o); std::vector<size_t> ix; for (size_t i = 0; i < t.size(); i++) if (t[i].k != 'n' && t[i].k != 'p') { bool use = true; if (known) for (auto &j : *known) use &= j.n != t[i].n; if (use) ix.push_back(i); } ix.push_back(t.size()); size_t i = ix[sym_choice("changed value", ix.size())]; Toks c = t; bool diff = false;
  if (i < t.size()) { Tok &q = c[i]; if (q.k == 'd' || q.k == 'f') { q.d = q.k == 'd' ? sym_fin("value") : sym_intd("value", 4); diff = q.d != t[i].d; } else if (q.k == 's') { q.s += "x"; diff = true; } else if (q.k == 'b') { q.u = !q.u; diff = true; } else if (q.k == 't' || q.k == 'e') { q.u = q.u ? 0 : 1; diff = true; } else { q.u += 1 + sym_choice("increment", 2); diff = true; } }
  X m; ar_load<L>(m, t); VASSERT(ar_same<L>(m, o), "serialization restores objects"); X n; ar_load<L>(n, c); Toks r = ar_save<L>(n); VASSERT(r.size() == c.size(), "serialization restores all values"); std::string nm = i < t.size() ? t[i].n : "none"; bool eq = true; for (size_t j = 0; j < r.size() && j < c.size(); j++) eq = eq & (r[j] == c[j]); VASSERT(eq, "serialization restores all values");
  auto differs = [](const X &a, const X &b, expectation e) { bool thr = false; try { a.compare(b, e, 1e-9); } catch (const std::exception &) { thr = true; } return thr; };
  if (!(i < t.size() && skip(t[i].n))) { std::string msg = "comparisons for equality notice each difference" + (i < t.size() ? " of " + t[i].n : ""); VASSERT(differs(n, o, expectation::EQUALITY) == diff && differs(o, n, expectation::EQUALITY) == diff, msg.c_str()); VASSERT(differs(n, o, expectation::INEQUALITY) == !diff, "comparisons for inequality notice each difference"); }
  unsigned w = sym_choice("way", 4); std::shared_ptr<X> y; if (w == 0) y = std::shared_ptr<X>(new X(n)); else if (w == 1) y = static_cast<typename ar_root<X>::type &>(n).template clone<X>(); else if (w == 2) { static_cast<typename ar_root<X>::type &>(other).load(n); } else { static_cast<typename ar_root<X>::type &>(other).load(o); static_cast<typename ar_root<X>::type &>(other).load(n); } X &z = y ? *y : other;
  VASSERT(ar_same<L>(z, n), ("copies carry all values, changed: " + nm).c_str()); VASSERT(!differs(z, n, expectation::EQUALITY) && !differs(z, n, expectation::FP_SIMILARITY) && differs(z, n, expectation::INEQUALITY), "copies are equal");
  ar_load<L>(z, t, true); Toks f = ar_save<L>(n); eq = true; for (size_t j = 0; j < f.size() && j < c.size(); j++) eq = eq & (f[j] == c[j]); VASSERT(eq && f.size() == c.size(), "copies are independent"); vs_reach(w == 0 ? "copy" : w == 1 ? "clone" : w == 2 ? "load" : "reload");
}
template <class L, class X> void ar_copies(const X &o, X &&other) { ar_copies<L>(o, std::move(other), [](const std::string &) { return false; }); }
