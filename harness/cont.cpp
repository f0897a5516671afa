// GPtrVectorT, GPODVectorT: container semantics, deep copies, cross over; deep-copy helpers
#include "item.hpp"
#include "common/GPtrVectorT.hpp"
#include "common/GPODVectorT.hpp"
#include <list>
using namespace Gem::Common;
#define THROWS(expr) ([&] { try { (void)(expr); return false; } catch (gemfony_exception &) { return true; } }())
struct ItemB : public Item { using Item::Item; protected: Item *clone_() const override { return new ItemB(*this); } };
typedef std::shared_ptr<Item> IP;
struct PV : public GPtrVectorT<Item, Item> { ~PV() override = default; PV() = default; PV(const PV &) = default; PV(PV &&) = default; PV &operator=(const PV &) = default; using GPtrVectorT<Item, Item>::operator=; };
template <class T> struct DV : public GPODVectorT<T> { ~DV() override = default; DV() = default; DV(const DV &) = default; DV &operator=(const DV &) = default; using GPODVectorT<T>::operator=; };
static IP mk(int t) { return IP(new Item(sym_fin("v"), t)); }
static void fill(PV &p, unsigned n, int base) { for (unsigned i = 0; i < n; i++) p.push_back(mk(base + i)); }
typedef std::vector<IP> VV; typedef std::vector<double> DD;
static VV ptrs(PV &p) { VV r; for (auto &x : p) r.push_back(x); return r; }
static DD vals(const VV &p) { DD r; for (auto &x : p) r.push_back(x->v); return r; }
// cross over: everything from the position on is exchanged, nothing is lost or duplicated
HARNESS h_cross_ptr() {
  PV a, b; unsigned n = sym_choice("n", 4), m = sym_choice("m", 4), pos = sym_choice("pos", 4); fill(a, n, 0); fill(b, m, 10);
  VV x = ptrs(a), y = ptrs(b); unsigned mn = n < m ? n : m;
  bool th = THROWS(a.crossOver(b, pos)); VASSERT(th == (pos >= mn), "positions not available in both containers are rejected");
  if (th) { VASSERT(ptrs(a) == x && ptrs(b) == y, "nothing changes when the position is rejected"); return; }
  VASSERT(a.size() == m && b.size() == n, "the tails are exchanged completely");
  for (unsigned i = 0; i < m; i++) VASSERT(a[i] == (i < pos ? x[i] : y[i]), "first container: own head, foreign tail");
  for (unsigned i = 0; i < n; i++) VASSERT(b[i] == (i < pos ? y[i] : x[i]), "second container: own head, foreign tail");
  vs_reach("crossed");
}
HARNESS h_cross_pod() {
  DV<int> a, b; unsigned n = sym_choice("n", 4), m = sym_choice("m", 4), pos = sym_choice("pos", 4); std::vector<int> x, y;
  for (unsigned i = 0; i < n; i++) { x.push_back(sym_i32("a")); a.push_back(x[i]); } for (unsigned i = 0; i < m; i++) { y.push_back(sym_i32("b")); b.push_back(y[i]); }
  unsigned mn = n < m ? n : m;
  bool th = THROWS(a.crossOver(b, pos)); VASSERT(th == (pos >= mn), "positions not available in both containers are rejected"); if (th) return;
  VASSERT(a.size() == m && b.size() == n, "the tails are exchanged completely");
  for (unsigned i = 0; i < m; i++) VASSERT(a[i] == (i < pos ? x[i] : y[i]), "first container: own head, foreign tail");
  for (unsigned i = 0; i < n; i++) VASSERT(b[i] == (i < pos ? y[i] : x[i]), "second container: own head, foreign tail");
  vs_reach("crossed");
}
static void deep(PV &a, const VV &src, const DD &v) {
  VASSERT(a.size() == src.size(), "the copy has as many items as the source");
  for (unsigned i = 0; i < src.size(); i++) {
    VASSERT(a[i] && a[i]->v == v[i] && a[i]->tag == src[i]->tag, "item by item the copy equals the source");
    for (unsigned j = 0; j < src.size(); j++) VASSERT(a[i] != src[j], "the copy owns its items");
    for (unsigned j = 0; j < i; j++) VASSERT(a[i] != a[j], "every item of the copy is an object of its own");
  }
}
HARNESS h_copy() {
  PV a, b; unsigned n = sym_choice("n", 4), m = sym_choice("m", 4), how = sym_choice("how", 4); fill(a, n, 0); fill(b, m, 10);
  VV x = ptrs(a); DD v = vals(x);
  if (how == 0) { PV c(a); deep(c, x, v); if (n) c[0]->v += 1; }
  else if (how == 1) { b = a; deep(b, x, v); if (n) b[n - 1]->v += 1; }
  else if (how == 2) { b = x; deep(b, x, v); if (n) b[0]->v += 1; }
  else { VV c = ptrs(b); a.getDataCopy(c); PV d; for (auto &p : c) d.push_back(p); deep(d, x, v); if (n) c[0]->v += 1; }
  VASSERT(ptrs(a) == x && vals(x) == v, "the source is not affected by changes to the copy");
  vs_reach("copied");
}
HARNESS h_self() { PV a; unsigned n = sym_choice("n", 4); fill(a, n, 0); VV x = ptrs(a); DD v = vals(x); PV &r = a; a = r; VASSERT(a.size() == n && vals(ptrs(a)) == v, "self assignment changes nothing"); PV b(std::move(a)); VASSERT(ptrs(b) == x, "moving hands over the items themselves"); vs_reach("self"); }
// insertion, removal, resizing against a reference sequence
HARNESS h_insert() {
  PV a; unsigned n = sym_choice("n", 3), pos = sym_choice("pos", n + 1), how = sym_choice("how", 8), k = sym_choice("amount", 4); fill(a, n, 0);
  VV r = ptrs(a); IP x = mk(99), e; bool clone = false, th = false; unsigned cnt = 1;
  auto at = a.begin() + pos;
  switch (how) {
    case 0: { auto it = a.insert(at, x); VASSERT(it == a.begin() + pos, "an iterator to the new item is returned"); break; }
    case 1: a.insert_noclone(at, x); break;
    case 2: a.insert_clone(at, x); clone = true; break;
    case 3: a.insert(at, k, x); clone = true; cnt = k; break;
    case 4: a.insert_clone(at, k, x); clone = true; cnt = k; break;
    case 5: a.insert_noclone(at, k, x); cnt = k; break;
    case 6: a.push_back(x); pos = n; break;
    case 7: a.push_back_clone(x); pos = n; clone = true; break;
  }
  VASSERT(a.size() == n + cnt, "as many items as requested are added");
  unsigned self = 0;
  for (unsigned i = 0; i < a.size(); i++) {
    if (i < pos) VASSERT(a[i] == r[i], "items in front of the position are untouched");
    else if (i >= pos + cnt) VASSERT(a[i] == r[i - cnt], "items behind the position are moved");
    else { VASSERT(a[i]->v == x->v && a[i]->tag == 99, "the new items have the requested value"); self += a[i] == x; for (unsigned j = 0; j < i; j++) VASSERT(a[i] != a[j], "no two entries share an object"); }
  }
  VASSERT(self == (clone || !cnt ? 0 : 1), "the item itself is stored once, or not at all if clones were requested");
  th = THROWS(a.insert(a.begin(), e)) && THROWS(a.insert_clone(a.begin(), e)) && THROWS(a.insert(a.begin(), 2, e)) && THROWS(a.insert_noclone(a.begin(), 2, e)) && THROWS(a.push_back(e)) && THROWS(a.push_back_clone(e)) && THROWS(a.resize(9, e)) && THROWS(a.resize_noclone(9, e));
  VASSERT(th && a.size() == n + cnt, "empty pointers are never stored"); vs_reach("inserted");
}
HARNESS h_resize() {
  PV a; unsigned n = sym_choice("n", 4), k = sym_choice("amount", 6), how = sym_choice("how", 5); fill(a, n, 0); VV r = ptrs(a); IP x = mk(99); bool th = false;
  switch (how) { case 0: th = THROWS(a.resize(k)); break; case 1: a.resize(k, x); break; case 2: a.resize_clone(k, x); break; case 3: a.resize_noclone(k, x); break; case 4: a.resize_empty(k); break; }
  VASSERT(th == (how == 0 && n == 0 && k != 0), "growing without a template is rejected, everything else works"); if (th) { VASSERT(a.empty(), "nothing was added"); return; }
  VASSERT(a.size() == k, "the requested size"); unsigned self = 0;
  for (unsigned i = 0; i < k; i++) {
    if (i < n) { VASSERT(a[i] == r[i], "existing items are kept"); continue; }
    if (how == 4) { VASSERT(!a[i], "empty entries were requested"); continue; }
    const IP &t = how == 0 ? r[0] : x; VASSERT(a[i]->v == t->v && a[i]->tag == t->tag, "new items equal the template"); self += a[i] == t; for (unsigned j = 0; j < i; j++) VASSERT(a[i] != a[j], "no two entries share an object");
  }
  VASSERT(self == (how == 3 && k > n ? 1 : 0), "the template itself is stored once, or not at all if clones were requested"); vs_reach("resized");
}
HARNESS h_erase() {
  PV a; unsigned n = 1 + sym_choice("n", 3), f = sym_choice("from", n), t = sym_choice("to", n + 1); fill(a, n, 0); VV r = ptrs(a);
  if (sym_bool("one")) { t = f + 1; a.erase(a.begin() + f); } else { if (t < f) return; a.erase(a.begin() + f, a.begin() + t); }
  VASSERT(a.size() == n - (t - f), "size after removal"); for (unsigned i = 0; i < a.size(); i++) VASSERT(a[i] == r[i < f ? i : i + (t - f)], "the other items are kept in order"); 
  if (!a.empty()) { auto l = a.back(); a.pop_back(); VASSERT(a.size() == n - (t - f) - 1, "pop_back removes the last item"); } a.clear(); VASSERT(a.empty() && a.size() == 0, "cleared"); vs_reach("erased");
}
// typed views, conversion iterator, counting and finding
HARNESS h_view() {
  PV a; unsigned n = sym_choice("n", 4); bool isB[3]; VV all; for (unsigned i = 0; i < n; i++) { isB[i] = sym_bool("derived"); IP p; if (isB[i]) p.reset(new ItemB(sym_intd("v", 2), 0)); else p.reset(new Item(sym_intd("v", 2), 0)); a.push_back(p); all.push_back(p); }
  std::vector<std::shared_ptr<ItemB>> w; a.attachViewTo(w); unsigned j = 0;
  for (unsigned i = 0; i < n; i++) if (isB[i]) { VASSERT(j < w.size() && w[j] == all[i], "a typed view holds the items of that type in order"); j++; }
  VASSERT(j == w.size(), "a typed view holds no other items");
  j = 0; PV::conversion_iterator<ItemB> it(a.end()); for (it = a.begin(); it != a.end(); ++it) { VASSERT(j < w.size() && *it == w[j], "iteration over one type visits the items of that type in order"); j++; }
  VASSERT(j == w.size(), "iteration over one type visits all of them");
  bool ls = n && THROWS(([&] { PV::conversion_iterator<ItemB> e(a.end()); e = a.end(); *e; }())); VASSERT(!n || ls, "dereferencing the end is rejected");
  IP x(new Item(sym_intd("w", 2), 0)), e; unsigned c = 0; int first = -1; for (unsigned i = 0; i < n; i++) if (all[i]->v == x->v) { c++; if (first < 0) first = i; }
  VASSERT(a.count(x) == c, "count() counts equal items"); VASSERT(a.find(x) == (first < 0 ? a.end() : a.begin() + first), "find() finds the first equal item"); VASSERT(THROWS(a.count(e)) && THROWS(a.find(e)), "empty pointers are rejected");
  if (n) { auto cl = a.clone_at<Item>(n - 1); VASSERT(cl != all[n - 1] && cl->v == all[n - 1]->v, "clone_at() hands out a copy"); VASSERT((std::dynamic_pointer_cast<ItemB>(cl) != nullptr) == isB[n - 1], "of the same type"); bool oor = false; try { a.clone_at<Item>(n); } catch (std::out_of_range &) { oor = true; } VASSERT(oor, "out of range access is rejected"); }
  vs_reach("viewed");
}
HARNESS h_pod() {
  DV<int> a; unsigned n = sym_choice("n", 3), op = sym_choice("op", 7), pos = sym_choice("pos", n + 1), k = sym_choice("k", 4); std::vector<int> r; for (unsigned i = 0; i < n; i++) { r.push_back(sym_i32("v")); a.push_back(r[i]); }
  int x = sym_i32("x"); DV<int> orig(a);
  switch (op) {
    case 0: a.insert(a.begin() + pos, x); r.insert(r.begin() + pos, x); break;
    case 1: a.insert(a.begin() + pos, k, x); r.insert(r.begin() + pos, k, x); break;
    case 2: if (pos < n) { a.erase(a.begin() + pos); r.erase(r.begin() + pos); } break;
    case 3: a.erase(a.begin(), a.begin() + pos); r.erase(r.begin(), r.begin() + pos); break;
    case 4: a.resize(k, x); r.resize(k, x); break;
    case 5: a.resize(k); r.resize(k); break;
    case 6: { std::vector<int> o(k, x); a = o; r = o; break; }
  }
  VASSERT(a.size() == r.size() && a.empty() == r.empty(), "size"); unsigned c = 0; for (unsigned i = 0; i < r.size(); i++) { VASSERT(a[i] == r[i] && a.at(i) == r[i], "contents"); c += r[i] == x; }
  VASSERT(a.count(x) == c, "count()"); auto f = a.find(x); VASSERT((f == a.end()) == (c == 0) && (c == 0 || *f == x), "find()");
  std::vector<int> cp(2, 5); a.getDataCopy(cp); VASSERT(cp == r, "data copy"); VASSERT(orig.size() == n, "a copy is independent"); a.swap(cp); VASSERT(cp == r, "swap"); vs_reach("pod");
}
// deep-copy helpers
HARNESS h_copyptr() {
  std::shared_ptr<Item> f, t; bool hf = sym_bool("from"), ht = sym_bool("to"); if (hf) f = mk(1); if (ht) t = mk(2); IP t0 = t;
  copyCloneableSmartPointer(f, t); VASSERT((bool)t == hf, "an empty source empties the target"); if (hf) { VASSERT(t != f && t->v == f->v && t->tag == 1, "the target is an independent copy"); if (ht) VASSERT(t == t0, "an existing target object is loaded in place"); }
  int *a = nullptr, *b = nullptr; unsigned n = sym_choice("n", 3), m = sym_choice("m", 3); if (n) { a = new int[n]; for (unsigned i = 0; i < n; i++) a[i] = sym_i32("a"); } if (m) { b = new int[m]; for (unsigned i = 0; i < m; i++) b[i] = 0; } std::size_t sn = n, sm = m;
  copyArrays(a, b, sn, sm); VASSERT(sm == n && (b == nullptr) == (n == 0), "array sizes agree"); for (unsigned i = 0; i < n; i++) VASSERT(b[i] == a[i] && a != b, "array contents are copied"); delete[] a; delete[] b;
  vs_reach("copied");
}
HARNESS h_copycont() {
  unsigned n = sym_choice("n", 4), m = sym_choice("m", 4); VV f, t; for (unsigned i = 0; i < n; i++) f.push_back(mk(i)); for (unsigned i = 0; i < m; i++) t.push_back(mk(10 + i));
  copyCloneableSmartPointerContainer(f, t); PV a; for (auto &p : t) a.push_back(p); deep(a, f, vals(f));
  VV t2; for (unsigned i = 0; i < m; i++) t2.push_back(mk(10 + i)); copyCloneableSmartPointerContainer(f, t2); VASSERT(t2.size() == n, "size");
  std::vector<Item> of, ot; for (unsigned i = 0; i < n; i++) of.emplace_back(f[i]->v, i); for (unsigned i = 0; i < m; i++) ot.emplace_back(0., 0); copyCloneableObjectsContainer(of, ot); VASSERT(ot.size() == n, "size"); for (unsigned i = 0; i < n; i++) VASSERT(ot[i].v == f[i]->v && ot[i].tag == (int)i, "objects are copied");
  vs_reach("copied");
}
