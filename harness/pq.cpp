// GFixedSizePriorityQueueT: after any sequence of additions the queue holds the best items seen, in order
#include "item.hpp"
#include "common/GFixedSizePriorityQueueT.hpp"
#include <vector>
using namespace Gem::Common;
struct PQ : public GFixedSizePriorityQueueT<Item> {
  using B = GFixedSizePriorityQueueT<Item>;
  PQ(std::size_t n, sortOrder o) : B(n, o) {}
  PQ(const PQ &) = default; PQ(PQ &&) = default; PQ &operator=(const PQ &) = default; PQ &operator=(PQ &&) = default;
  double evaluation(const std::shared_ptr<Item> &p) const override { return p->v; }
  std::string id(const std::shared_ptr<Item> &p) const override { return std::string(1, (char)('a' + p->tag)); }
  B *clone_() const override { return new PQ(*this); }
};
typedef std::shared_ptr<Item> IP;
// reference: keep the items sorted by insertion into a plain array of values
struct Ref { double v[8]; int n = 0; };
static void refAdd(Ref &r, double x, bool lower, std::size_t mx) {
  int p = r.n; while (p > 0 && (lower ? x < r.v[p - 1] : x > r.v[p - 1])) { r.v[p] = r.v[p - 1]; p--; }
  r.v[p] = x; r.n++; if (mx && (std::size_t)r.n > mx) r.n = (int)mx;
}
static void same(PQ &q, Ref &r) {
  VASSERT((int)q.size() == r.n, "the queue holds as many of the best items as fit");
  auto w = q.toVector();
  for (int i = 0; i < r.n; i++) VASSERT(w[i]->v == r.v[i], "the queue holds exactly the best items seen so far, best first");
  if (r.n) { VASSERT(q.best()->v == r.v[0], "best() is the best item"); VASSERT(q.worst()->v == r.v[r.n - 1], "worst() is the worst item kept"); }
}
template <int N> static void single() {
  bool lower = sym_bool("lower"); std::size_t mx = sym_choice("max", 3);
  PQ q(mx, lower ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER); Ref r;
  for (int i = 0; i < N; i++) { IP p(new Item(sym_fin("v"), i)); bool cl = sym_bool("clone"); q.add(p, cl); refAdd(r, p->v, lower, mx); }
  same(q, r); vs_reach("checked");
}
HARNESS h_pq_single() { single<3>(); }
HARNESS h_pq_single_t() { single<4>(); }
// batches on top of existing contents, possibly replacing them
template <int N0, int N1> static void batch() {
  bool lower = sym_bool("lower"); std::size_t mx = 1 + sym_choice("max", 3); bool repl = sym_bool("replace");
  PQ q(mx, lower ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER); Ref r;
  for (int i = 0; i < N0; i++) { IP p(new Item(sym_fin("v"), i)); q.add(p, true); if (!repl) refAdd(r, p->v, lower, mx); }
  std::vector<IP> b;
  for (int i = 0; i < N1; i++) { IP p(new Item(sym_fin("w"), N0 + i)); b.push_back(p); refAdd(r, p->v, lower, mx); }
  q.add(b, sym_bool("clone"), repl);
  same(q, r); vs_reach(repl ? "replaced" : "added");
}
HARNESS h_pq_batch() { batch<1, 3>(); }
HARNESS h_pq_batch0() { batch<0, 3>(); }
HARNESS h_pq_batch_full() { batch<2, 2>(); }
HARNESS h_pq_batch_t() { batch<2, 3>(); }
// the same item (same id) never occupies two places; pop() hands out items from best to worst
HARNESS h_pq_dup() {
  bool lower = sym_bool("lower");
  PQ q(3, lower ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER);
  double v[3]; for (int i = 0; i < 3; i++) v[i] = sym_fin("v");
  unsigned a = sym_choice("a", 3), b = sym_choice("b", 3), c = sym_choice("c", 3);
  unsigned ids[3] = {a, b, c}; bool has[3] = {};
  for (int i = 0; i < 3; i++) { q.add(IP(new Item(v[ids[i]], ids[i])), true); has[ids[i]] = true; }
  int n = has[0] + has[1] + has[2];
  VASSERT((int)q.size() == n, "one entry per id");
  double last = 0; bool seen[3] = {};
  for (int i = 0; i < n; i++) { IP p = q.pop(); VASSERT(!seen[p->tag] && has[p->tag], "every id is handed out once"); seen[p->tag] = true; if (i) VASSERT(lower ? last <= p->v : last >= p->v, "pop() goes from best to worst"); last = p->v; }
  VASSERT(q.empty(), "all items popped");
  bool thrown = false; try { q.pop(); } catch (gemfony_exception &) { thrown = true; } VASSERT(thrown, "pop() on an empty queue throws");
  thrown = false; try { q.best(); } catch (gemfony_exception &) { thrown = true; } VASSERT(thrown, "best() on an empty queue throws");
  vs_reach("popped");
}
// shrinking keeps the best; clones are independent of the original; copies are deep
HARNESS h_pq_resize() {
  bool lower = sym_bool("lower");
  PQ q(3, lower ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER); Ref r;
  IP keep[3]; for (int i = 0; i < 3; i++) { keep[i] = IP(new Item(sym_fin("v"), i)); q.add(keep[i], true); refAdd(r, keep[i]->v, lower, 3); }
  PQ cpy(q);
  std::size_t m = sym_choice("newmax", 5);
  q.setMaxSize(m); VASSERT(q.getMaxSize() == m, "maximum size is stored");
  Ref r2 = r; if (m && r2.n > (int)m) r2.n = (int)m;
  same(q, r2);
  for (int i = 0; i < 3; i++) keep[i]->v = 0; // clones do not follow the originals
  same(q, r2);
  q.best()->v += 1; same(cpy, r); // a copied queue owns its items
  vs_reach("resized");
}
// copies of all kinds hold the same items in the same order, follow the same rules and are independent
HARNESS h_pq_copy() {
  bool lower = sym_bool("lower"); auto so = [](bool l) { return l ? sortOrder::LOWERISBETTER : sortOrder::HIGHERISBETTER; }; std::size_t mx = sym_choice("max", 3), n = sym_choice("items", 3), m = sym_choice("old items", 3);
  PQ q(mx, so(lower)), t(1 + sym_choice("other max", 2), so(sym_bool("other order"))); Ref r, e; for (std::size_t i = 0; i < n; i++) { IP p(new Item(sym_fin("v"), (int)i)); q.add(p, true); refAdd(r, p->v, lower, mx); } for (std::size_t i = 0; i < m; i++) t.add(IP(new Item(5. + i, 10 + (int)i)), true);
  unsigned w = sym_choice("way", 7); std::shared_ptr<PQ::B> o; bool moved = w == 2 || w == 3;
  switch (w) { case 0: o = std::make_shared<PQ>(q); break; case 1: t = q; break; case 2: o = std::make_shared<PQ>(std::move(q)); break; case 3: static_cast<PQ::B &>(t) = static_cast<PQ::B &&>(q); break; case 4: o = static_cast<PQ::B &>(q).clone(); break; case 5: static_cast<PQ::B &>(t).load(q); break; default: static_cast<PQ::B &>(t) = static_cast<PQ::B &>(q); }
  PQ &c = o ? static_cast<PQ &>(*o) : t; same(c, r); VASSERT(c.getMaxSize() == mx && c.getSortOrder() == so(lower), "settings are copied"); if (moved) VASSERT(q.empty(), "moved queues are empty"); else same(q, r);
  Ref f = r; IP p(new Item(sym_fin("w"), 7)); c.add(p, true); refAdd(f, p->v, lower, mx); same(c, f); if (!moved) { same(q, r); if (r.n) { c.best()->v += 1; same(q, r); } c.clear(); same(q, r); } vs_reach(moved ? "moved" : "copied");
}
