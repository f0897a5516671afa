// GBufferPortT / GBrokerT: work items are routed to consumers and back to the port they came from
#include "item.hpp"
#include <exception>
#include <stdexcept>
#include <thread>
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GBufferPortT.hpp"
#include "courtier/GBrokerT.hpp"
using namespace Gem::Courtier;
struct W : public GProcessingContainerT<W, double> {
  int id = -1; int dummy = 0;
  W() : GProcessingContainerT<W, double>(1) {}
  W(const W &o) : GProcessingContainerT<W, double>(o), id(o.id) {}
  void process_() override { registerResult(0, 1.); }
};
using P = GBufferPortT<W>; using B = GBrokerT<W>;
static const std::chrono::duration<double> TO(0.001);
static std::shared_ptr<W> mk(int id, const std::shared_ptr<P> &p) { auto w = std::make_shared<W>(); w->id = id; w->setBufferId(p->getUniqueTag()); return w; }

struct Q { int a[8]; int h = 0, t = 0; bool empty() const { return h == t; } void push(int x) { a[t++] = x; } int pop() { return a[h++]; } };
// ---- buffer port on its own: both directions are FIFO, independent, nothing is lost
HARNESS h_port() {
  auto p = std::make_shared<P>(); Q raw, proc; int next = 0;
  std::shared_ptr<W> held[8]; 
  for (int k = 0; k < 4; k++) {
    unsigned op = sym_choice("op", 8); bool blk = op >= 4; op &= 3; std::shared_ptr<W> w;
    switch (op) {
      case 0: w = mk(next, p); held[next] = w; raw.push(next++); if (blk) p->push_raw(w); else VASSERT(p->push_raw(w, TO), "submission succeeds while there is space"); break;
      case 1: w = mk(next, p); held[next] = w; proc.push(next++); if (blk) p->push_processed(w); else VASSERT(p->push_processed(w, TO), "return succeeds while there is space"); break;
      case 2: case 3: {
        Q &q = op == 2 ? raw : proc; std::shared_ptr<W> r;
        if (blk && q.empty()) break;
        bool ok = true; if (blk) { if (op == 2) p->pop_raw(r); else p->pop_processed(r); } else ok = op == 2 ? p->pop_raw(r, TO) : p->pop_processed(r, TO);
        VASSERT(ok == !q.empty(), "retrieval succeeds exactly when an item is waiting");
        if (ok) { VASSERT(r && r == held[q.pop()], "items leave in the order they entered and are not copied"); vs_reach("popped"); }
      }
    }
  }
  VASSERT(!p->push_raw(std::shared_ptr<W>(), TO) && !p->push_processed(std::shared_ptr<W>(), TO), "empty pointers are not accepted");
  std::shared_ptr<W> none; p->push_raw(none); p->push_processed(none);
  while (!raw.empty()) { std::shared_ptr<W> r; VASSERT(p->pop_raw(r, TO) && r == held[raw.pop()], "all submitted items can be retrieved"); }
  while (!proc.empty()) { std::shared_ptr<W> r; VASSERT(p->pop_processed(r, TO) && r == held[proc.pop()], "all processed items can be retrieved"); }
  std::shared_ptr<W> r; VASSERT(!p->pop_raw(r, TO) && !p->pop_processed(r, TO), "nothing is left");
  vs_reach("done");
}
// ---- broker: sequences of operations
enum { MAXP = 3 };
template <int N> static void brokerSeq() {
  B b; std::shared_ptr<P> p[MAXP]; int np = 0; bool conn[MAXP], enr[MAXP]; Q raw[MAXP], proc[MAXP]; int next = 0; int owner[8]; std::shared_ptr<W> items[8];
  bool withCons[8] = {}; // handed out to a consumer, not yet returned
  auto enrol = [&]() {
    auto q = std::make_shared<P>(); b.enrol_buffer_port(q);
    for (int i = 0; i < np; i++) { if (!conn[i]) enr[i] = false; if (enr[i]) VASSERT(p[i]->getUniqueTag() != q->getUniqueTag(), "buffer ports have unique ids"); }
    p[np] = q; conn[np] = enr[np] = true; np++;
  };
  enrol();
  for (int k = 0; k < N; k++) {
    unsigned op = sym_choice("op", 6);
    if (op == 0) { if (np < MAXP) enrol(); continue; }
    if (op == 1) { unsigned i = sym_choice("port", np); p[i]->producer_disconnect(); conn[i] = false; VASSERT(!p[i]->is_connected_to_producer(), "disconnected"); continue; }
    if (op == 2) { unsigned i = sym_choice("port", np); auto w = mk(next, p[i]); items[next] = w; owner[next] = i; p[i]->push_raw(w); raw[i].push(next++); continue; }
    if (op == 3) {
      bool all = true, none = true; for (int i = 0; i < np; i++) if (enr[i]) { if (raw[i].empty()) all = false; else none = false; }
      std::shared_ptr<W> w; bool ok = true;
      if (all && sym_bool("block")) b.get(w); else ok = b.get(w, TO);
      VASSERT(ok == (bool)w, "get() reports whether an item was retrieved");
      if (all) VASSERT(ok, "an item is retrieved while all ports hold items");
      if (none) VASSERT(!ok, "no item is retrieved if there is none");
      if (ok) { int o = owner[w->id]; VASSERT(enr[o], "items come from enrolled ports"); VASSERT(!raw[o].empty() && items[raw[o].pop()] == w, "items are retrieved exactly once, in the order of their submission"); withCons[w->id] = true; vs_reach("got"); }
      continue;
    }
    if (op == 4) {
      int c = -1; for (int i = 0; i < next; i++) if (withCons[i]) { c = i; break; }
      if (c < 0) continue;
      bool thrown = false, ok = true;
      try { if (sym_bool("block")) b.put(items[c]); else ok = b.put(items[c], TO); } catch (const buffer_not_present &) { thrown = true; }
      VASSERT(thrown == !enr[owner[c]], "only items of removed ports are rejected");
      if (!thrown) { VASSERT(ok, "the item is returned"); proc[owner[c]].push(c); vs_reach("put"); } else vs_reach("rejected");
      withCons[c] = false; continue;
    }
    unsigned i = sym_choice("port", np); std::shared_ptr<W> w; bool ok = p[i]->pop_processed(w, TO);
    VASSERT(ok == !proc[i].empty(), "processed items arrive at the port they came from");
    if (ok) VASSERT(w == items[proc[i].pop()], "items are returned exactly once, in order");
  }
  for (int i = 0; i < np; i++) { std::shared_ptr<W> w; while (!proc[i].empty()) VASSERT(p[i]->pop_processed(w, TO) && w == items[proc[i].pop()], "returned items reach the port they came from"); VASSERT(!p[i]->pop_processed(w, TO), "no foreign items"); }
}
HARNESS h_broker() { brokerSeq<5>(); }
// ---- every port is served in turn, whatever the load
HARNESS h_turn() {
  B b; unsigned np = 1 + sym_choice("np", 3); std::shared_ptr<P> p[3]; int id = 0; unsigned before = sym_choice("before", 4), late = sym_choice("late", 2);
  auto fill = [&](unsigned i) { for (int k = 0; k < 4; k++) p[i]->push_raw(mk(i, p[i])); };
  for (unsigned i = 0; i < np - late * (np > 1); i++) { p[i] = std::make_shared<P>(); b.enrol_buffer_port(p[i]); fill(i); }
  std::shared_ptr<W> w; for (unsigned k = 0; k < before; k++) VASSERT(b.get(w, TO), "items available");
  if (np > 1 && late) { p[np - 1] = std::make_shared<P>(); b.enrol_buffer_port(p[np - 1]); fill(np - 1); }
  int drop = (int)sym_choice("drop", 4); if (drop < (int)np) { p[drop]->producer_disconnect(); auto q = std::make_shared<P>(); b.enrol_buffer_port(q); p[drop] = q; fill(drop); }
  unsigned more = sym_choice("more", 2); for (unsigned k = 0; k < more; k++) { auto pw = w; b.get(w, TO); }
  int cnt[3] = {}; for (unsigned k = 0; k < np; k++) { w.reset(); b.get(w, TO); if (w) { VASSERT(w->id >= 0 && w->id < (int)np, "known port"); cnt[w->id]++; } }
  for (unsigned i = 0; i < np; i++) { std::shared_ptr<W> x; VASSERT(cnt[i] == 1 || (cnt[i] == 0 && !p[i]->pop_raw(x, TO)), "each port holding items is served once in as many requests as there are ports"); }
  vs_reach("done");
}
// ---- ids stay unique when the counter wraps around
HARNESS h_ids() {
  B b; uint32_t s = sym_u32("start"); std::shared_ptr<P> p[4]; unsigned n = 3;
  p[0] = std::make_shared<P>(); b.m_current_bufferport_id.store(s); b.enrol_buffer_port(p[0]);
  // a complete turn of the counter may lie between two registrations
  for (unsigned i = 1; i < n; i++) { unsigned a = sym_choice("again", i + 1); if (a) { b.m_current_bufferport_id.store(p[a - 1]->getUniqueTag()); vs_reach("again"); } p[i] = std::make_shared<P>(); b.enrol_buffer_port(p[i]); for (unsigned j = 0; j < i; j++) VASSERT(p[i]->getUniqueTag() != p[j]->getUniqueTag(), "buffer ports have unique ids"); }
  for (unsigned i = 0; i < n; i++) { auto w = mk(i, p[i]); b.put(w); std::shared_ptr<W> r; VASSERT(p[i]->pop_processed(r, TO) && r == w, "the item returns to its own port"); }
  vs_reach("done");
}
// ---- consumers: enrolment, capability, finalization
struct Cons : public GBaseConsumerT<W> {
  std::string nm; bool full; int started = 0; int *stopcnt;
  Cons(const char *n, bool f, int *s) : nm(n), full(f), stopcnt(s) {}
  void shutdown_() override { ++*stopcnt; GBaseConsumerT<W>::shutdown_(); }
  void addCLOptions_(boost::program_options::options_description &, boost::program_options::options_description &) override {}
  void actOnCLOptions_(const boost::program_options::variables_map &) override {}
  std::string getConsumerName_() const override { return nm; }
  std::string getMnemonic_() const override { return nm; }
  void async_startProcessing_() override { started++; }
  std::size_t getNProcessingUnitsEstimate_(bool &e) const override { e = true; return 1; }
  bool capableOfFullReturn_() const override { return full; }
};
HARNESS h_consumers() {
  int stops[3] = {}; std::shared_ptr<Cons> c[3]; bool f[3]; unsigned n = sym_choice("n", 4); unsigned same = sym_choice("same", 2);
  static const char *names[3] = {"a", "b", "c"};
  for (unsigned i = 0; i < 3; i++) { f[i] = sym_bool("full"); c[i] = std::make_shared<Cons>(i == 2 && same ? names[0] : names[i], f[i], &stops[i]); }
  std::shared_ptr<P> p = std::make_shared<P>(), q = std::make_shared<P>();
  {
    B b; VASSERT(!b.hasConsumers(), "no consumers yet");
    bool single = sym_choice("single", 2), thrown = false; bool early = b.enrol_buffer_port(p);
    VASSERT(!early, "without consumers no full return can be assumed");
    std::vector<std::shared_ptr<GBaseConsumerT<W>>> v; for (unsigned i = 0; i < n; i++) v.push_back(c[i]);
    unsigned used = 0; bool exp = true; bool in[3] = {};
    if (single) { if (n) { b.enrol_consumer(c[0]); in[0] = true; } }
    else { try { b.enrol_consumer_vec(v); } catch (const gemfony_exception &) { thrown = true; } for (unsigned i = 0; i < n; i++) if (!(i == 2 && same)) in[i] = true; VASSERT(thrown == (n == 0), "at least one consumer is required"); }
    for (unsigned i = 0; i < 3; i++) if (in[i]) { exp = exp && f[i]; used++; }
    for (unsigned i = 0; i < 3; i++) VASSERT(c[i]->started == (in[i] ? 1 : 0), "each enrolled consumer is started once");
    if (used) {
      VASSERT(b.hasConsumers(), "consumers present"); bool cap = b.capableOfFullReturn();
      VASSERT(cap == exp, "full return requires that all consumers are capable of it");
      VASSERT(b.enrol_buffer_port(q) == cap, "producers learn whether all items return");
      // further enrolment is ignored
      auto x = std::make_shared<Cons>("x", !exp, &stops[0]); if (sym_bool("vec")) b.enrol_consumer_vec({x}); else b.enrol_consumer(x);
      VASSERT(x->started == 0 && b.capableOfFullReturn() == exp, "consumers may be enrolled only once");
      vs_reach("enrolled");
    }
    unsigned nf = sym_choice("nf", 3); for (unsigned k = 0; k < nf; k++) b.finalize();
    if (nf) { std::shared_ptr<W> w; VASSERT(!b.get(w, TO) && !w, "no items after finalization"); bool bnp = false; try { b.put(mk(0, p)); } catch (const buffer_not_present &) { bnp = true; } VASSERT(bnp, "ports are gone"); }
    if (nf) for (unsigned i = 0; i < 3; i++) VASSERT(stops[i] == (in[i] ? 1 : 0), "consumers are shut down once");
    for (unsigned i = 0; i < 3; i++) VASSERT(c[i]->started <= 1, "started once");
    f[0] = in[0]; f[1] = in[1]; f[2] = in[2];
  }
  for (unsigned i = 0; i < 3; i++) VASSERT(stops[i] == (f[i] ? 1 : 0), "consumers are shut down by the end of the broker's life");
  vs_reach("done");
}
// ---- concurrent producers and consumers
HARNESS h_conc() {
  B b; auto p0 = std::make_shared<P>(), p1 = std::make_shared<P>(); b.enrol_buffer_port(p0); b.enrol_buffer_port(p1);
  std::shared_ptr<W> i0 = mk(0, p0), i1 = mk(1, p1), i2 = mk(2, p1);
  auto consume = [&](int n) { for (int k = 0; k < n; k++) { std::shared_ptr<W> w; b.get(w); VASSERT(w, "an item is handed out"); b.put(w); } };
  std::thread c1(consume, 1), c2(consume, 1);
  p0->push_raw(i0); p1->push_raw(i1);
  std::shared_ptr<W> r0, r1; p0->pop_processed(r0); p1->pop_processed(r1);
  VASSERT(r0 == i0 && r1 == i1, "each producer gets back its own items");
  c1.join(); c2.join(); vs_reach("done");
}
HARNESS h_wait_consumer() {
  B b; int st = 0; bool f = sym_bool("full"); bool r = !f; std::thread t([&] { r = b.capableOfFullReturn(); });
  auto c = std::make_shared<Cons>("a", f, &st); if (sym_choice("vec", 2)) b.enrol_consumer_vec({c}); else b.enrol_consumer(c);
  t.join(); VASSERT(r == f, "producers wait for consumers and learn about their capabilities"); vs_reach("done");
}
HARNESS h_first() {
  auto p = std::make_shared<P>(); auto w = mk(0, p); bool to = sym_choice("timed", 2); std::atomic<int> got{0};
  std::thread t([&] { p->getFirstRetrievalTime(); VASSERT(got.load() >= 1, "the first retrieval time is only available after a retrieval"); });
  p->push_raw(w); std::shared_ptr<W> r; got = 1; if (to) p->pop_raw(r, TO); else p->pop_raw(r); 
  if (!r) p->pop_raw(r);
  t.join(); vs_reach("done");
}
