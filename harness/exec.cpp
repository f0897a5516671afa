// GSerialExecutorT / GMTExecutorT / GBrokerExecutorT: submission and collection of work items
#include "item.hpp"
#include <exception>
#include <stdexcept>
#include <thread>
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GExecutorT.hpp"
using namespace Gem::Courtier;
using PS = processingStatus;
struct W : public GProcessingContainerT<W, double> {
  int id = -1, beh = 0, runs = 0; double a = 0; int dummy = 0;
  W() : GProcessingContainerT<W, double>(1) {}
  W(const W &o) : GProcessingContainerT<W, double>(o), id(o.id), beh(o.beh), runs(o.runs), a(o.a) {}
  void process_() override { runs++; registerResult(0, a); if (beh == 1) throw std::runtime_error("boom"); if (beh == 2) force_set_error("flag"); }
};
using V = std::vector<std::shared_ptr<W>>;
static std::shared_ptr<W> mk(int id, int beh, double a, bool due = true) { auto w = std::make_shared<W>(); w->id = id; w->beh = beh; w->a = a; if (due) w->mark_as_due_for_processing(); return w; }
static PS expd(int beh) { return beh == 0 ? PS::PROCESSED : beh == 1 ? PS::EXCEPTION_CAUGHT : PS::ERROR_FLAGGED; }

template <class E> static void iterations(E &ex, int n, int iters, bool bad, unsigned nb = 3, bool lean = false) {
  ITERATION_COUNTER_TYPE it = 0;
  for (int k = 0; k < iters; k++) {
    V v; int st[4], beh[4]; double a[4]; int due = 0, err = 0; bool refused = false;
    for (int i = 0; i < n; i++) {
      st[i] = lean ? 0 : sym_choice("status", bad ? 4 : 3); beh[i] = st[i] ? 0 : sym_choice("behaviour", nb); a[i] = sym_fin("a");
      v.push_back(mk(i, beh[i], a[i], st[i] != 1)); 
      if (st[i] == 2) { v[i]->process(); v[i]->runs = 0; } // already processed
      if (st[i] == 3) { v[i]->beh = 1; try { v[i]->process(); } catch (const g_processing_exception &) {} v[i]->runs = 0; refused = true; } // carries errors
      if (!st[i]) { due++; if (beh[i]) err++; }
    }
    auto before = v; bool extc = !lean && sym_choice("external", 2), thrown = false; ITERATION_COUNTER_TYPE e = extc ? (ITERATION_COUNTER_TYPE)sym_choice("ext", k ? 3 : 2) : 0; executor_status_t s{false, false};
    try { s = ex.workOn(v, k ? false : lean || sym_choice("resubmit", 2), std::make_tuple(e, extc)); } catch (const gemfony_exception &) { thrown = true; }
    bool badit = extc && e < it;
    VASSERT(thrown == (badit || refused), "items in a wrong state and decreasing iteration counters are refused, nothing else");
    if (thrown) return;
    if (extc) it = e;
    VASSERT(s.is_complete, "all items are processed"); VASSERT(s.has_errors == (err > 0), "errors are reported");
    VASSERT(v.size() == before.size(), "no items are added or removed");
    for (int i = 0; i < n; i++) {
      VASSERT(v[i] == before[i], "items stay in their positions"); VASSERT(v[i]->runs == (st[i] == 0 ? 1 : 0), "each item due for processing is processed exactly once");
      VASSERT(v[i]->getProcessingStatus() == (st[i] == 0 ? expd(beh[i]) : st[i] == 1 ? PS::DO_IGNORE : PS::PROCESSED), "the status reflects what happened");
      if (!st[i]) { VASSERT(v[i]->getIterationCounter() == it && v[i]->getCollectionPosition() == (COLLECTION_POSITION_TYPE)i, "items carry iteration and position"); if (!beh[i]) VASSERT(vs_bits(v[i]->getStoredResult()) == vs_bits(a[i]), "results are available"); }
    }
    VASSERT((int)ex.getNReturnedLast() == due && ex.getNNotReturnedLast() == 0 && (int)ex.getNErroneousWorkItems() == err && ex.getNOldWorkItems() == 0, "the statistics add up");
    VASSERT(ex.getOldWorkItems().empty(), "there are no items from earlier iterations");
    it++; vs_reach("iteration");
  }
  vs_reach("done");
}
HARNESS h_serial() { GSerialExecutorT<W> ex; ex.init(); iterations(ex, 2, 2, true, 2); ex.finalize(); }
HARNESS h_serial3() { GSerialExecutorT<W> ex; ex.init(); iterations(ex, 3, 1, true); ex.finalize(); }
HARNESS h_mt() { GMTExecutorT<W> ex(2); ex.init(); iterations(ex, 2, 1, false, 3, true); ex.finalize(); }
HARNESS h_mt2() { GMTExecutorT<W> ex(2); ex.init(); iterations(ex, 1, 2, false, 2, true); ex.finalize(); }
HARNESS h_mt_rel() { h_mt(); }
HARNESS h_serial_rel() { h_serial3(); }
// a second, concurrent call is refused and does not disturb the first one
HARNESS h_busy() {
  GSerialExecutorT<W> ex; ex.init(); V v{mk(0, 0, 1.)}, w{mk(1, 0, 2.)}; bool t1 = false, t2 = false; executor_status_t s1{}, s2{};
  std::thread t([&] { try { s1 = ex.workOn(v); } catch (const gemfony_exception &) { t1 = true; } });
  try { s2 = ex.workOn(w); } catch (const gemfony_exception &) { t2 = true; }
  t.join(); VASSERT(!(t1 && t2), "at least one call succeeds"); 
  VASSERT(v[0]->runs == (t1 ? 0 : 1) && w[0]->runs == (t2 ? 0 : 1), "items are processed by successful calls only");
  if (t1 || t2) vs_reach("refused"); vs_reach("done");
}

// ---- broker executor. A consumer thread takes all submitted items and returns them as scripted.
struct Dummy : public GBaseConsumerT<W> {
  bool full; explicit Dummy(bool f) : full(f) {}
  void addCLOptions_(boost::program_options::options_description &, boost::program_options::options_description &) override {}
  void actOnCLOptions_(const boost::program_options::variables_map &) override {}
  std::string getConsumerName_() const override { return "d"; }
  std::string getMnemonic_() const override { return "d"; }
  void async_startProcessing_() override {}
  std::size_t getNProcessingUnitsEstimate_(bool &e) const override { e = true; return 1; }
  bool capableOfFullReturn_() const override { return full; }
};
static std::shared_ptr<W> work(std::shared_ptr<W> w, bool copy) { auto r = copy ? std::make_shared<W>(*w) : w; try { r->process(); } catch (const g_processing_exception &) {} return r; }
// all items return, in any order, as the same objects or as copies (as with networked clients), possibly twice
HARNESS h_brk_full() {
  auto b = GBROKER(W); b->enrol_consumer(std::make_shared<Dummy>(true)); GBrokerExecutorT<W> ex; ex.init();
  enum { N = 3 }; V v; int beh[N], st[N]; double a[N]; int due = 0, err = 0;
  unsigned perm = sym_choice("perm", 6); bool copy = sym_choice("copy", 2), twice = copy && sym_choice("twice", 2);
  for (int i = 0; i < N; i++) { st[i] = i == 1 ? (int)sym_choice("st", 2) : 0; beh[i] = st[i] ? 0 : (i == 0 ? sym_choice("beh", 2) : 0); a[i] = sym_fin("a"); v.push_back(mk(i, beh[i], a[i], !st[i])); if (!st[i]) due++; if (beh[i]) err++; }
  auto before = v;
  std::thread t([&] {
    V x; for (int i = 0; i < due; i++) { std::shared_ptr<W> w; b->get(w); x.push_back(w); }
    static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    bool first = true; for (int i = 0; i < 3; i++) { int k = P[perm][i]; if (k >= due) continue; auto r = work(x[k], copy); b->put(r); if (first && twice) b->put(copy ? std::make_shared<W>(*r) : r); first = false; }
  });
  auto s = ex.workOn(v); t.join();
  VASSERT(s.is_complete, "all items are waited for");
  VASSERT(v.size() == N, "no items are added or removed");
  for (int i = 0; i < N; i++) {
    VASSERT(v[i]->id == i, "returned items are stored in the position they were submitted from");
    if (st[i]) { VASSERT(v[i] == before[i] && v[i]->is_ignored() && v[i]->runs == 0, "other items are not touched"); continue; }
    VASSERT(v[i]->getProcessingStatus() == expd(beh[i]) && v[i]->runs == 1, "items are processed once"); if (!beh[i]) VASSERT(vs_bits(v[i]->getStoredResult()) == vs_bits(a[i]), "results are available");
  }
  VASSERT(s.has_errors == (err > 0), "errors are reported"); VASSERT((int)ex.getNReturnedLast() == due && ex.getNNotReturnedLast() == 0 && (int)ex.getNErroneousWorkItems() == err && ex.getNOldWorkItems() == 0, "the statistics add up");
  ex.finalize(); vs_reach("done");
}
// partial return: work continues once the requested percentage of items has returned; late items are handed out in the next iteration
HARNESS h_brk_partial() {
  auto b = GBROKER(W); b->enrol_consumer(std::make_shared<Dummy>(true)); GBrokerExecutorT<W> ex; ex.init();
  enum { N = 3 }; V v; for (int i = 0; i < N; i++) v.push_back(mk(i, 0, i + 1.)); V keep = v;
  unsigned k = 1 + sym_choice("k", 3); uint16_t pc = (uint16_t)sym_range("percentage", 1, 100); VASSUME(100 * k >= (unsigned)pc * N); ex.setMinPartialReturnPercentage(pc);
  V late;
  std::thread t([&] { for (unsigned i = 0; i < N; i++) { std::shared_ptr<W> w; b->get(w); if (i < k) b->put(work(w, true)); else late.push_back(work(w, true)); } });
  auto s = ex.workOn(v); t.join();
  unsigned got = 0; for (int i = 0; i < N; i++) if (v[i]->is_processed()) got++; else VASSERT(v[i] == keep[i] && v[i]->is_due_for_processing(), "missing items stay due for processing");
  VASSERT(got <= k && 100 * got >= (unsigned)pc * N, "the requested percentage of items is waited for"); VASSERT(s.is_complete == (got == N), "incomplete returns are reported");
  VASSERT(ex.getNNotReturnedLast() == N - got && ex.getNReturnedLast() == got, "the statistics add up");
  // next iteration: the late items arrive first (in reverse order, one of them twice, one of them erroneous)
  unsigned nl = late.size(); bool spoil = nl > 1 && sym_choice("spoil", 2); if (spoil) { late[0]->beh = 1; late[0]->mark_as_due_for_processing(); try { late[0]->process(); } catch (const g_processing_exception &) {} }
  for (unsigned i = nl; i > 0; i--) b->put(late[i - 1]); if (nl && sym_choice("dup", 2)) b->put(std::make_shared<W>(*late[nl - 1]));
  V u; for (int i = 0; i < 2; i++) u.push_back(mk(10 + i, 0, 5.)); ex.setMinPartialReturnPercentage(0);
  std::thread t2([&] { for (int i = 0; i < 2; i++) { std::shared_ptr<W> w; b->get(w); b->put(work(w, true)); } });
  auto s2 = ex.workOn(u); t2.join(); VASSERT(s2.is_complete && !s2.has_errors, "items of earlier iterations do not count as items of this one");
  for (int i = 0; i < 2; i++) VASSERT(u[i]->id == 10 + i && u[i]->is_processed(), "items of earlier iterations do not replace current ones");
  // all late items, plus those of the first iteration not waited for, are available, sorted and without duplicates
  V old = ex.getOldWorkItems(); unsigned expect = N - got - (spoil ? 1 : 0); VASSERT(old.size() == expect && ex.getNOldWorkItems() == expect, "late items are handed out once");
  int last = -1; for (auto &o : old) { VASSERT(o->is_processed() && o->id > last && o->id < N, "late items are sorted by position"); last = o->id; }
  ex.finalize(); vs_reach("done"); if (spoil) vs_reach("spoiled");
}
// nothing to do
HARNESS h_brk_none() {
  auto b = GBROKER(W); bool full = sym_choice("full", 2), first = sym_choice("first", 2); b->enrol_consumer(std::make_shared<Dummy>(full)); GBrokerExecutorT<W> ex; if (!full) { unsigned wf = sym_choice("wf", 3); ex.setWaitFactor(wf == 0 ? 0. : wf == 1 ? 2. : -1.); }; ex.init();
  if (first) { V u{mk(0, 0, 1.)}; std::thread t([&] { std::shared_ptr<W> w; b->get(w); b->put(work(w, false)); }); ex.workOn(u); t.join(); VASSERT(u[0]->is_processed(), "processed"); }
  V v; unsigned n = sym_choice("n", 2); for (unsigned i = 0; i < n; i++) v.push_back(mk(i, 0, 1., false));
  auto s = ex.workOn(v); VASSERT(s.is_complete && !s.has_errors, "nothing to wait for if no item is due for processing"); VASSERT(ex.getNReturnedLast() == 0 && ex.getNNotReturnedLast() == 0, "the statistics add up");
  V u{mk(0, 0, 1.)}; std::thread t([&] { std::shared_ptr<W> w; b->get(w); b->put(work(w, false)); }); ex.workOn(u); t.join(); VASSERT(u[0]->is_processed(), "later work is not affected");
  ex.finalize(); vs_reach("done");
}
// consumers without full return: unprocessed items are reported as missing or resubmitted
HARNESS h_brk_timeout() {
  auto b = GBROKER(W); b->enrol_consumer(std::make_shared<Dummy>(false)); GBrokerExecutorT<W> ex; ex.init();
  bool prior = sym_choice("prior", 2); std::shared_ptr<W> oldItem; // an item of an earlier iteration arrives before the current ones
  if (prior) { V u{mk(0, 0, 1.), mk(1, 0, 1.)}; std::thread t0([&] { std::shared_ptr<W> w; b->get(w); b->put(work(w, true)); b->get(w); oldItem = work(w, true); }); auto s0 = ex.workOn(u); t0.join(); VASSERT(!s0.is_complete && ex.getNNotReturnedLast() == 1, "missing items are counted"); b->put(oldItem); }
  bool resub = sym_choice("resubmit", 2); ex.setMaxResubmissions(2);
  V v; for (int i = 0; i < 2; i++) v.push_back(mk(i, 0, i + 1.)); unsigned lost = sym_choice("lost", 3); // item that gets lost on first submission; 2: none
  std::atomic<bool> stop{false}; 
  std::thread t([&] { std::shared_ptr<W> w; for (int i = 0; i < 2; i++) { b->get(w); if ((int)lost != w->id) b->put(work(w, true)); }
    if (resub && lost < 2) { b->get(w); VASSERT(w->id == (int)lost, "only missing items are submitted again"); VASSERT(w->getResubmissionCounter() == 1, "resubmitted items are marked"); b->put(work(w, true)); } });
  auto s = ex.workOn(v, resub);
  t.join();
  V old = ex.getOldWorkItems(); VASSERT(old.size() == (prior ? 1 : 0) && (!prior || old[0] == oldItem), "late items are handed out");
  bool p0 = v[0]->is_processed(), p1 = v[1]->is_processed(); VASSERT(v[0]->id == 0 && v[1]->id == 1, "positions"); VASSERT(s.is_complete == (p0 && p1), "incomplete returns are reported");
  if (!resub && lost < 2) VASSERT(!(lost ? p1 : p0), "lost");
  VASSERT(ex.getNNotReturnedLast() == (unsigned)(!p0 + !p1), "missing items are counted");
  ex.finalize(); vs_reach("done");
}
// copies of executors keep the settings, comparisons notice differences; the sources keep theirs
template <class E, class S, class G> static void copies(S set, G same) {
  using B = GBaseExecutorT<W>; E a, b; set(a, 0); set(b, 1); std::size_t ra = sym_u32("resubmissions"), rb = sym_u32("other resubmissions"); a.setMaxResubmissions(ra); b.setMaxResubmissions(rb);
  auto differs = [](const B &x, const B &y, Gem::Common::expectation e) { bool t = false; try { x.compare(y, e, 0.); } catch (const std::exception &) { t = true; } return t; };
  bool eq = same(a, b) && ra == rb; VASSERT(differs(a, b, Gem::Common::expectation::EQUALITY) == !eq && differs(a, b, Gem::Common::expectation::INEQUALITY) == eq, "comparisons notice differences");
  std::shared_ptr<B> c; unsigned w = sym_choice("way", 3); if (w == 0) c = std::make_shared<E>(a); else if (w == 1) c = static_cast<B &>(a).template clone<E>(); else { auto d = std::make_shared<E>(b); static_cast<B &>(*d).load(static_cast<const B &>(a)); c = d; }
  auto e = std::dynamic_pointer_cast<E>(c); VASSERT(bool(e), "copies have the type of the original"); if (!e) return; VASSERT(same(*e, a) && e->getMaxResubmissions() == ra && a.getMaxResubmissions() == ra, "copies have the settings of the original"); VASSERT(!differs(*e, a, Gem::Common::expectation::EQUALITY), "copies are equal");
  e->setMaxResubmissions(rb); VASSERT(a.getMaxResubmissions() == ra, "copies are independent"); vs_reach("copied");
}
HARNESS h_copies() {
  unsigned k = sym_choice("kind", 3); 
  if (k == 0) copies<GSerialExecutorT<W>>([](auto &, int) {}, [](auto &, auto &) { return true; });
  else if (k == 1) copies<GMTExecutorT<W>>([](auto &x, int) { std::uint16_t n = (std::uint16_t)(sym_u8("threads") & 15); x.setNThreads(n); VASSERT(x.getNThreads() == (n ? n : Gem::Courtier::DEFAULTNSTDTHREADS), "zero threads mean the default"); }, [](auto &x, auto &y) { return x.getNThreads() == y.getNThreads(); });
  else copies<GBrokerExecutorT<W>>([](auto &x, int) { x.setWaitFactor(sym_fin("wait factor")); std::uint16_t p = (std::uint16_t)(sym_u8("percentage")), o = x.getMinPartialReturnPercentage(); bool r = false; try { x.setMinPartialReturnPercentage(p); } catch (const gemfony_exception &) { r = true; } VASSERT(r == (p > 100) && x.getMinPartialReturnPercentage() == (r ? o : p), "percentages above 100 are refused"); }, [](auto &x, auto &y) { return x.getWaitFactor() == y.getWaitFactor() && x.getMinPartialReturnPercentage() == y.getMinPartialReturnPercentage(); });
}
