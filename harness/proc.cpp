// GProcessingContainerT / GCommandContainerT: outcome of processing work items
#include "item.hpp"
#include <exception>
#include <stdexcept>
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GCommandContainerT.hpp"
using namespace Gem::Courtier;
using PS = processingStatus;
enum Beh { OK, THROW_GEM, THROW_STD, THROW_INT, FLAG, FLAG_THROW, FLAG_EMPTY, NBEH };
struct W;
static int g_log[8]; static int g_n;
static void note(int k) { if (g_n < 8) g_log[g_n] = k; g_n++; }
struct W : public GProcessingContainerT<W, double> {
  int beh = OK; double a = 0, b = 0; int dummy = 0;
  explicit W(std::size_t n) : GProcessingContainerT<W, double>(n) {}
  explicit W(const W &o) : GProcessingContainerT<W, double>(o), beh(o.beh), a(o.a), b(o.b) {}
  W &operator=(const W &o) { GProcessingContainerT<W, double>::operator=(o); beh = o.beh; a = o.a; b = o.b; return *this; }
  void act(int be) {
    switch (be) {
      case THROW_GEM: throw gemfony_exception("gem-text");
      case THROW_STD: throw std::runtime_error("std-text");
      case THROW_INT: throw 5;
      case FLAG: force_set_error("flag-text"); break;
      case FLAG_THROW: force_set_error("flag-text"); throw std::runtime_error("std-text");
      case FLAG_EMPTY: force_set_error(""); break;
      default: break;
    }
  }
  void put(double x, double y) { registerResult(0, x); if (getNStoredResults() > 1) registerResult(1, y); }
  void process_() override { note(2); put(a, b); act(beh); }
};
struct Proc : public Gem::Common::GSerializableFunctionObjectT<W> {
  int id, beh;
  Proc(int i, int be) : id(i), beh(be) {}
  bool process_(W &w) override { note(id); w.act(beh); return true; }
  void load_(const Gem::Common::GSerializableFunctionObjectT<W> *o) override { auto *p = dynamic_cast<const Proc *>(o); id = p->id; beh = p->beh; }
  Proc *clone_() const override { return new Proc(*this); }
};
static bool has(const std::string &s, const char *t) { return s.find(t) != std::string::npos; }
static bool throws(int b) { return b != OK && b != FLAG; }

// one processing step: statuses, results, error texts, order of the steps, times
static void step(W &w, std::shared_ptr<Proc> pre, std::shared_ptr<Proc> post, bool vpre, bool vpost, int b1, int b2, int b3, bool ext, double a, double b) {
  // expectation
  int exp[4], n = 0; bool thrown = false, flagged = false;
  if (pre && !vpre) { exp[n++] = 1; thrown = throws(b1); flagged = b1 == FLAG || b1 == FLAG_THROW; }
  if (!thrown) { exp[n++] = ext ? 4 : 2; thrown = throws(b2); flagged = flagged || b2 == FLAG || b2 == FLAG_THROW; }
  if (!thrown && post && !vpost) { exp[n++] = 3; thrown = throws(b3); flagged = flagged || b3 == FLAG || b3 == FLAG_THROW; }
  g_n = 0; bool gpe = false, other = false; double r = 0;
  std::string id0 = w.getCurrentEvaluationID();
  try {
    if (ext) r = w.process([&](W &x) { note(4); x.put(x.a, x.b); x.act(b2); }); else r = w.process();
  } catch (const g_processing_exception &) { gpe = true; } catch (...) { other = true; }
  VASSERT(!other, "processing errors are reported with the dedicated exception");
  VASSERT(g_n == n, "every step is executed once unless an earlier one failed");
  for (int i = 0; i < n && i < g_n; i++) VASSERT(g_log[i] == exp[i], "steps are executed in order");
  VASSERT(w.getCurrentEvaluationID() != id0, "a new evaluation id is assigned");
  if (thrown || flagged) {
    VASSERT(gpe, "errors are reported to the caller");
    VASSERT(w.has_errors() && !w.is_processed(), "a failed item is recognisable");
    VASSERT(w.getProcessingStatus() == (thrown ? PS::EXCEPTION_CAUGHT : PS::ERROR_FLAGGED), "the status tells exceptions from flagged errors");
    VASSERT(w.error_flagged_by_user() == !thrown, "error_flagged_by_user");
    std::string d = w.getStoredErrorDescriptions();
    VASSERT(!d.empty(), "the error is described");
    VASSERT(has(d, "flag-text") == flagged, "the user's description is kept");
    int tb = throws(b1) && pre && !vpre ? b1 : throws(b2) ? b2 : b3;
    if (thrown) { VASSERT(has(d, "std-text") == (tb == THROW_STD || tb == FLAG_THROW), "what() is recorded"); VASSERT(has(d, "gem-text") == (tb == THROW_GEM), "the exception's text is recorded"); }
    bool refused = false; try { w.getStoredResult(0); } catch (const gemfony_exception &) { refused = true; }
    VASSERT(refused, "no result without successful processing");
    VASSERT(std::get<0>(w.getProcessingTimes()) == 0 && std::get<1>(w.getProcessingTimes()) == 0 && std::get<2>(w.getProcessingTimes()) == 0, "no times for failed items");
    vs_reach("failed");
  } else {
    VASSERT(!gpe, "no error without a reason");
    VASSERT(w.is_processed() && !w.has_errors() && w.getProcessingStatus() == PS::PROCESSED, "the item is marked as processed");
    VASSERT(vs_bits(r) == vs_bits(a) && vs_bits(w.getStoredResult(0)) == vs_bits(a), "the first result is returned and stored");
    if (w.getNStoredResults() > 1) VASSERT(vs_bits(w.getStoredResult(1)) == vs_bits(b), "further results are stored");
    VASSERT(w.getStoredErrorDescriptions().empty(), "no error description");
    vs_reach("processed");
  }
}
HARNESS h_process() {
  W w(2);
  int b1 = sym_choice("pre", NBEH), b2 = sym_choice("main", NBEH), b3 = sym_choice("post", NBEH);
  bool ext = sym_bool("ext"), hpre = sym_bool("haspre"), hpost = sym_bool("haspost"), vpre = sym_bool("vetopre"), vpost = sym_bool("vetopost");
  if (!hpre) { VASSUME(b1 == OK && !vpre); } if (!hpost) { VASSUME(b3 == OK && !vpost); }
  std::shared_ptr<Proc> pre, post;
  if (hpre) { pre = std::make_shared<Proc>(1, b1); w.registerPreProcessor(pre); w.registerPreProcessor(std::shared_ptr<Proc>()); }
  if (hpost) { post = std::make_shared<Proc>(3, b3); w.registerPostProcessor(post); w.registerPostProcessor(std::shared_ptr<Proc>()); }
  w.vetoPreProcessing(vpre); w.vetoPostProcessing(vpost);
  w.a = sym_fin("a"); w.b = sym_fin("b"); w.beh = b2;
  w.set_processing_status(PS::DO_PROCESS);
  step(w, pre, post, vpre, vpost, b1, b2, b3, ext, w.a, w.b);
}
// sequences: status machine over all requests; a failed item can be processed again successfully
HARNESS h_status() {
  W w(2); PS m = PS::DO_IGNORE; bool err = false, nul = true;
  w.a = sym_fin("a"); w.b = sym_fin("b");
  double f = sym_fin("f"), g = sym_fin("g"); double r0 = 0, r1 = 0; (void)nul;
  for (int k = 0; k < 3; k++) {
    unsigned op = sym_choice("op", 8);
    bool thrown = false, gpe = false; PS t = (PS)0;
    if (op < 5) {
      t = (PS)op; bool clear = sym_bool("clear"); std::string txt = w.getStoredErrorDescriptions(), got;
      try { if (clear) got = w.get_and_clear_exceptions(t); else w.set_processing_status(t); } catch (const gemfony_exception &) { thrown = true; }
      bool legal = t == m || (t == PS::DO_PROCESS || t == PS::DO_IGNORE);
      VASSERT(thrown == !legal, "exactly the documented transitions are accepted");
      if (legal && clear) VASSERT(got == txt, "stored errors are handed out");
      if (legal && t != m) { m = t; err = false; r0 = r1 = 0; }
    } else if (op == 5) {
      w.beh = sym_choice("beh", 3) == 0 ? OK : (sym_bool("fl") ? FLAG : THROW_STD);
      try { w.process(); } catch (const g_processing_exception &) { gpe = true; } catch (const gemfony_exception &) { thrown = true; }
      VASSERT(thrown == (m != PS::DO_PROCESS), "only items due for processing are processed");
      if (m == PS::DO_PROCESS) {
        VASSERT(gpe == (w.beh != OK), "errors are reported");
        m = w.beh == OK ? PS::PROCESSED : w.beh == FLAG ? PS::ERROR_FLAGGED : PS::EXCEPTION_CAUGHT; err = w.beh != OK;
        if (err) r0 = r1 = 0; else { r0 = w.a; r1 = w.b; }
      } else VASSERT(!gpe, "refused");
    } else if (op == 6) {
      std::size_t n = sym_choice("nres", 4); std::vector<double> v; for (std::size_t i = 0; i < n; i++) v.push_back(i ? g : f);
      double r = 0; try { r = w.markAsProcessedWith(v); } catch (const gemfony_exception &) { thrown = true; }
      VASSERT(thrown == (n != 2), "the number of results has to fit");
      if (!thrown) { VASSERT(vs_bits(r) == vs_bits(f), "the first result is returned"); m = PS::PROCESSED; err = false; r0 = f; r1 = g; }
    } else { bool i = sym_bool("ign"); if (i) w.mark_as_ignorable(); else w.mark_as_due_for_processing(); m = i ? PS::DO_IGNORE : PS::DO_PROCESS; }
    VASSERT(w.getProcessingStatus() == m && w.is_processed() == (m == PS::PROCESSED) && w.is_ignored() == (m == PS::DO_IGNORE) && w.is_due_for_processing() == (m == PS::DO_PROCESS) && w.has_errors() == (m == PS::EXCEPTION_CAUGHT || m == PS::ERROR_FLAGGED), "status queries agree");
    if (m == PS::PROCESSED) VASSERT(vs_bits(w.getStoredResult(0)) == vs_bits(r0) && vs_bits(w.getStoredResult(1)) == vs_bits(r1), "results of the latest processing");
    else { bool ref = false; try { w.getStoredResult(0); } catch (const gemfony_exception &) { ref = true; } VASSERT(ref, "no results unless processed");
      VASSERT(vs_bits(w.modifyStoredResult(0)) == vs_bits(r0) && vs_bits(w.modifyStoredResult(1)) == vs_bits(r1), "stale results are nullified"); }
    VASSERT(w.getStoredErrorDescriptions().empty() == !err, "error texts exist exactly as long as the error is recorded");
  }
  vs_reach("done");
}
// copies carry everything and share nothing
HARNESS h_copy() {
  W w(2), t(1);
  w.setIterationCounter(sym_u32("it")); w.setResubmissionCounter(sym_u64("re")); w.setCollectionPosition(sym_u64("pos")); 
  w.vetoPreProcessing(sym_bool("v1")); w.vetoPostProcessing(sym_bool("v2"));
  auto pre = std::make_shared<Proc>(1, OK), post = std::make_shared<Proc>(3, OK);
  bool hp = sym_bool("haspre"), hq = sym_bool("haspost"); if (hp) w.registerPreProcessor(pre); if (hq) w.registerPostProcessor(post);
  w.a = sym_fin("a"); w.b = sym_fin("b"); w.beh = sym_choice("beh", 3) == 0 ? OK : (sym_bool("fl") ? FLAG : THROW_STD);
  w.markRawSubmissionTime(); w.markRawRetrievalTime(); w.markProcSubmissionTime(); w.markProcRetrievalTime();
  if (sym_bool("proc")) { w.set_processing_status(PS::DO_PROCESS); try { w.process(); } catch (const g_processing_exception &) {} }
  if (sym_bool("tpre")) { t.registerPreProcessor(std::make_shared<Proc>(9, OK)); t.registerPostProcessor(std::make_shared<Proc>(9, OK)); }
  W *c; std::unique_ptr<W> own; unsigned how = sym_choice("how", 3);
  if (how == 0) { own.reset(new W(w)); c = own.get(); } else if (how == 1) { t = w; c = &t; } else { t.load_pc(&w); t.beh = w.beh; t.a = w.a; t.b = w.b; c = &t; }
  VASSERT(c->getIterationCounter() == w.getIterationCounter() && c->getResubmissionCounter() == w.getResubmissionCounter() && c->getCollectionPosition() == w.getCollectionPosition() && c->getBufferId() == w.getBufferId(), "routing information is copied");
  VASSERT(c->mayBePreProcessed() == w.mayBePreProcessed() && c->mayBePostProcessed() == w.mayBePostProcessed(), "vetoes are copied");
  VASSERT(c->getProcessingStatus() == w.getProcessingStatus() && c->getStoredErrorDescriptions() == w.getStoredErrorDescriptions() && c->getCurrentEvaluationID() == w.getCurrentEvaluationID(), "the outcome is copied");
  VASSERT(c->getNStoredResults() == 2 && vs_bits(c->modifyStoredResult(0)) == vs_bits(w.modifyStoredResult(0)) && vs_bits(c->modifyStoredResult(1)) == vs_bits(w.modifyStoredResult(1)), "results are copied");
  VASSERT(c->getProcessingTimes() == w.getProcessingTimes() && c->getRawRetrievalTime() == w.getRawRetrievalTime() && c->getRawSubmissionTime() == w.getRawSubmissionTime() && c->getProcRetrievalTime() == w.getProcRetrievalTime() && c->getProcSubmissionTime() == w.getProcSubmissionTime(), "times are copied");
  VASSERT((bool)c->m_pre_processor_ptr == hp && (bool)c->m_post_processor_ptr == hq, "processors are copied");
  if (hp) { VASSERT(c->m_pre_processor_ptr != w.m_pre_processor_ptr, "processors are not shared"); VASSERT(static_cast<Proc &>(*c->m_pre_processor_ptr).id == 1, "the right pre-processor"); }
  if (hq) { VASSERT(c->m_post_processor_ptr != w.m_post_processor_ptr, "processors are not shared"); VASSERT(static_cast<Proc &>(*c->m_post_processor_ptr).id == 3, "the right post-processor"); }
  PS old = w.getProcessingStatus(); double r = w.modifyStoredResult(0);
  c->mark_as_due_for_processing(); c->beh = OK; c->a = 17; try { c->process(); } catch (...) { VASSERT(false, "the copy is usable"); }
  VASSERT(w.getProcessingStatus() == old && vs_bits(w.modifyStoredResult(0)) == vs_bits(r), "the source is unaffected by its copy");
  vs_reach("copied");
}
// command containers
HARNESS h_command() {
  using C = GCommandContainerT<W, networked_consumer_payload_command>;
  auto w = std::make_shared<W>(1); w->a = sym_fin("a"); w->beh = sym_choice("beh", 3) == 0 ? OK : (sym_bool("fl") ? FLAG : THROW_STD);
  if (sym_bool("due")) w->mark_as_due_for_processing();
  auto c1 = (networked_consumer_payload_command)sym_choice("cmd", 5);
  bool pay = sym_bool("payload"); C c(networked_consumer_payload_command::NONE); unsigned how = sym_choice("how", 4);
  if (how == 0) { c = pay ? C(c1, w) : C(c1); } else if (how == 1) { c.reset(c1, pay ? w : std::shared_ptr<W>()); }
  else if (how == 2) { C d(c1, pay ? w : std::shared_ptr<W>()); C e(std::move(d)); c = std::move(e); VASSERT(!d.get_payload() && !e.get_payload(), "moved-from containers do not hold the payload"); }
  else { C d(networked_consumer_payload_command::NONE, pay ? w : std::shared_ptr<W>()); d.set_command(c1); c = std::move(d); }
  VASSERT(c.get_command() == c1, "the command is kept");
  VASSERT(c.get_payload() == (pay ? w : std::shared_ptr<W>()), "the payload is transported, not copied");
  bool gpe = false, thrown = false; bool due = w->is_due_for_processing();
  try { c.process(); } catch (const g_processing_exception &) { gpe = true; } catch (const gemfony_exception &) { thrown = true; }
  VASSERT(thrown == (!pay || !due), "processing requires a payload due for processing");
  if (!thrown) { VASSERT(gpe == (w->beh != OK), "errors of the payload are passed on"); if (!gpe) VASSERT(vs_bits(c.get_payload()->getStoredResult()) == vs_bits(w->a), "the payload carries its result"); }
  const C &r = c.reset(); VASSERT(&r == &c && !c.get_payload() && (int)c.get_command() == 0, "reset() empties the container");
  vs_reach("done");
}
