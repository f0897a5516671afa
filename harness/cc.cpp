// Command containers on their way to another process: everything written by the library's serialize() functions is read back
#include "vs.hpp"
#include <stdexcept>
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GCommandContainerT.hpp"
namespace Gem { namespace Geneva { class GObject; } }
#include "common/GCommonHelperFunctionsT.hpp"
#include "common/GSerializationHelperFunctionsT.hpp"
#include "ar.hpp"
using namespace Gem::Courtier; using PS = processingStatus; using NC = networked_consumer_payload_command;
struct W : public GProcessingContainerT<W, double> {
  double a = 0; int beh = 0; W() = default; explicit W(std::size_t n) : GProcessingContainerT<W, double>(n) {} explicit W(const W &) = default;
  template <class A> void serialize(A &ar, const unsigned) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GProcessingContainerT<W, double>>(*this)) & BOOST_SERIALIZATION_NVP(a) & BOOST_SERIALIZATION_NVP(beh); }
  void process_() override { registerResult(0, a); if (getNStoredResults() > 1) registerResult(1, -a); if (beh == 1) force_set_error("flag-text"); if (beh == 2) throw std::runtime_error("std-text"); }
};
using L = TypeList<W>; using C = GCommandContainerT<W, NC>; using TP = std::chrono::high_resolution_clock::time_point;
static long ms(TP t) { return Gem::Common::time_point_to_milliseconds(t); } // time points are transported in milliseconds
static void equal(W &x, W &y) {
  VASSERT(x.getIterationCounter() == y.getIterationCounter() && x.getResubmissionCounter() == y.getResubmissionCounter() && x.getCollectionPosition() == y.getCollectionPosition() && x.getBufferId() == y.getBufferId(), "the position within an iteration travels with the item");
  VASSERT(x.mayBePreProcessed() == y.mayBePreProcessed() && x.mayBePostProcessed() == y.mayBePostProcessed(), "vetoes travel with the item");
  VASSERT(x.getProcessingStatus() == y.getProcessingStatus() && x.getStoredErrorDescriptions() == y.getStoredErrorDescriptions() && x.getCurrentEvaluationID() == y.getCurrentEvaluationID(), "status, errors and evaluation id travel with the item");
  VASSERT(x.getProcessingTimes() == y.getProcessingTimes() && ms(x.getRawRetrievalTime()) == ms(y.getRawRetrievalTime()) && ms(x.getRawSubmissionTime()) == ms(y.getRawSubmissionTime()) && ms(x.getProcRetrievalTime()) == ms(y.getProcRetrievalTime()) && ms(x.getProcSubmissionTime()) == ms(y.getProcSubmissionTime()), "times travel with the item");
  VASSERT(x.getNStoredResults() == y.getNStoredResults(), "the number of results"); VASSERT(vs_bits(x.a) == vs_bits(y.a) && x.beh == y.beh, "the values of the item itself");
  for (std::size_t i = 0; i < x.getNStoredResults() && i < y.getNStoredResults(); i++) VASSERT(vs_bits(x.modifyStoredResult(i)) == vs_bits(y.modifyStoredResult(i)), "results travel with the item");
}
HARNESS h_transfer() {
  auto w = std::make_shared<W>(1 + sym_choice("results", 2)); w->a = sym_fin("a"); w->beh = sym_choice("behaviour", 3); bool pay = sym_bool("payload"), used = sym_bool("target is used"), work = sym_bool("processed remotely");
  w->setIterationCounter((ITERATION_COUNTER_TYPE)sym_choice("iteration", 3)); w->setResubmissionCounter((RESUBMISSION_COUNTER_TYPE)sym_choice("resubmission", 3)); w->setCollectionPosition(sym_choice("position", 3));
  w->vetoPreProcessing(sym_bool("veto pre")); w->vetoPostProcessing(sym_bool("veto post")); w->mark_as_due_for_processing();
  w->markRawSubmissionTime(); w->markRawRetrievalTime(); w->markProcSubmissionTime(); w->markProcRetrievalTime();
  NC cmd = (NC)sym_choice("command", 5); C c(cmd, pay ? w : std::shared_ptr<W>()); Toks t = ar_save<L>(c);
  auto o = std::make_shared<W>(2); o->a = 5.; o->mark_as_due_for_processing(); o->setCollectionPosition(9); C r = used ? C(NC::NODATA, o) : C(NC::NONE); ar_load<L>(r, t);
  VASSERT(r.get_command() == cmd && bool(r.get_payload()) == pay, "command and presence of a payload"); VASSERT(o->a == 5. && o->getCollectionPosition() == 9, "an earlier payload of the target is not touched");
  if (!pay) { vs_reach("empty"); return; }
  VASSERT(r.get_payload() != w, "a new object"); equal(*w, *r.get_payload()); if (!work) { vs_reach("sent"); return; }
  bool err = false; try { r.process(); } catch (const g_processing_exception &) { err = true; } VASSERT(err == (w->beh != 0) && w->is_due_for_processing(), "processing takes place on the transported item");
  auto q = r.get_payload(); r.set_command(NC::RESULT); Toks u = ar_save<L>(r); ar_load<L>(c, u); VASSERT(c.get_command() == NC::RESULT && bool(c.get_payload()), "the answer is returned"); if (!c.get_payload()) return; equal(*q, *c.get_payload());
  VASSERT(err ? c.get_payload()->has_errors() : c.get_payload()->is_processed() && vs_bits(c.get_payload()->getStoredResult()) == vs_bits(w->a), "the outcome is known to the receiver"); vs_reach("returned");
}
