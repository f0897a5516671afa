// Copies, serialization and comparison: individuals, constraints, personality traits
#include "vs.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GMultiConstraintT.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan_PersonalityTraits.hpp"
#include "geneva-individuals/GFunctionIndividual.hpp"
#include "geneva-individuals/GTestIndividual2.hpp"
#include "ar.hpp"
using namespace Gem::Geneva;
struct Ind : public GParameterSet {
  template <class A> void serialize(A &ar, const unsigned) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSet>(*this)); }
  Ind(size_t n = 1) : GParameterSet(n) {} Ind(const Ind &) = default; GObject *clone_() const override { return new Ind(*this); }
  double fitnessCalculation() override { for (size_t i = 1; i < getNStoredResults(); i++) setResult(i, 2. * i); std::vector<double> v; streamline<double>(v); return v[0]; }
};
using Comb = GCheckCombinerT<GParameterSet>;
using Types = TypeList<Ind, GFunctionIndividual, GDoubleObject, GInt32Object, GBooleanObject, GDoubleGaussAdaptor, GInt32FlipAdaptor, GBooleanAdaptor, GParameterSetFormulaConstraint, Comb, GDoubleSumConstraint, GDoubleSumGapConstraint, GSphereConstraint, GEvolutionaryAlgorithm_PersonalityTraits, GGradientDescent_PersonalityTraits, GSimulatedAnnealing_PersonalityTraits, GSwarmAlgorithm_PersonalityTraits, GParameterScan_PersonalityTraits>;
// comparisons of individuals look at parameters and settings, not at the progress of their evaluation
static bool progress(const std::string &n) { static const char *t[] = {"m_iteration_counter", "m_resubmission_counter", "m_collection_position", "m_bufferport_id", "m_preProcessingDisabled", "m_postProcessingDisabled", "m_pre_processing_time", "m_processing_time", "m_post_processing_time", "m_bufferport_raw_retrieval_time", "m_bufferport_raw_submission_time", "m_bufferport_proc_retrieval_time", "m_bufferport_proc_submission_time", "m_stored_error_descriptions", "m_processing_status", "m_stored_results_cnt", "m_raw_fitness", "m_transformed_fitness", "m_transformed_fitness_set", "m_evaluation_id", "timpoint_milliseconds"}; for (auto x : t) if (n == x) return true; return false; }
static void fill(GParameterSet &p, double x) { p.push_back(std::make_shared<GDoubleObject>(x, -9., 9.)); p.push_back(std::make_shared<GBooleanObject>(true)); }
HARNESS h_ind() {
  Ind o(2), p(1); o.push_back(std::make_shared<GDoubleObject>(1.5)); o.mark_as_due_for_processing(); unsigned k = sym_choice("state", 4); if (k) o.process(); if (k == 2) { o.setPersonality(std::make_shared<GEvolutionaryAlgorithm_PersonalityTraits>()); p.setPersonality(std::make_shared<GSwarmAlgorithm_PersonalityTraits>()); p.registerConstraint(std::make_shared<GSphereConstraint>(3.)); }
  if (k == 1) { p.setPersonality(std::make_shared<GSwarmAlgorithm_PersonalityTraits>()); p.registerConstraint(std::make_shared<GSphereConstraint>(3.)); }
  if (k == 3) { o.registerConstraint(std::make_shared<GSphereConstraint>(2.)); o.setEvaluationPolicy(evaluationPolicy::USESIGMOID); o.setMaxMode(maxMode::MAXIMIZE); fill(p, 3.); p.registerConstraint(std::make_shared<GParameterSetFormulaConstraint>("1")); } ar_copies<Types>(o, std::move(p), progress);
}
// values that decide about the behaviour of individuals, as seen by a user
HARNESS h_ind_user() {
  Ind o(1), q(1); fill(o, 1.5); double x = sym_fin("x"); VASSUME((x > 1.) & (x < 1e6)); unsigned k = sym_choice("setting", 12); o.mark_as_due_for_processing();
  auto set = [&](Ind &i) { switch (k) { case 0: i.setMaxMode(maxMode::MAXIMIZE); break; case 1: i.setEvaluationPolicy(evaluationPolicy::USESIGMOID); break; case 2: i.setSteepness(3.5); break; case 3: i.setBarrier(5.5); break; case 4: i.setMaxUnsuccessfulAdaptions(7); break; case 5: i.setMaxRetriesUntilValid(8); break; case 6: i.setAssignedIteration(9); break; case 7: i.setNStalls(4); break; case 8: i.setBestKnownPrimaryFitness(std::make_tuple(x, 2.)); break; case 9: i.setRandomCrash(true, 0.25); break; case 10: i.registerConstraint(std::make_shared<GParameterSetFormulaConstraint>("2")); break; default: i.process(); } }; set(o);
  auto obs = [&](Ind &i) { switch (k) { case 0: return i.getMaxMode() == maxMode::MAXIMIZE && i.getWorstCase() < 0; case 1: return i.getEvaluationPolicy() == evaluationPolicy::USESIGMOID; case 2: return i.getSteepness() == 3.5; case 3: return i.getBarrier() == 5.5; case 4: return i.getMaxUnsuccessfulAdaptions() == 7; case 5: return i.getMaxRetriesUntilValid() == 8; case 6: return i.getAssignedIteration() == 9; case 7: return i.getNStalls() == 4; case 8: return std::get<0>(i.getBestKnownPrimaryFitness()) == x; case 9: return i.getRandomCrash() == std::tuple<bool, double>(true, 0.25); case 10: { double l; return !i.parameterSetFulfillsConstraints(l) && l == 2.; } default: return i.is_processed() && i.raw_fitness(0) == 1.5 && !i.is_due_for_processing(); } };
  VASSERT(obs(o), "settings are stored"); VASSERT(!obs(q), "settings differ from the default"); unsigned w = sym_choice("way", 4); std::shared_ptr<Ind> y; if (w == 0) y = std::make_shared<Ind>(o); else if (w == 1) y = o.GObject::clone<Ind>(); else { y = std::make_shared<Ind>(); if (w == 2) y->GObject::load(o); else ar_load<Types>(*y, ar_save<Types>(o)); } VASSERT(obs(*y), "copies behave like the original"); bool thr = false; try { y->compare(q, Gem::Common::expectation::EQUALITY, 0.); } catch (const std::exception &) { thr = true; } VASSERT(thr, "comparisons notice differences"); vs_reach(w == 0 ? "copy" : w == 1 ? "clone" : w == 2 ? "load" : "reload");
}
HARNESS h_func() { GFunctionIndividual o, p; o.setDemoFunction(solverFunction::NOISYPARABOLA); o.push_back(std::make_shared<GDoubleObject>(1.)); ar_copies<Types>(o, std::move(p), progress); }
HARNESS h_csum() { GDoubleSumConstraint o(2.), p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_cgap() { GDoubleSumGapConstraint o(2., 3.), p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_csphere() { GSphereConstraint o(2.), p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_cformula() { GParameterSetFormulaConstraint o("{{x}}"), p("1"); ar_copies<Types>(o, std::move(p)); }
HARNESS h_ccomb() { Comb o, p; o.addCheck(std::make_shared<GSphereConstraint>(2.)); o.addCheck(std::make_shared<GDoubleSumConstraint>(3.)); if (sym_choice("target", 2)) p.addCheck(std::make_shared<GDoubleSumConstraint>(4.)); ar_copies<Types>(o, std::move(p)); }
// constraints decide alike after having been copied or transferred
HARNESS h_constr_user() {
  double c = 0.5 + sym_choice("c", 3), x = sym_choice("x", 9) - 4.; Ind q; q.push_back(std::make_shared<GDoubleObject>(x)); unsigned k = sym_choice("constraint", 4); std::shared_ptr<GPreEvaluationValidityCheckT<GParameterSet>> o, z; if (k == 0) { o = std::make_shared<GSphereConstraint>(c); z = std::make_shared<GSphereConstraint>(); } else if (k == 1) { o = std::make_shared<GDoubleSumConstraint>(c); z = std::make_shared<GDoubleSumConstraint>(); } else if (k == 2) { o = std::make_shared<GDoubleSumGapConstraint>(c, 1.); z = std::make_shared<GDoubleSumGapConstraint>(); } else { auto m = std::make_shared<Comb>(); m->addCheck(std::make_shared<GDoubleSumConstraint>(c)); o = m; z = std::make_shared<Comb>(); } o->setAllowNegative(true);
  unsigned w = sym_choice("way", 3); if (w == 0) z = o->GObject::clone<GPreEvaluationValidityCheckT<GParameterSet>>(); else if (w == 1) z->GObject::load(o); else { Toks t = ar_save<Types>(o); ar_load<Types>(z, t); } double l, m; bool a = o->isValid(&q, l), b = z->isValid(&q, m); VASSERT(a == b && (l == m), "copies of constraints decide alike"); bool thr = false; try { o->compare(*z, Gem::Common::expectation::EQUALITY, 0.); } catch (const std::exception &) { thr = true; } VASSERT(!thr, "copies are equal"); vs_reach(w == 0 ? "clone" : w == 1 ? "load" : "reload");
}
template <class T> static void traits() { T o, p; ar_copies<Types>(o, std::move(p)); }
HARNESS h_tea() { traits<GEvolutionaryAlgorithm_PersonalityTraits>(); }
HARNESS h_tgd() { traits<GGradientDescent_PersonalityTraits>(); }
HARNESS h_tsa() { traits<GSimulatedAnnealing_PersonalityTraits>(); }
HARNESS h_tps() { traits<GParameterScan_PersonalityTraits>(); }
HARNESS h_tsw() { GSwarmAlgorithm_PersonalityTraits o, p; unsigned k = sym_choice("personal best", 3); auto b = std::make_shared<Ind>(); b->push_back(std::make_shared<GDoubleObject>(1.)); b->mark_as_due_for_processing(); b->process(); if (k) o.registerPersonalBest(b); if (k == 2) p.registerPersonalBest(b); ar_copies<Types>(o, std::move(p), progress); }
