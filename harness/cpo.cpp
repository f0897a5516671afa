// Copies, serialization and comparison of optimization algorithms
#include "vs.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include "geneva/GPluggableOptimizationMonitors.hpp"
#include "ar.hpp"
using namespace Gem::Geneva;
struct Ind : public GParameterSet {
  template <class A> void serialize(A &ar, const unsigned) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSet>(*this)); }
  Ind(size_t n = 1) : GParameterSet(n) {} Ind(const Ind &) = default; GObject *clone_() const override { return new Ind(*this); }
  double fitnessCalculation() override { std::vector<double> v; streamline<double>(v); return v[0]; }
};
using EA = GEvolutionaryAlgorithm; using SA = GSimulatedAnnealing; using GD = GGradientDescent; using SW = GSwarmAlgorithm; using PSc = GParameterScan;
using Types = TypeList<Ind, GDoubleGaussAdaptor, GInt32FlipAdaptor, GBooleanAdaptor, GDoubleObject, GInt32Object, GBooleanObject, GEvolutionaryAlgorithm_PersonalityTraits, GGradientDescent_PersonalityTraits, GSimulatedAnnealing_PersonalityTraits, GSwarmAlgorithm_PersonalityTraits, GParameterScan_PersonalityTraits, Gem::Courtier::GSerialExecutorT<GParameterSet>, Gem::Courtier::GMTExecutorT<GParameterSet>, Gem::Courtier::GBrokerExecutorT<GParameterSet>, GStandardMonitor, GFitnessMonitor, GParameterSetFixedSizePriorityQueue, dScanPar, int32ScanPar, bScanPar, fScanPar>;
static std::shared_ptr<Ind> ind(double x) { auto p = std::make_shared<Ind>(1); p->push_back(std::make_shared<GDoubleObject>(x)); p->mark_as_due_for_processing(); p->process(); return p; }
// comparisons of individuals look at parameters and settings, not at the progress of their evaluation
static bool progress(const std::string &n) { static const char *t[] = {"m_iteration_counter", "m_resubmission_counter", "m_collection_position", "m_bufferport_id", "m_preProcessingDisabled", "m_postProcessingDisabled", "m_pre_processing_time", "m_processing_time", "m_post_processing_time", "m_bufferport_raw_retrieval_time", "m_bufferport_raw_submission_time", "m_bufferport_proc_retrieval_time", "m_bufferport_proc_submission_time", "m_stored_error_descriptions", "m_processing_status", "m_stored_results_cnt", "m_raw_fitness", "m_transformed_fitness", "m_transformed_fitness_set", "m_evaluation_id", "timpoint_milliseconds"}; for (auto x : t) if (n == x) return true; return false; }
// the grid of a parameter scan is not part of its identity
static bool scanned(const std::string &n) { return progress(n) || n.substr(0, 4) == "tpl_" || n == "m_step" || n == "m_nSteps" || n == "m_lower" || n == "m_upper" || n == "m_randomScan" || n == "m_typeDescription"; }
static bool none(const std::string &) { return false; }
template <class A> static void empty() { A o, p; p.push_back(ind(3.)); ar_copies<Types>(o, std::move(p), none); }
HARNESS h_ea() { empty<EA>(); }
HARNESS h_sa() { empty<SA>(); }
HARNESS h_gd() { empty<GD>(); }
HARNESS h_sw() { empty<SW>(); }
HARNESS h_ps() { empty<PSc>(); }
// objects in the middle of an optimization
template <class A> static void fill(A &a, int k) {
  a.push_back(ind(1.5 + k)); a.m_iteration = 3; a.m_bestGlobalIndividuals_pq.add(ind(0.5), true); a.m_worstKnownValids_cnt = {std::make_tuple(7., 8.)}; a.m_bestKnownPrimaryFitness = std::make_tuple(0.5, 0.5);
  if (k) { a.push_back(ind(2.5)); a.registerPluggableOM(std::make_shared<GFitnessMonitor>()); } a.m_executor_ptr = k ? std::shared_ptr<Gem::Courtier::GBaseExecutorT<GParameterSet>>(new Gem::Courtier::GSerialExecutorT<GParameterSet>()) : std::make_shared<Gem::Courtier::GMTExecutorT<GParameterSet>>();
}
template <class A> static void full(void (*more)(A &, int)) { A o, p; fill(o, 0); more(o, 0); if (sym_choice("target", 2)) { fill(p, 1); more(p, 1); } Toks known = ar_save<Types>(A()); for (auto &t : ar_save<Types>(*ind(1.))) if (t.n != "m_val") known.push_back(t); ar_copies<Types>(o, std::move(p), scanned, &known); }
HARNESS h_ea_full() { full<EA>([](EA &, int) {}); }
HARNESS h_gd_full() { full<GD>([](GD &, int) {}); }
HARNESS h_sw_full() { full<SW>([](SW &a, int k) { a.m_n_neighborhoods = 1 + k; a.m_n_neighborhood_members_cnt = std::vector<size_t>(1 + k, 2); a.m_neighborhood_bests_cnt = std::vector<std::shared_ptr<GParameterSet>>(1 + k); a.m_neighborhood_bests_cnt[0] = ind(.25); a.m_global_best_ptr = ind(.75); a.m_dbl_lower_parameter_boundaries_cnt = {1.}; a.m_dbl_upper_parameter_boundaries_cnt = {2.}; a.m_dbl_vel_max_cnt = {.5}; }); }
HARNESS h_ps_full() { full<PSc>([](PSc &a, int k) { a.setParameterSpecs(k ? "i(0,0,4,2)" : "d(0,-1,1,3), i(1,0,4,2), b(0)"); }); }
// settings as seen by the user
template <class A> struct Setting { void (*set)(A &); bool (*get)(const A &); };
#define S(s, g) { [](A &a) { s; }, [](const A &a) -> bool { return g; } }
using sec = std::chrono::duration<double>;
template <class A> static std::vector<Setting<A>> base() { return { S(a.setMaxIteration(1234), a.getMaxIteration() == 1234), S(a.setMinIteration(3), a.getMinIteration() == 3), S(a.setMaxStallIteration(17), a.getMaxStallIteration() == 17), S(a.setReportIteration(9), a.getReportIteration() == 9), S(a.setNRecordBestIndividuals(7), a.getNRecordBestIndividuals() == 7), S(a.setCheckpointInterval(5), a.getCheckpointInterval() == 5), S(a.setCheckpointBaseName("cpd", "cpb"), a.getCheckpointDirectory() == "cpd" && a.getCheckpointBaseName() == "cpb"), S(a.setRemoveCheckpointFiles(!A().checkpointFilesAreRemoved()), a.checkpointFilesAreRemoved() != A().checkpointFilesAreRemoved()), S(a.setCheckpointSerializationMode(Gem::Common::serializationMode::TEXT), a.getCheckpointSerializationMode() == Gem::Common::serializationMode::TEXT), S(a.setQualityThreshold(4.5, true), a.hasQualityThreshold() && [&] { bool h; return a.getQualityThreshold(h) == 4.5; }()), S(a.setMaxTime(sec(100.)), a.getMaxTime() == sec(100.)), S(a.setMinTime(sec(1.5)), a.getMinTime() == sec(1.5)), S(a.setTerminationFile("stop", true), [&] { bool h; return a.getTerminationFile(h) == "stop" && h; }()), S(a.setEmitTerminationReason(!A().getEmitTerminationReason()), a.getEmitTerminationReason() != A().getEmitTerminationReason()), S(a.setStallCounterThreshold(77), a.getStallCounterThreshold() == 77), S(a.setDefaultPopulationSize(33), a.getDefaultPopulationSize() == 33) }; }
template <class A> static void user(std::vector<Setting<A>> more) {
  for (auto &s : base<A>()) more.push_back(s); unsigned k = sym_choice("setting", more.size()); A o; more[k].set(o); VASSERT(more[k].get(o), "settings are stored"); VASSERT(!more[k].get(A()), "settings differ from the default"); unsigned w = sym_choice("way", 4); std::shared_ptr<A> y; if (w == 0) y = std::make_shared<A>(o); else if (w == 1) y = static_cast<GObject &>(o).clone<A>(); else { y = std::make_shared<A>(); if (w == 2) static_cast<GObject &>(*y).load(o); else ar_load<Types>(*y, ar_save<Types>(o)); } VASSERT(more[k].get(*y), "copies have the same settings"); bool thr = false; try { y->compare(A(), Gem::Common::expectation::EQUALITY, 0.); } catch (const std::exception &) { thr = true; } VASSERT(thr, "comparisons notice different settings"); vs_reach(w == 0 ? "copy" : w == 1 ? "clone" : w == 2 ? "load" : "reload");
}
template <class A> static std::vector<Setting<A>> pc() { return { S(a.setPopulationSizes(20, 4), a.getDefaultPopulationSize() == 20 && a.m_n_parents == 4), S(a.setRecombinationMethod(duplicationScheme::RANDOMDUPLICATIONSCHEME), a.getRecombinationMethod() == duplicationScheme::RANDOMDUPLICATIONSCHEME), S(a.setPopulationGrowth(2, 400), a.getGrowthRate() == 2 && a.getMaxPopulationSize() == 400), S(a.setAmalgamationLikelihood(.5), a.getAmalgamationLikelihood() == .5), S(a.setNThreads(3), a.getNThreads() == 3) }; }
HARNESS h_ea_user() { using A = EA; auto v = pc<EA>(); v.push_back(S(a.setSortingScheme(sortingMode::MUPLUSNU_PARETO), a.getSortingScheme() == sortingMode::MUPLUSNU_PARETO)); user<EA>(v); }
HARNESS h_sa_user() { using A = SA; auto v = pc<SA>(); v.push_back(S(a.setTDegradationStrength(.25), a.getTDegradationStrength() == .25)); v.push_back(S(a.setT0(55.), a.getT0() == 55.)); user<SA>(v); }
HARNESS h_gd_user() { using A = GD; user<GD>({ S(a.setNStartingPoints(5), a.getNStartingPoints() == 5), S(a.setFiniteStep(.0625), a.getFiniteStep() == .0625), S(a.setStepSize(.125), a.getStepSize() == .125) }); }
HARNESS h_sw_user() { using A = SW; user<SW>({ S(a.setSwarmSizes(7, 3), a.getNNeighborhoods() == 7 && a.getDefaultNNeighborhoodMembers() == 3 && a.getDefaultPopulationSize() == 21), S(a.setCPersonal(.5), a.getCPersonal() == .5), S(a.setCNeighborhood(.5), a.getCNeighborhood() == .5), S(a.setCGlobal(.5), a.getCGlobal() == .5), S(a.setCVelocity(.25), a.getCVelocity() == .25), S(a.setVelocityRangePercentage(.375), a.getVelocityRangePercentage() == .375), S(a.setUpdateRule(updateRule::SWARM_UPDATERULE_LINEAR), a.getUpdateRule() == updateRule::SWARM_UPDATERULE_LINEAR), S(a.setRepulsionThreshold(11), a.getRepulsionThreshold() == 11), S(a.setNeighborhoodsEqualFillUp(), !a.neighborhoodsFilledUpRandomly()) }); }
HARNESS h_ps_user() { using A = PSc; user<PSc>({ S(a.setNMonitorInds(5), a.getNMonitorInds() == 5), S(a.setNSimpleScans(6), a.getNSimpleScans() == 6), S(a.setScanRandomly(!A().getScanRandomly()), a.getScanRandomly() != A().getScanRandomly()) }); }
