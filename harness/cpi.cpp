// Copies and serialization of the individuals that come with the library
#include "vs.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GDoubleObjectCollection.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva-individuals/GNeuralNetworkIndividual.hpp"
#include "geneva-individuals/GExternalEvaluatorIndividual.hpp"
#include "geneva-individuals/GDelayIndividual.hpp"
#include "geneva-individuals/GLineFitIndividual.hpp"
#include "geneva-individuals/GFunctionIndividual.hpp"
#include "ar.hpp"
// the training data is not read from a file
namespace Gem { namespace Common { template <> std::shared_ptr<Gem::Geneva::networkData> GSingletonT<Gem::Geneva::networkData>::Instance(const std::size_t &) { static auto p = std::make_shared<Gem::Geneva::networkData>(); return p; } }}
using namespace Gem::Geneva;
using Types = TypeList<GDoubleObject, GDoubleGaussAdaptor, GNeuralNetworkIndividual, GExternalEvaluatorIndividual, GDelayIndividual, GLineFitIndividual, GFunctionIndividual>;
template <class A> struct Setting { void (*set)(A &); bool (*get)(const A &); };
#define S(s, g) { [](A &a) { s; }, [](const A &a) -> bool { return g; } }
template <class A> static void user(std::vector<Setting<A>> more) {
  unsigned k = sym_choice("setting", more.size()); A o; more[k].set(o); VASSERT(more[k].get(o), "settings are stored"); VASSERT(!more[k].get(A()), "settings differ from the default"); unsigned w = sym_choice("way", 4); std::shared_ptr<A> y; if (w == 0) y = std::make_shared<A>(o); else if (w == 1) y = static_cast<GObject &>(o).clone<A>(); else { y = std::make_shared<A>(); if (w == 2) static_cast<GObject &>(*y).load(o); else ar_load<Types>(*y, ar_save<Types>(o)); } VASSERT(more[k].get(*y), "copies have the same settings"); bool thr = false; try { y->compare(A(), Gem::Common::expectation::EQUALITY, 0.); } catch (const std::exception &) { thr = true; } VASSERT(thr, "comparisons notice different settings"); vs_reach(w == 0 ? "copy" : w == 1 ? "clone" : w == 2 ? "load" : "reload");
}
HARNESS h_ext() { using A = GExternalEvaluatorIndividual; user<A>({ S(a.setRunId("run"), a.getRunId() == "run"), S(a.setCustomOptions("-x"), a.getCustomOptions() == "-x"), S(a.setExchangeBaseName("ex"), a.getExchangeBaseName() == "ex"), S(a.setNExpectedResults(4), a.getNExpectedResults() == 4), S(a.setRemoveExecTemporaries(!A().getRemoveExecTemporaries()), a.getRemoveExecTemporaries() != A().getRemoveExecTemporaries()) }); }
HARNESS h_nn() { using A = GNeuralNetworkIndividual; user<A>({ S(a.setTransferFunction(transferFunction::RBF), a.getTransferFunction() == transferFunction::RBF) }); }
HARNESS h_line() { using A = GLineFitIndividual; user<A>({ S(a = A(std::vector<std::tuple<double, double>>{std::make_tuple(1., 2.)}), a.dataPoints_.size() == 1 && std::get<1>(a.dataPoints_[0]) == 2.) }); }
HARNESS h_fun() { using A = GFunctionIndividual; user<A>({ S(a.setDemoFunction(solverFunction::NOISYPARABOLA), a.getDemoFunction() == solverFunction::NOISYPARABOLA) }); }
HARNESS h_delay() { using A = GDelayIndividual; user<A>({ S(a.setFixedSleepTime(std::chrono::duration<double>(2.5)), a.getFixedSleepTime() == std::chrono::duration<double>(2.5)), S(a.setMayCrash(true, .25), a.getMayCrash() && a.getCrashLikelihood() == .25), S(a.setRandomSleep(true, std::make_tuple(.25, .5)), a.m_sleepRandomly && std::get<0>(a.m_randSleepBoundaries) == .25 && std::get<1>(a.m_randSleepBoundaries) == .5) }); }
