// Copies, serialization and comparison of optimization monitors and plotters
#include "vs.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GPluggableOptimizationMonitors.hpp"
#include "common/GPlotDesigner.hpp"
#include "ar.hpp"
using namespace Gem::Geneva; using namespace Gem::Common;
struct Ind : public GParameterSet {
  template <class A> void serialize(A &ar, const unsigned) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<GParameterSet>(*this)); }
  Ind(size_t n = 1) : GParameterSet(n) {} Ind(const Ind &) = default; GObject *clone_() const override { return new Ind(*this); }
  double fitnessCalculation() override { return 0.; }
};
template <class X> struct ar_root<X, std::enable_if_t<std::is_base_of<GBasePlotter, X>::value>> { using type = GBasePlotter; };
template <> struct ar_root<GPlotDesigner, void> { using type = GPlotDesigner; };
using Types = TypeList<Ind, GStandardMonitor, GFitnessMonitor, GAllSolutionFileLogger, GGraph2D, GGraph2ED, GGraph3D, GGraph4D, GHistogram1D, GHistogram1I, GHistogram2D, GFunctionPlotter1D, GFunctionPlotter2D>;
static bool none(const std::string &) { return false; }
template <class T> static void mon() { T o, p; ar_copies<Types>(o, std::move(p), none); }
HARNESS h_std() { mon<GStandardMonitor>(); }
HARNESS h_fit() { mon<GFitnessMonitor>(); }
HARNESS h_coll() { GCollectiveMonitor o, p; o.registerPluggableOM(std::make_shared<GStandardMonitor>()); if (sym_choice("target", 2)) p.registerPluggableOM(std::make_shared<GFitnessMonitor>()); ar_copies<Types>(o, std::move(p), none); }
HARNESS h_prog() { GProgressPlotter o, p; o.m_fp_profVarVec.resize(1); o.m_progressPlotter2D_oa = std::make_shared<GGraph2D>(); *o.m_progressPlotter2D_oa & std::make_tuple(1., 2.); if (sym_choice("target", 2)) { p.m_progressPlotter2D_oa = std::make_shared<GGraph2D>(); p.m_progressPlotter3D_oa = std::make_shared<GGraph3D>(); } Toks k = ar_save<Types>(*o.m_progressPlotter2D_oa); ar_copies<Types>(o, std::move(p), none, &k); }
HARNESS h_prog_empty() { mon<GProgressPlotter>(); }
HARNESS h_all() { mon<GAllSolutionFileLogger>(); }
HARNESS h_iter() { mon<GIterationResultsFileLogger>(); }
HARNESS h_nadp() { GNAdpationsLogger o, p; o.m_nAdaptionsGraph2D_oa = std::make_shared<GGraph2D>(); o.m_fitnessGraph2D_oa = std::make_shared<GGraph2D>(); o.m_nAdaptionsStore.resize(1); Toks k = ar_save<Types>(*o.m_fitnessGraph2D_oa); ar_copies<Types>(o, std::move(p), none, &k); }
HARNESS h_adprop() { GAdaptorPropertyLogger<double> o, p; o.m_fitnessGraph2D_oa = std::make_shared<GGraph2D>(); Toks k = ar_save<Types>(*o.m_fitnessGraph2D_oa); ar_copies<Types>(o, std::move(p), none, &k); }
HARNESS h_times() { GProcessingTimesLogger o, p; auto f = [](GProcessingTimesLogger &l, int n) { l.m_pre_processing_times_hist = std::make_shared<GHistogram1D>(n, 0., 1.); l.m_processing_times_hist = std::make_shared<GHistogram1D>(n + 1, 0., 1.); l.m_post_processing_times_hist2D = std::make_shared<GHistogram2D>(n, n, 0., 1., 0., 1.); }; Toks k = ar_save<Types>(GHistogram1D(1, 0., 1.)); f(o, 3); if (sym_choice("target", 2)) f(p, 5); ar_copies<Types>(o, std::move(p), none, &k); }
HARNESS h_graph2() { GGraph2D o, p; o & std::make_tuple(1., 2.); if (sym_choice("target", 2)) p & std::make_tuple(3., 4.); ar_copies<Types>(o, std::move(p), none); }
HARNESS h_graph2e() { mon<GGraph2ED>(); }
HARNESS h_graph3() { mon<GGraph3D>(); }
HARNESS h_graph4() { mon<GGraph4D>(); }
HARNESS h_hist1() { GHistogram1D o(3, 0., 1.), p(4, 1., 2.); o & 1.; ar_copies<Types>(o, std::move(p), none); }
HARNESS h_hist1i() { GHistogram1I o(3, 0., 1.), p(4, 1., 2.); o & 1; ar_copies<Types>(o, std::move(p), none); }
HARNESS h_hist2() { GHistogram2D o(3, 3, 0., 1., 0., 1.), p(4, 4, 1., 2., 1., 2.); ar_copies<Types>(o, std::move(p), none); }
HARNESS h_func1() { GFunctionPlotter1D o("x", std::make_tuple(0., 1.)), p("y", std::make_tuple(0., 2.)); ar_copies<Types>(o, std::move(p), none); }
HARNESS h_func2() { GFunctionPlotter2D o("x", std::make_tuple(0., 1.), std::make_tuple(0., 1.)), p("y", std::make_tuple(0., 2.), std::make_tuple(0., 1.)); ar_copies<Types>(o, std::move(p), none); }
HARNESS h_designer() { GPlotDesigner o("a", 1, 2), p("b", 2, 2); auto g = std::make_shared<GGraph2D>(); *g & std::make_tuple(1., 2.); o.registerPlotter(g); if (sym_choice("target", 2)) { p.registerPlotter(std::make_shared<GGraph3D>()); p.registerPlotter(std::make_shared<GGraph2D>()); } ar_copies<Types>(o, std::move(p), none); }
