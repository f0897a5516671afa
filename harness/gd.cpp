// GGradientDescent: population layout, difference quotients, steps
#include "ind.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
using GD = GGradientDescent; using TR = GGradientDescent_PersonalityTraits; using EX = Gem::Courtier::GSerialExecutorT<GParameterSet>; using DV = std::vector<double>;
static std::vector<double> *g_seq; static std::vector<DV> *g_pos; static int g_fail = -1; static unsigned g_bits = 4;
struct SInd : public GParameterSet {
  int ev = -1; SInd() : GParameterSet(std::size_t(1)) {} SInd(const SInd &o) = default; void load_(const GObject *cp) override { GParameterSet::load_(cp); ev = static_cast<const SInd *>(cp)->ev; } GObject *clone_() const override { return new SInd(*this); }
  double fitnessCalculation() override { double v = sym_intd("f", g_bits); ev = g_seq->size(); g_seq->push_back(v); DV p; streamline<double>(p, activityMode::ACTIVEONLY); g_pos->push_back(p); if (ev == g_fail) throw std::runtime_error("boom"); return v; }
};
// nd active parameters (range 4), one inactive in front
static std::shared_ptr<SInd> mk(int nd, bool max, const DV &v) {
  auto p = std::make_shared<SInd>(); p->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); auto x = std::make_shared<GDoubleObject>(7., 0., 100.); x->setAdaptionsInactive(); p->push_back(x);
  for (int i = 0; i < nd; i++) p->push_back(std::make_shared<GDoubleObject>(v[i], -2., i ? 6. : 2.)); return p;
}
static void check_layout(GD &a, int ns, int nd) {
  VASSERT((int)a.size() == ns * (nd + 1), "there is one individual per starting point and parameter, plus the starting points"); for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < i; j++) VASSERT(a.at(i) != a.at(j), "individuals are distinct objects");
}
HARNESS h_pop() {
  int nd = 1 + sym_choice("params", 2), ns = 1 + sym_choice("startingPoints", 3), n = sym_choice("size", 4); GD a; a.setNStartingPoints(ns); std::vector<DV> v; for (int i = 0; i < n; i++) { v.push_back({sym_intd("x", 4), sym_intd("y", 4)}); a.push_back(mk(nd, false, v[i])); }
  bool t = false; try { a.adjustPopulation_(); } catch (const gemfony_exception &) { t = true; } VASSERT(t == (n == 0), "an individual is needed"); if (t) { vs_reach("refused"); return; }
  check_layout(a, ns, nd);
  for (int i = 0; i < ns; i++) { DV p; a.at(i)->streamline<double>(p, activityMode::ACTIVEONLY); VASSERT((int)p.size() == nd, "parameters are complete"); for (int j = 0; j < nd; j++) { if (i < n) VASSERT(p[j] == v[i][j], "individuals supplied by the user are starting points"); else VASSERT((p[j] >= -2.) & (p[j] <= (j ? 6. : 2.)), "other starting points are random"); } p.clear(); a.at(i)->streamline<double>(p, activityMode::ALLPARAMETERS); VASSERT(p[0] == 7., "inactive parameters stay untouched"); }
  vs_reach("done");
}
HARNESS h_empty() { GD a; auto p = std::make_shared<SInd>(); auto x = std::make_shared<GDoubleObject>(7., 0., 100.); x->setAdaptionsInactive(); p->push_back(x); a.push_back(p); bool t = false; try { a.adjustPopulation_(); } catch (const gemfony_exception &) { t = true; } VASSERT(t, "individuals without active parameters are refused"); vs_reach("done"); }
static double steps[] = {125., 250., 500.};
static void run(int ns, int nd, int maxit, bool err) {
  std::vector<double> seq; std::vector<DV> pos; g_seq = &seq; g_pos = &pos; bool max = sym_choice("maximize", 2); double fs = steps[sym_choice("finiteStep", 2) + 1], ss = steps[sym_choice("stepSize", 2)]; int N = ns * (nd + 1); if (err) g_fail = sym_choice("fail", N * maxit);
  GD a(ns, fs, ss); a.m_executor_ptr = std::make_shared<EX>(); std::vector<DV> cur; for (int i = 0; i < ns; i++) { DV v; for (int j = 0; j < nd; j++) v.push_back(sym_intd("x", 3)); cur.push_back(v); a.push_back(mk(nd, max, v)); }
  a.setMaxIteration(maxit); a.setReportIteration(0); a.setEmitTerminationReason(false); a.setMaxStallIteration(0);
  bool t = false; try { static_cast<G_OptimizationAlgorithm_Base *>(&a)->optimize(0); } catch (const gemfony_exception &) { t = true; }
  VASSERT(t == err, "a run fails if and only if an evaluation fails"); if (t) { VASSERT((int)seq.size() == (g_fail / N + 1) * N, "an incomplete gradient is not used"); vs_reach("failed"); return; }
  VASSERT((int)seq.size() == maxit * N, "all individuals are evaluated once per iteration"); check_layout(a, ns, nd); double best = seq[0], bp = seq[0];
  for (int k = 0; k < maxit; k++) {
    for (int i = 0; i < ns; i++) {
      int b = k * N; for (int j = 0; j < nd; j++) VASSERT(pos[b + i][j] == cur[i][j], "starting points move against the gradient by step size times difference quotient");
      for (int j = 0; j < nd; j++) { auto &c = pos[b + ns + i * nd + j]; VASSERT((int)c.size() == nd, "parameters are complete"); for (int l = 0; l < nd; l++) VASSERT(c[l] == cur[i][l] + (l == j ? fs / 1000. * (l ? 8. : 4.) : 0.), "each child differs from its parent in one parameter, by the finite step"); }
      for (int j = 0; j < nd; j++) { double d = seq[b + ns + i * nd + j] - seq[b + i]; if (max) d = -d; cur[i][j] -= ss / fs * d; }
      double f = seq[b + i]; if (max ? f > bp : f < bp) bp = f;
    }
    for (int i = 0; i < N; i++) { double f = seq[k * N + i]; if (max ? f > best : f < best) best = f; }
  }
  auto g = a.getBestGlobalIndividual<SInd>(); VASSERT(g->is_processed() && g->raw_fitness(0) == best && seq[g->ev] == best, "the best individual of all evaluations is available"); DV p; g->streamline<double>(p, activityMode::ACTIVEONLY); for (int j = 0; j < nd; j++) VASSERT(p[j] == pos[g->ev][j], "the best individual has the parameters it was evaluated with");
  double kn = std::get<0>(a.getBestKnownPrimaryFitness()); VASSERT(!(max ? bp > kn : bp < kn) && !(max ? kn > best : kn < best), "the best known fitness is at least as good as the best starting point"); vs_reach("done");
}
// the course of a run without book-keeping of the best solutions
static void course(int ns, int nd, int maxit) {
  std::vector<double> seq; std::vector<DV> pos; g_seq = &seq; g_pos = &pos; bool max = sym_choice("maximize", 2); double fs = steps[sym_choice("finiteStep", 2) + 1], ss = steps[sym_choice("stepSize", 2)]; int N = ns * (nd + 1); 
  GD a(ns, fs, ss); a.m_executor_ptr = std::make_shared<EX>(); std::vector<DV> cur; for (int i = 0; i < ns; i++) { DV v; for (int j = 0; j < nd; j++) v.push_back(sym_intd("x", 6)); cur.push_back(v); a.push_back(mk(nd, max, v)); }
  a.adjustPopulation_(); a.setIndividualPersonalities(); a.init();
  for (int k = 0; k < maxit; k++) {
    a.m_iteration = k; if (k) a.updateParentIndividuals(); a.updateChildParameters(); a.runFitnessCalculation_(); int b = k * N; VASSERT((int)seq.size() == b + N, "all individuals are evaluated once per iteration");
    for (int i = 0; i < ns; i++) {
      for (int j = 0; j < nd; j++) VASSERT(pos[b + i][j] == cur[i][j], "starting points move against the gradient by step size times difference quotient");
      for (int j = 0; j < nd; j++) { auto &c = pos[b + ns + i * nd + j]; VASSERT((int)c.size() == nd, "parameters are complete"); for (int l = 0; l < nd; l++) VASSERT(c[l] == cur[i][l] + (l == j ? fs / 1000. * (l ? 8. : 4.) : 0.), "each child differs from its parent in one parameter, by the finite step"); }
      for (int j = 0; j < nd; j++) { double d = seq[b + ns + i * nd + j] - seq[b + i]; if (max) d = -d; cur[i][j] -= ss / fs * d; }
    }
    for (int i = 0; i < N; i++) VASSERT(a.at(i)->getPersonalityTraits<TR>()->getPopulationPosition() == (size_t)i, "individuals know their position");
  }
  check_layout(a, ns, nd); vs_reach("done");
}
HARNESS h_course1() { g_bits = 8; course(1, 1, 4); }
HARNESS h_course2() { g_bits = 6; course(1, 3, 3); }
HARNESS h_course3() { g_bits = 6; course(2, 2, 2); }
HARNESS h_run1() { g_bits = 2; run(1, 1, 2, false); }
HARNESS h_run2() { g_bits = 1; run(2, 1, 2, false); }
HARNESS h_run3() { g_bits = 2; run(1, 2, 2, false); }
HARNESS h_err() { run(2, 1, 2, true); }
HARNESS h_settings() {
  GD a; double fs = sym_fin("finiteStep"), ss = sym_fin("stepSize"), o1 = a.getFiniteStep(), o2 = a.getStepSize(); bool r1 = false, r2 = false, r3 = false; try { a.setFiniteStep(fs); } catch (const gemfony_exception &) { r1 = true; } try { a.setStepSize(ss); } catch (const gemfony_exception &) { r2 = true; } auto n = sym_u64("n"), o3 = (std::uint64_t)a.getNStartingPoints(); try { a.setNStartingPoints(n); } catch (const gemfony_exception &) { r3 = true; }
  VASSERT((int)r1 == (int)((fs <= 0.) | (fs > 1000.)) && (int)r2 == (int)((ss <= 0.) | (ss > 1000.)) && (int)r3 == (int)(n == 0), "settings are checked"); VASSERT(a.getFiniteStep() == (r1 ? o1 : fs) && a.getStepSize() == (r2 ? o2 : ss) && a.getNStartingPoints() == (r3 ? o3 : n), "settings are stored, rejected ones are not"); vs_reach(r1 || r2 ? "refused" : "accepted");
}
// arbitrary starting points: all other parameters of a child are exactly those of its parent
HARNESS h_exact() {
  std::vector<double> seq; std::vector<DV> pos; g_seq = &seq; g_pos = &pos; static const double fst[] = {1., 13., 70.}; double fs = fst[sym_choice("finiteStep", 3)]; int nd = 2 + sym_choice("params", 2); DV x; for (int j = 0; j < nd; j++) { double v = sym_fin("x"); VASSUME((v >= -2.) & (v <= 2.)); x.push_back(v); }
  GD a(1, fs, 100.); a.m_executor_ptr = std::make_shared<EX>(); a.push_back(mk(nd, false, x)); a.adjustPopulation_(); a.setIndividualPersonalities(); a.init(); a.updateChildParameters();
  for (int c = 0; c <= nd; c++) { DV p; a.at(c)->streamline<double>(p, activityMode::ACTIVEONLY); VASSERT((int)p.size() == nd, "parameters are complete"); for (int l = 0; l < nd; l++) if (l + 1 != c) VASSERT((p[l] == x[l]) | (vs_bits(p[l]) == vs_bits(x[l])), "each child differs from its parent in one parameter only"); else { double e = x[l] + a.adjustedFiniteStep_[l]; VASSERT((p[l] == e) | (vs_bits(p[l]) == vs_bits(e)), "each child differs from its parent by the finite step"); } }
  for (int l = 0; l < nd; l++) { double r = a.adjustedFiniteStep_[l] / (fs / 1000. * (l ? 8. : 4.)); VASSERT(r > 1. - 1e-12 && r < 1. + 1e-12, "the finite step is scaled with the range of the parameter"); } vs_reach("done");
}
