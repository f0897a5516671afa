// G_OptimizationAlgorithm_Base: iteration logic, book-keeping of the best solutions, halt criteria
#include "ind.hpp"
#include "geneva/G_OptimizationAlgorithm_Base.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
using EX = Gem::Courtier::GSerialExecutorT<GParameterSet>; using TR = GEvolutionaryAlgorithm_PersonalityTraits;
static unsigned g_bits = 3; static bool g_err; static int g_failed;
// every evaluation yields an arbitrary fitness; the sequence is recorded
static std::vector<double> *g_seq;
struct SInd : public GParameterSet {
  int ev = -1; SInd() : GParameterSet(std::size_t(1)) {} SInd(const SInd &o) = default;
  void load_(const GObject *cp) override { GParameterSet::load_(cp); ev = static_cast<const SInd *>(cp)->ev; }
  GObject *clone_() const override { return new SInd(*this); }
  std::size_t customAdaptions() override { return 1; }
  double fitnessCalculation() override { if (g_err) { int b = sym_choice("behaviour", 3); if (b) { ev = -2; g_failed++; if (b == 1) throw std::runtime_error("boom"); force_set_error("flag"); return -100.; } } double v = sym_intd("f", g_bits); ev = g_seq->size(); g_seq->push_back(v); return v; }
};
static int g_init, g_fin, g_stall; static bool g_custom;
struct Alg : public G_OptimizationAlgorithm_Base {
  std::vector<double> best; std::vector<int> bests; bool max = false; std::vector<bool> stalled; std::vector<std::uint32_t> its;
  Alg() = default; Alg(const Alg &) = default;
  GObject *clone_() const override { return new Alg(*this); } std::string name_() const override { return "Alg"; }
  std::string getAlgorithmPersonalityType_() const override { return "PERSONALITY_X"; } std::string getAlgorithmName_() const override { return "X"; }
  void informationFunction_(const infoMode &, G_OptimizationAlgorithm_Base *const) {}
  std::size_t getNProcessableItems_() const override { return this->size(); }
  std::shared_ptr<GPersonalityTraits> getPersonalityTraits_() const override { return std::make_shared<TR>(); }
  void adjustPopulation_() override { this->resize_clone(this->getDefaultPopulationSize(), this->at(0)); }
  void actOnStalls_() override { g_stall++; }
  void init() override { G_OptimizationAlgorithm_Base::init(); g_init++; } void finalize() override { g_fin++; G_OptimizationAlgorithm_Base::finalize(); }
  bool customHalt_() const override { return g_custom; }
  void runFitnessCalculation_() override { for (auto &i : *this) i->set_processing_status(Gem::Courtier::processingStatus::DO_PROCESS); this->workOn(this->m_data_cnt, false, "x"); }
  std::tuple<double, double> cycleLogic_() override {
    its.push_back(getIteration()); for (auto &i : *this) VASSERT(i->getAssignedIteration() == getIteration(), "individuals know the current iteration");
    runFitnessCalculation_(); std::size_t b = 0; for (std::size_t i = 1; i < this->size(); i++) if (isBetter(this->at(i), this->at(b))) b = i; return this->at(b)->getFitnessTuple();
  }
};
static bool bet(double a, double b, bool max) { return max ? a > b : a < b; }
static std::shared_ptr<SInd> ind(bool max) { auto p = std::make_shared<SInd>(); p->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); return p; }
// one run with arbitrary fitness and halt criteria
static void run(Alg &a, int n, int maxit, bool max, bool stalls, bool quality, std::uint32_t off) {
  g_seq->clear(); g_init = g_fin = g_stall = 0; g_custom = false;
  std::uint32_t mi = maxit, mn = 0, ms = 0, st = 0; double q = 0; bool hq = false;
  if (stalls) { ms = sym_choice("maxStall", 3); st = sym_choice("stallThreshold", 3); mn = off + sym_choice("minIteration", 2); } if (quality) { q = sym_intd("threshold", g_bits); hq = sym_choice("hasThreshold", 2); g_custom = !hq && sym_choice("custom", 2); mn = off + sym_choice("minIteration", 2); }
  a.setMaxIteration(off + mi); a.setMinIteration(mn); a.setMaxStallIteration(ms); a.setStallCounterThreshold(st); a.setQualityThreshold(q, hq); a.setReportIteration(0); a.setDefaultPopulationSize(n); a.setEmitTerminationReason(false);
  auto r = static_cast<G_OptimizationAlgorithm_Base *>(&a); r->optimize(off);
  // expected course
  double best = max ? -1e300 : 1e300; std::uint32_t stall = 0, it = 0; int acts = 0; double cur = 0;
  while (true) {
    cur = (*g_seq)[it * n]; for (int i = 1; i < n; i++) if (bet((*g_seq)[it * n + i], cur, max)) cur = (*g_seq)[it * n + i];
    if (bet(cur, best, max)) { best = cur; stall = 0; } else stall++;
    if (st && stall > st) acts++;
    it++; bool min = off + it > mn, h = false; if (min) h = it >= mi || (ms && stall > ms) || (hq && bet(best, q, max)) || g_custom;
    if (h) break;
    VASSERT(g_seq->size() > it * n, "optimization goes on until a halt criterion triggers"); if (g_seq->size() <= it * n) return;
  }
  VASSERT(g_seq->size() == it * n, "optimization stops as soon as a halt criterion triggers"); VASSERT(a.getIteration() == off + it && a.getStartIteration() == off, "iterations are counted");
  VASSERT(a.its.size() == it && a.its[0] == off && a.its[it - 1] == off + it - 1, "iterations are numbered consecutively, starting with the offset");
  VASSERT(g_init == 1 && g_fin == 1 && a.halted(), "initialization and finalization happen once"); VASSERT(g_stall == acts && a.getStallCounter() == stall, "stalls are counted and acted upon");
  VASSERT(std::get<0>(a.getBestKnownPrimaryFitness()) == best && std::get<1>(a.getBestKnownPrimaryFitness()) == best, "the best known fitness is the best of all iterations"); VASSERT(std::get<1>(a.getBestCurrentPrimaryFitness()) == cur, "the current fitness is the best of the last iteration");
  auto g = a.template getBestGlobalIndividual<SInd>(); VASSERT(g && g->is_processed() && g->raw_fitness(0) == best && (*g_seq)[g->ev] == best, "the best individual of all iterations is available and carries its results");
  auto c = a.template getBestIterationIndividual<SInd>(); VASSERT(c && c->raw_fitness(0) == cur && c->ev >= (int)((it - 1) * n), "the best individual of the last iteration is available"); VASSERT(a.getBestIterationIndividuals_().size() == (size_t)n, "all individuals of the last iteration are available");
  for (auto &i : a) { VASSERT(i->getPersonality() == "PERSONALITY_NONE", "individuals lose their personality at the end"); VASSERT(i->getNStalls() == stall && std::get<1>(i->getBestKnownPrimaryFitness()) == best, "individuals know about stalls and the best fitness"); }
  if (it < mi) vs_reach("early"); vs_reach("done");
}
static void one(int n, int maxit, bool stalls, bool quality, bool second = false) {
  std::vector<double> seq; g_seq = &seq; bool max = sym_choice("maximize", 2); Alg a; a.m_executor_ptr = std::make_shared<EX>(); a.push_back(ind(max));
  run(a, n, maxit, max, stalls, quality, stalls ? sym_choice("offset", 2) * 3 : 0);
}
HARNESS h_run() { one(2, 2, false, false); }
HARNESS h_run_stall() { one(1, 4, true, false); }
HARNESS h_run_quality() { one(1, 3, false, true); }

// complete runs of evolutionary algorithms
struct MEA : public GEvolutionaryAlgorithm {
  std::vector<std::vector<double>> pf; // fitness of the parents after each iteration
  std::tuple<double, double> cycleLogic_() override { auto t = GEvolutionaryAlgorithm::cycleLogic_(); std::vector<double> v; for (std::size_t i = 0; i < getNParents(); i++) v.push_back(this->at(i)->raw_fitness(0)); pf.push_back(v); return t; }
};
static void ea(sortingMode m, int n, int np, int maxit) {
  std::vector<double> seq; g_seq = &seq; g_custom = false; MEA a; a.m_executor_ptr = std::make_shared<EX>(); a.push_back(ind(false)); a.setPopulationSizes(n, np); a.setSortingScheme(m); a.setNThreads(1); a.setMaxIteration(maxit); a.setReportIteration(0); a.setEmitTerminationReason(false); a.setMaxStallIteration(0);
  static_cast<G_OptimizationAlgorithm_Base *>(&a)->optimize(0);
  VASSERT((int)a.getIteration() == maxit && (int)seq.size() == n + (maxit - 1) * (n - np), "all individuals are evaluated in the first iteration, children afterwards"); VASSERT((int)a.size() == n, "the population has its nominal size");
  double best = 1e300; for (double d : seq) if (d < best) best = d;
  auto g = a.getBestGlobalIndividual<SInd>(); VASSERT(g->raw_fitness(0) == best && seq[g->ev] == best, "the best individual ever found is available"); VASSERT(std::get<0>(a.getBestKnownPrimaryFitness()) == best, "the best fitness ever found is known");
  for (int k = 0; k < maxit; k++) for (int i = 1; i < np; i++) VASSERT(!(a.pf[k][i] < a.pf[k][0]), "the best parent comes first");
  double b = 1e300; for (int i = 0; i < n; i++) if (seq[i] < b) b = seq[i]; VASSERT(a.pf[0][0] == b, "the first iteration selects among all individuals");
  for (int k = 1; k < maxit; k++) {
    double c = 1e300; for (int i = 0; i < n - np; i++) { double d = seq[n + (k - 1) * (n - np) + i]; if (d < c) c = d; }
    if (m == sortingMode::MUCOMMANU_SINGLEEVAL) VASSERT(a.pf[k][0] == c, "parents are chosen among the children"); else { double o = a.pf[k - 1][0]; VASSERT(a.pf[k][0] == (c < o ? c : o), "the best solution is never lost"); }
  }
  for (std::size_t i = 0; i < a.size(); i++) { auto x = std::static_pointer_cast<SInd>(a.at(i)); if (x->is_processed()) VASSERT(seq[x->ev] == x->raw_fitness(0), "fitness values belong to the individuals"); }
  vs_reach("done");
}
HARNESS h_ea_plus() { ea(sortingMode::MUPLUSNU_SINGLEEVAL, 3, 1, 2); }
HARNESS h_ea_comma() { ea(sortingMode::MUCOMMANU_SINGLEEVAL, 3, 1, 2); }
HARNESS h_ea_retain() { ea(sortingMode::MUNU1PRETAIN_SINGLEEVAL, 4, 2, 2); }
// individuals whose evaluation fails never make it into the next generation or into the list of best individuals
HARNESS h_ea_err() {
  std::vector<double> seq; g_seq = &seq; g_custom = false; g_err = true; g_bits = 2; int n = 2, np = 1; MEA a; a.m_executor_ptr = std::make_shared<EX>(); a.push_back(ind(false)); a.setPopulationSizes(n, np); a.setSortingScheme(sortingMode::MUPLUSNU_SINGLEEVAL); a.setNThreads(1); a.setMaxIteration(2); a.setReportIteration(0); a.setEmitTerminationReason(false); a.setMaxStallIteration(0);
  bool thrown = false; try { static_cast<G_OptimizationAlgorithm_Base *>(&a)->optimize(0); } catch (const gemfony_exception &) { thrown = true; }
  VASSERT(thrown == (seq.empty() && g_failed == 2), "a run fails only if no individual could be evaluated in the first iteration"); if (thrown) { vs_reach("failed"); return; }
  double best = 1e300; for (double d : seq) if (d < best) best = d;
  VASSERT((int)a.size() == n && seq.size() + g_failed == 3, "the population is completed"); auto g = a.getBestGlobalIndividual<SInd>(); VASSERT(g->ev >= 0 && g->raw_fitness(0) == best && seq[g->ev] == best, "the best individual is the best among those evaluated successfully");
  VASSERT(a.pf.back()[0] == best && !a.at(0)->has_errors(), "parents are evaluated individuals"); if (g_failed) vs_reach("recovered"); vs_reach("done");
}
// ---- halt criteria
static void crit(Alg &a, bool max) { a.setEmitTerminationReason(false); a.setReportIteration(0); a.push_back(ind(max)); g_custom = false; }
HARNESS h_halt() {
  bool max = sym_choice("maximize", 2); Alg a; crit(a, max); auto it = sym_u32("iteration"), mx = sym_u32("max"), mn = sym_u32("min"), st = sym_u32("stalls"), ms = sym_u32("maxStalls"); g_custom = sym_choice("custom", 2); bool hq = sym_choice("hasThreshold", 2); double q = sym_intd("threshold", 8), b = sym_intd("best", 8);
  a.m_maxIteration = mx; a.m_minIteration = mn; a.setMaxStallIteration(ms); a.m_stallCounter = st; a.m_iteration = it; a.setQualityThreshold(q, hq); a.m_bestKnownPrimaryFitness = std::make_tuple(b, sym_intd("transformed", 8)); a.m_startTime = std::chrono::system_clock::now() - std::chrono::hours(1);
  bool user = sym_choice("signal", 2); if (user) GObject::sigHupHandler(SIGHUP);
  bool h = a.halt(); bool w = ((mx != 0) & (it >= mx)) | ((ms != 0) & (st > ms)); if (hq && (max ? b > q : b < q)) w = true; if (g_custom) w = true; w = w & (it > mn); if (user) w = true;
  VASSERT((int)h == (int)w, "optimization halts if and only if a halt criterion applies"); vs_reach(h ? "halt" : "go on");
}
HARNESS h_halt_time() {
  Alg a; crit(a, false); double mx = sym_intd("maxDuration", 5), mn = sym_intd("minDuration", 5); VASSUME(mx >= 0 && mn >= 0 && (mx == 0 || mx >= mn)); long el = (long)sym_choice("elapsed", 40);
  a.setMaxTime(std::chrono::duration<double>(mx)); a.setMinTime(std::chrono::duration<double>(mn)); VASSERT(a.getMaxTime().count() == mx && a.getMinTime().count() == mn, "durations are stored"); auto now = std::chrono::system_clock::now(); a.m_startTime = now - std::chrono::milliseconds(el * 500);
  VASSERT((int)a.minTimePassed(now) == (int)(el > 2 * mn), "the minimum duration is observed"); VASSERT((int)a.maxDurationHaltSet() == (int)(mx != 0), "the maximum duration is optional"); if (mx != 0) VASSERT((int)a.timedHalt(now) == (int)(el >= 2 * mx), "the maximum duration is observed"); vs_reach("done");
}
HARNESS h_limits() {
  Alg a; auto mx = sym_u32("max"), mn = sym_u32("min"), mx2 = sym_u32("max2"); double d1 = sym_intd("maxDuration", 6), d2 = sym_intd("minDuration", 6); bool t = false;
  a.setMaxIteration(mx); try { a.setMinIteration(mn); } catch (const gemfony_exception &) { t = true; } VASSERT((int)t == (int)((mx != 0) & (mx <= mn)), "the minimum number of iterations must be smaller than the maximum"); VASSERT(a.getMinIteration() == (t ? 0 : mn) && a.getMaxIteration() == mx, "limits are stored");
  auto m0 = a.getMinIteration(); bool t2 = false; try { a.setMaxIteration(mx2); } catch (const gemfony_exception &) { t2 = true; } VASSERT((int)t2 == (int)((mx2 != 0) & (mx2 <= m0)), "the maximum number of iterations must exceed the minimum"); VASSERT(a.getMaxIteration() == (t2 ? mx : mx2), "limits are stored");
  VASSUME(d1 >= 0 && d2 >= 0); a.setMaxTime(std::chrono::duration<double>(d1)); bool t3 = false; try { a.setMinTime(std::chrono::duration<double>(d2)); } catch (const gemfony_exception &) { t3 = true; } VASSERT((int)t3 == (int)(d1 != 0 && d1 < d2), "the minimum duration must not exceed the maximum"); vs_reach(t || t2 || t3 ? "refused" : "accepted");
}
void vs_file_put(const std::string &n, const std::string &d); void vs_file_del(const std::string &n);
HARNESS h_halt_touch() {
  Alg a; crit(a, false); a.setMaxIteration(1000); a.m_minIteration = 100; bool on = sym_choice("enabled", 2); int when = sym_choice("touched", 3); a.setTerminationFile("stopfile", on);
  if (when == 1) Gem::Common::touch_time("stopfile", "x"); a.m_file_startTime = Gem::Common::touch_time("marker", "m", true); VASSERT(!std::filesystem::exists("marker"), "marker files are removed"); if (when == 2) Gem::Common::touch_time("stopfile", "x");
  bool h = a.halt(); VASSERT(h == (on && when == 2), "optimization halts if the termination file was modified after the start"); vs_reach(h ? "halt" : "go on");
}
