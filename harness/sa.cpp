// GSimulatedAnnealing: selection, temperature, population repair
#include "fix.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
using SA = GSimulatedAnnealing; using TR = GSimulatedAnnealing_PersonalityTraits; using EX = Gem::Courtier::GSerialExecutorT<GParameterSet>;
// fitness of parents after selection: the i-th best child competes with the i-th parent
static bool accepted(double p, double c, double t, bool max, unsigned &draw) {
  double d = max ? p - c : c - p; if (d <= 0.) return true;
  double pr = std::exp(-d / t); if (pr >= 1.) return true; VASSERT(draw < vsr::nlast, "worse children are accepted by chance"); return vsr::last[draw++] < pr;
}
static const double temps[] = {4., 0.125};
static void select(int n, int np, int late) {
  SA a; bool max = sym_choice("maximize", 2); double t = temps[sym_choice("temperature", 2)]; double al = 0.9; a.setPopulationSizes(n, np); a.m_default_n_children = n - np; a.m_offset = 0; a.m_iteration = 1; a.m_t = t; a.setTDegradationStrength(al);
  std::vector<double> f; for (int i = 0; i < n + late; i++) { double v = sym_intd("f", np == 2 ? 2 : 3); f.push_back(v); auto p = mkInd<TR>(i, {v}, max); if (i < np) p->getPersonalityTraits<TR>()->setIsParent(); else p->getPersonalityTraits<TR>()->setIsChild(); a.push_back(p); }
  auto bet = [max](double x, double y) { return max ? x > y : x < y; };
  vsr::nlast = 0; a.selectBest_();
  std::vector<double> c(f.begin() + np, f.end()); for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++) if (bet(c[j], c[i])) std::swap(c[i], c[j]);
  std::vector<double> w; unsigned draw = 0; for (int i = 0; i < np; i++) { bool acc = accepted(f[i], c[i], t, max, draw); w.push_back(acc ? c[i] : f[i]); vs_reach(acc ? "accepted" : "kept"); }
  if (np == 2 && bet(w[1], w[0])) std::swap(w[0], w[1]);
  VASSERT((int)a.size() == n, "the population has its nominal size"); VASSERT(a.getT() == t * al, "the temperature is lowered once per iteration");
  for (int i = 0; i < n; i++) {
    auto x = std::static_pointer_cast<Ind>(a.at(i)); VASSERT(x->getPersonalityTraits<TR>()->isParent() == (i < np), "parents and children are marked"); VASSERT(x->is_processed() && x->raw_fitness(0) == f[x->id] && x->f[0] == f[x->id], "individuals keep their own results");
    if (i < np) VASSERT(x->raw_fitness(0) == w[i], "better children replace parents, worse ones with the probability belonging to temperature and loss; parents are sorted"); for (int j = 0; j < i; j++) VASSERT(a.at(j) != a.at(i), "individuals are distinct objects");
  }
}
HARNESS h_select() { select(3, 1, 0); }
HARNESS h_select2() { select(4, 2, 0); }
HARNESS h_select_late() { select(2, 1, 1); }
HARNESS h_fix() { fixit<SA, TR>(sym_choice("size", 4), 1 + sym_choice("parents", 2), sym_choice("old", 3), 1); }
HARNESS h_fix_large() { fixit<SA, TR>(19, 17, 1, 2); }
HARNESS h_sanity() {
  int n = 1 + sym_choice("size", 5), np = sym_choice("parents", 4); bool ok = true; SA a; a.setPopulationSizes(n, np); a.m_iteration = 1; a.m_offset = 0; for (int i = 0; i < n; i++) a.push_back(mkInd<TR>(i, {(double)((i * 2) % 3)}, false));
  try { a.populationSanityChecks_(); } catch (const gemfony_exception &) { ok = false; }
  VASSERT(ok == (np > 0 && n >= 2 * np), "each parent needs a child competing with it"); if (!ok) { vs_reach("refused"); return; }
  a.m_default_n_children = n - np; a.selectBest_(); VASSERT((int)a.size() == n, "the population keeps its size"); vs_reach("selected");
}
HARNESS h_settings() {
  SA a; double t = sym_fin("t0"), al = sym_fin("alpha"); bool r1 = false, r2 = false; double o1 = a.getT0(), o2 = a.getTDegradationStrength(); try { a.setT0(t); } catch (const gemfony_exception &) { r1 = true; } try { a.setTDegradationStrength(al); } catch (const gemfony_exception &) { r2 = true; }
  VASSERT((int)r1 == (int)(t <= 0.) && (int)r2 == (int)(al <= 0.), "temperature and degradation strength must be positive"); VASSERT(a.getT0() == (r1 ? o1 : t) && a.getTDegradationStrength() == (r2 ? o2 : al), "settings are stored, rejected ones are not"); VASSERT(a.getT() == a.getT0(), "optimization starts with the start temperature"); vs_reach(r1 || r2 ? "refused" : "accepted");
}
// whole runs
static std::vector<double> *g_seq;
struct SInd : public GParameterSet {
  int ev = -1; SInd() : GParameterSet(std::size_t(1)) {} SInd(const SInd &o) = default; void load_(const GObject *cp) override { GParameterSet::load_(cp); ev = static_cast<const SInd *>(cp)->ev; } GObject *clone_() const override { return new SInd(*this); }
  std::size_t customAdaptions() override { return 1; } double fitnessCalculation() override { double v = sym_intd("f", 3); ev = g_seq->size(); g_seq->push_back(v); return v; }
};
struct MSA : public SA { std::vector<double> pf, ts; std::vector<unsigned> dr; GObject *clone_() const override { return new MSA(*this); } MSA() = default; MSA(const MSA &) = default;
  std::tuple<double, double> cycleLogic_() override { ts.push_back(getT()); vsr::nlast = 0; auto r = SA::cycleLogic_(); pf.push_back(this->at(0)->raw_fitness(0)); dr.push_back(vsr::nlast); if (pf.size() > 1) { double c = 1e300; for (size_t k = g_seq->size() - (this->size() - 1); k < g_seq->size(); k++) if ((*g_seq)[k] < c) c = (*g_seq)[k]; double p = pf[pf.size() - 2]; unsigned d = 0; VASSERT(pf.back() == (accepted(p, c, ts.back(), false, d) ? c : p), "the best child replaces the parent as requested"); if (pf.back() > p) vs_reach("worse"); } return r; } };
HARNESS h_run() {
  std::vector<double> seq; g_seq = &seq; MSA a; int n = 3, mi = 2; a.m_executor_ptr = std::make_shared<EX>(); a.push_back(std::make_shared<SInd>()); a.setPopulationSizes(n, 1); a.setNThreads(1); a.setMaxIteration(mi); a.setReportIteration(0); a.setEmitTerminationReason(false); a.setMaxStallIteration(0); a.setT0(2.); a.setTDegradationStrength(0.5);
  static_cast<G_OptimizationAlgorithm_Base *>(&a)->optimize(0); double t = 2.; for (int i = 0; i < mi; i++) { VASSERT(a.ts[i] == t, "the temperature decreases from the start temperature set by the user"); t *= 0.5; }
  VASSERT((int)a.getIteration() == mi && (int)seq.size() == n + (mi - 1) * (n - 1) && (int)a.size() == n, "all individuals are evaluated in the first iteration, children afterwards"); double best = 1e300; for (double d : seq) if (d < best) best = d;
  auto g = a.getBestGlobalIndividual<SInd>(); VASSERT(g->raw_fitness(0) == best && seq[g->ev] == best, "the best individual ever found is available even if the parent got worse"); VASSERT(std::get<0>(a.getBestKnownPrimaryFitness()) == best, "the best fitness ever found is known");
  a.resetToOptimizationStart(); VASSERT(a.getT() == 2., "resetting restores the start temperature"); vs_reach("done");
}
