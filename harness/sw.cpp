// GSwarmAlgorithm: population layout, moves, bests, lost and late individuals
#include "ind.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
#include <map>
using SW = GSwarmAlgorithm; using TR = GSwarmAlgorithm_PersonalityTraits; using DV = std::vector<double>; using namespace Gem::Courtier;
struct Rec { DV pos; double f; };
static std::vector<Rec> *g_seq; static int g_fail = -1; static unsigned g_bits = 3;
struct SInd : public GParameterSet {
  int ev = -1; std::vector<Rec> hist; SInd() : GParameterSet(std::size_t(1)) {} SInd(const SInd &o) = default; void load_(const GObject *cp) override { GParameterSet::load_(cp); auto p = static_cast<const SInd *>(cp); ev = p->ev; hist = p->hist; } GObject *clone_() const override { return new SInd(*this); }
  DV pos() const { DV p; streamline<double>(p, activityMode::ACTIVEONLY); return p; }
  double fitnessCalculation() override { double v = sym_intd("f", g_bits); Rec r{pos(), v}; ev = g_seq->size(); hist.push_back(r); g_seq->push_back(r); if (ev == g_fail) throw std::runtime_error("boom"); return v; }
};
static SInd &I(const std::shared_ptr<GParameterSet> &p) { return *static_cast<SInd *>(p.get()); }
// nd active parameters, one inactive in front
static std::shared_ptr<SInd> mk(int nd, bool max, const DV &v, double lo, double hi, bool constr = false) {
  auto p = std::make_shared<SInd>(); p->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); auto x = std::make_shared<GDoubleObject>(7., 0., 100.); x->setAdaptionsInactive(); p->push_back(x);
  for (int i = 0; i < nd; i++) if (constr) p->push_back(std::make_shared<GConstrainedDoubleObject>(v[i], lo, hi)); else p->push_back(std::make_shared<GDoubleObject>(v[i], lo, hi)); return p;
}
static void quiet(SW &a, int maxit) { a.setMaxIteration(maxit); a.setReportIteration(0); a.setEmitTerminationReason(false); a.setMaxStallIteration(0); }
HARNESS h_pop() {
  int nn = 1 + sym_choice("neighborhoods", 3), nm = 2 + sym_choice("members", 2), n = sym_choice("size", nn * nm + 3); bool rf = sym_choice("random", 2); SW a; a.setSwarmSizes(nn, nm); a.setNeighborhoodsRandomFillUp(rf); VASSERT(a.getNNeighborhoods() == (size_t)nn && a.getDefaultNNeighborhoodMembers() == (size_t)nm && a.getDefaultPopulationSize() == (size_t)(nn * nm), "sizes are stored");
  std::vector<double> v; for (int i = 0; i < n; i++) { v.push_back(100 + i); a.push_back(mk(1, false, {v[i]}, -2., 6.)); }
  bool t = false; try { a.adjustPopulation_(); } catch (const gemfony_exception &) { t = true; } VASSERT(t == (n == 0), "an individual is needed"); if (t) { vs_reach("refused"); return; }
  int want = n > nn * nm ? n : nn * nm; VASSERT((int)a.size() == want, "the population has the requested size, supplied individuals are not thrown away"); size_t sum = 0; for (int i = 0; i < nn; i++) sum += a.getCurrentNNeighborhoodMembers(i); VASSERT((int)sum == want, "each individual belongs to one neighborhood");
  for (int i = 0; i < nn; i++) VASSERT(a.getCurrentNNeighborhoodMembers(i) == (size_t)nm || (i == nn - 1 && n > nn * nm), "neighborhoods have the requested size"); VASSERT(a.neighborhoodsHaveNominalValues() == (want == nn * nm), "deviations from the requested size are recognized");
  if (n >= nn * nm) { for (int i = 0; i < n; i++) VASSERT(I(a.at(i)).pos()[0] == v[i], "supplied individuals stay where they are"); vs_reach("complete"); return; }
  for (int i = 0; i < nn; i++) for (int m = 0; m < nm; m++) { double x = I(a.at(i * nm + m)).pos()[0]; bool user = i < n; if (user && (m == 0 || !rf)) VASSERT(x == v[i], "supplied individuals lead their neighborhoods, which are filled with copies if requested"); else if (m && !rf) VASSERT(x == I(a.at(i * nm)).pos()[0], "neighborhoods are filled with copies"); else VASSERT((x >= -2.) & (x < 6.), "other individuals have random values"); }
  for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < i; j++) VASSERT(a.at(i) != a.at(j), "individuals are distinct objects"); vs_reach("filled");
}
HARNESS h_settings() {
  SW a; double p = sym_fin("percentage"); double o = a.getVelocityRangePercentage(); bool t = false; try { a.setVelocityRangePercentage(p); } catch (const gemfony_exception &) { t = true; } VASSERT((int)t == (int)((p <= 0.) | (p > 1.)) && a.getVelocityRangePercentage() == (t ? o : p), "velocities may cover up to the full range");
  double c[4]; for (auto &x : c) x = sym_fin("c"); a.setCPersonal(c[0]); a.setCNeighborhood(c[1]); a.setCGlobal(c[2]); a.setCVelocity(c[3]); uint32_t r = sym_u32("r"); a.setRepulsionThreshold(r); VASSERT(a.getCPersonal() == c[0] && a.getCNeighborhood() == c[1] && a.getCGlobal() == c[2] && a.getCVelocity() == c[3] && a.getRepulsionThreshold() == r, "settings are stored");
  size_t nn = sym_choice("nn", 3), nm = sym_choice("nm", 4); a.setSwarmSizes(nn, nm); VASSERT(a.getNNeighborhoods() == (nn ? nn : 1) && a.getDefaultNNeighborhoodMembers() == (nm > 2 ? nm : 2), "swarms have at least one neighborhood of two"); vs_reach(t ? "refused" : "accepted");
}
// ---- velocities stay inside of their range, directions are kept
HARNESS h_prune() {
  SW a; int n = 1 + sym_choice("n", 3); DV v, o; double f = 0.; for (int i = 0; i < n; i++) { static const double mx[] = {0.5, 1., 4.}; a.m_dbl_vel_max_cnt.push_back(mx[i]); double x = sym_choice("v", 9) * 0.5 - 2.; v.push_back(x); double q = std::fabs(x) / mx[i]; if (q > f) f = q; }
  o = v; a.pruneVelocity(v); for (int i = 0; i < n; i++) { VASSERT(std::fabs(v[i]) <= a.m_dbl_vel_max_cnt[i] * (1. + 1e-12), "velocities stay inside of their range"); double e = f > 1. ? o[i] / f : o[i]; VASSERT(std::fabs(v[i] - e) <= 1e-12, "velocities are only shortened as far as needed, and keep their direction"); } vs_reach(f > 1. ? "pruned" : "unchanged");
}
// ---- whole course of a run
static bool g_conc; static double g_r; static double hook(double a, double b) { return a == 0. && b == 1. ? g_r : a + (b - a) * (g_conc ? 0.25 : (double)(vs_sym("draw", 2)) / 4.); }
static bool better(bool max, double x, double y) { return max ? x > y : x < y; }
struct Cfg { int nn, nm, nd; bool max, lin; double cp, cn, cg, cv; unsigned rep; };
struct MSW : public SW {
  Cfg c; std::vector<std::vector<Rec>> nbh; int surplus = 0; unsigned stalls = 0; GObject *clone_() const override { return new MSW(*this); }
  MSW(const Cfg &k) : c(k), nbh(k.nn) {} MSW(const MSW &) = default;
  void checkBest(const DV &p, double f, const std::vector<Rec> &h, const char *m) { bool ok = h.empty(), opt = true; for (auto &r : h) { bool same = true; for (int l = 0; l < c.nd; l++) same = same & (r.pos[l] == p[l]); ok = ok | (same & (r.f == f)); opt = opt & !better(c.max, r.f, f); } VASSERT(ok & opt, m); }
  std::tuple<double, double> cycleLogic_() override {
    bool first = inFirstIteration(); std::map<GParameterSet *, DV> expect; std::map<GParameterSet *, int> nb; std::size_t b = g_seq->size(), N = this->size(); g_r = g_conc ? 0.5 : (double)(vs_sym("r", 2)) / 4.; std::vector<std::shared_ptr<GParameterSet>> objs(m_data_cnt);
    VASSERT(first || (int)N == c.nn * c.nm, "the population keeps its size");
    for (std::size_t i = 0; i < N; i++) {
      int n = (int)i / c.nm; if (n >= c.nn) n = c.nn - 1; nb[objs[i].get()] = n; DV x = I(objs[i]).pos(); if (first) { expect[objs[i].get()] = x; continue; }
      DV pb = I(objs[i]->getPersonalityTraits<TR>()->getPersonalBest()).pos(), nbb = I(m_neighborhood_bests_cnt[n]).pos(), gb = I(m_global_best_ptr).pos(); bool rep = c.rep && stalls >= c.rep;
      for (int l = 0; l < c.nd; l++) { double v = m_velocities_cnt[i][l]; v = c.cv * v + c.cp * g_r * (pb[l] - x[l]) + c.cn * g_r * (nbb[l] - x[l]) + (c.nn > 1 ? c.cg * g_r * (gb[l] - x[l]) : 0.); x[l] = rep ? x[l] - v : x[l] + v; } if (rep) vs_reach("repelled"); expect[objs[i].get()] = x;
    }
    auto res = SW::cycleLogic_(); stalls = 0; double best = (*g_seq)[b].f; VASSERT(g_seq->size() == b + N, "each individual is evaluated once per iteration");
    for (auto &o : objs) { auto &h = I(o).hist; auto &e = expect[o.get()]; VASSERT(h.back().pos.size() == e.size(), "parameters are complete"); for (int l = 0; l < c.nd; l++) VASSERT(h.back().pos[l] == e[l], "individuals move with their velocity, towards personal, neighborhood and global bests"); nbh[nb[o.get()]].push_back(h.back()); if (better(c.max, h.back().f, best)) best = h.back().f; }
    VASSERT((int)this->size() == c.nn * c.nm, "the population has its nominal size"); VASSERT(std::get<0>(res) == best, "the best fitness of the iteration is reported"); std::vector<Rec> all;
    for (int n = 0; n < c.nn; n++) { auto &p = I(m_neighborhood_bests_cnt[n]); checkBest(p.pos(), p.raw_fitness(0), nbh[n], "neighborhood bests are the best individuals of all iterations"); all.insert(all.end(), nbh[n].begin(), nbh[n].end()); }
    auto &g = I(m_global_best_ptr); checkBest(g.pos(), g.raw_fitness(0), all, "the global best is the best individual of all iterations");
    for (std::size_t i = 0; i < this->size(); i++) { auto &o = this->at(i); VASSERT((int)o->getPersonalityTraits<TR>()->getNeighborhood() == (int)i / c.nm && nb[o.get()] == (int)i / c.nm, "individuals stay in their neighborhood"); auto &p = I(o->getPersonalityTraits<TR>()->getPersonalBest()); checkBest(p.pos(), p.raw_fitness(0), I(o).hist, "personal bests are the best solutions an individual has ever found"); }
    if (!first) stalls = 0; return res;
  }
};
static void course(int nn, int nm, int nd, int maxit, int extra, bool constr, unsigned rep, bool conc = false) {
  g_conc = conc; int q = sym_choice("mode", 4);   std::vector<Rec> seq; g_seq = &seq; vsr::hook = hook; static const double cs[] = {2., 0.5}; Cfg c{nn, nm, nd, q % 2 != 0, q >= 2, 1., 2., 0.5, cs[q % 3 != 0], rep};
  MSW a(c); a.setSwarmSizes(nn, nm); a.setCPersonal(c.cp); a.setCNeighborhood(c.cn); a.setCGlobal(c.cg); a.setCVelocity(c.cv); a.setUpdateRule(c.lin ? updateRule::SWARM_UPDATERULE_LINEAR : updateRule::SWARM_UPDATERULE_CLASSIC); a.setVelocityRangePercentage(0.5); a.setRepulsionThreshold(rep);
  for (int i = 0; i < nn * nm + extra; i++) { DV v; for (int l = 0; l < nd; l++) v.push_back(conc ? (double)((i * 5 + l * 3) % 7) + (constr ? 512. : 0.) : sym_intd("x", 3)); a.push_back(mk(nd, c.max, v, constr ? 0. : -1024., 1024., constr)); }
  a.adjustPopulation_(); a.setIndividualPersonalities(); a.m_executor_ptr = std::make_shared<GSerialExecutorT<GParameterSet>>(); a.init(); VASSERT(a.m_velocities_cnt.size() == a.size(), "each individual has a velocity"); for (auto &v : a.m_velocities_cnt) for (int l = 0; l < nd; l++) { VASSERT(v[l] >= -1024. && v[l] <= 1024., "velocities start inside of their range"); v[l] = conc ? ((&v - &a.m_velocities_cnt[0]) % 2 ? -3. : 2.) : sym_intd("v", 3); }
  for (int k = 0; k < maxit; k++) { a.m_iteration = k; if (rep) { a.m_stallCounter = sym_choice("stalls", rep + 2); a.stalls = a.m_stallCounter; } a.cycleLogic_(); }
  for (std::size_t i = 0; i < a.size(); i++) { DV p; a.at(i)->streamline<double>(p, activityMode::ALLPARAMETERS); VASSERT(p[0] == 7., "inactive parameters stay untouched"); } vs_reach("done");
}
HARNESS h_course1() { course(1, 2, 1, 3, 0, false, 0, true); }
HARNESS h_course2() { g_bits = 1; course(2, 2, 1, 2, 0, false, 0, true); }
HARNESS h_course2d() { g_bits = 2; course(2, 2, 1, 2, 0, false, 0, true); }
HARNESS h_course3() { course(1, 3, 1, 2, 0, false, 0, true); }
HARNESS h_course_dims() { course(1, 2, 2, 2, 0, false, 0); }
HARNESS h_course_constr() { course(1, 2, 1, 3, 0, true, 0, true); }
HARNESS h_repulsion() { course(1, 2, 1, 2, 0, false, 2); }
HARNESS h_surplus() { course(1, 2, 1, 2, 1, false, 0); }

// ---- individuals that are lost, late or fail
static int g_n, g_f1, g_f2, g_k1, g_k2; static double fit(int i) { static const double t[] = {5, 2, 7, 4, 1, 6, 3, 8, 0, 9, 5, 2, 4, 1, 7, 3}; return t[i % 16]; }
struct LInd : public SInd { GObject *clone_() const override { return new LInd(*this); } LInd() = default; LInd(const LInd &) = default; bool boom = false; double fitnessCalculation() override { if (boom) { boom = false; throw std::runtime_error("boom"); } double v = fit(g_seq->size()); Rec r{pos(), v}; ev = g_seq->size(); hist.push_back(r); g_seq->push_back(r); return v; } };
struct Ret { int n; Rec r; };
struct LX : public GSerialExecutorT<GParameterSet> {
  std::vector<std::shared_ptr<GParameterSet>> stash; std::vector<std::shared_ptr<GParameterSet>> back; std::vector<Ret> ret;
  void note(std::shared_ptr<GParameterSet> w) { ret.push_back({(int)w->getPersonalityTraits<TR>()->getNeighborhood(), I(w).hist.back()}); }
  void submit(std::shared_ptr<GParameterSet> w) override { int k = g_n == g_f1 ? g_k1 : g_n == g_f2 ? g_k2 : 0; g_n++; if (k == 1) return; if (k == 2) { stash.push_back(w); return; } if (k == 3) static_cast<LInd *>(w.get())->boom = true; GSerialExecutorT<GParameterSet>::submit(w); if (k == 3) VASSERT(w->has_errors(), "errors are recorded"); else note(w); }
  executor_status_t waitForReturn(std::vector<std::shared_ptr<GParameterSet>> &w, std::vector<std::shared_ptr<GParameterSet>> &old) override { if (back.size()) { back[0]->process(); note(back[0]); old.push_back(back[0]); } back = stash; stash.clear(); return this->checkExecutionState(w); }
};
HARNESS h_lost() {
  std::vector<Rec> seq; g_seq = &seq; vsr::hook = hook; g_conc = true; g_r = 0.5; int nn = 2, nm = 2, it = 4; g_n = 0; g_f1 = sym_choice("fault", 8); g_k1 = 1 + sym_choice("kind", 3); g_f2 = g_f1 + 1 + sym_choice("fault", 5); g_k2 = sym_choice("kind", 4); bool max = sym_choice("maximize", 2);
  SW a; a.setSwarmSizes(nn, nm); for (int i = 0; i < nn * nm; i++) { auto p = std::make_shared<LInd>(); p->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p->push_back(std::make_shared<GDoubleObject>(i * 3., -1024., 1024.)); a.push_back(p); }
  a.adjustPopulation_(); a.setIndividualPersonalities(); auto x = std::make_shared<LX>(); a.m_executor_ptr = x; a.init(); std::vector<Rec> nbh[2], all;
  for (int k = 0; k < it; k++) {
    a.m_iteration = k; a.markIteration(); x->ret.clear(); a.cycleLogic_(); VASSERT((int)a.size() == nn * nm, "the population has its nominal size again"); for (auto &r : x->ret) { VASSERT(r.n >= 0 && r.n < nn, "individuals belong to a neighborhood"); nbh[r.n].push_back(r.r); all.push_back(r.r); }
    for (int i = 0; i < nn * nm; i++) { auto &o = a.at(i); VASSERT((int)o->getPersonalityTraits<TR>()->getNeighborhood() == i / nm, "each neighborhood has its own individuals"); VASSERT(!o->has_errors(), "failed individuals are removed"); for (int j = 0; j < i; j++) VASSERT(a.at(j) != o, "individuals are distinct objects");
      if (!o->is_processed()) { VASSERT(k == 0 || (o->getPersonalityTraits<TR>()->noPositionUpdate()), "missing individuals are replaced by random ones in the first iteration"); I(o).hist.clear(); vs_reach("replaced"); continue; }
      VASSERT(!o->getPersonalityTraits<TR>()->noPositionUpdate(), "positions are exempt from an update only once"); auto p = I(o->getPersonalityTraits<TR>()->getPersonalBest()); double f = p.raw_fitness(0); bool opt = true, in = false; for (auto &r : I(o).hist) { if (better(max, r.f, f)) opt = false; if (r.f == f && r.pos[0] == p.pos()[0]) in = true; } VASSERT(opt && in, "personal bests are the best solutions an individual has ever found"); }
    for (int n = 0; n <= nn; n++) { auto &h = n == nn ? all : nbh[n]; if (h.empty()) { vs_reach("empty neighborhood"); continue; } auto b = n == nn ? a.m_global_best_ptr : a.m_neighborhood_bests_cnt[n]; VASSERT(!!b, "there is a best individual"); double f = b->raw_fitness(0); bool opt = true, in = false; for (auto &r : h) { if (better(max, r.f, f)) opt = false; if (r.f == f && r.pos[0] == I(b).pos()[0]) in = true; } VASSERT(opt && in, "neighborhood and global bests are the best individuals that have returned"); }
    if (k == 1) { SW c(a); VASSERT((int)c.size() == nn * nm && c.m_global_best_ptr->raw_fitness(0) == a.m_global_best_ptr->raw_fitness(0), "copies have the same best individual"); SW d; d.load_(&a); VASSERT((int)d.size() == nn * nm && d.m_global_best_ptr->raw_fitness(0) == a.m_global_best_ptr->raw_fitness(0) && d.m_global_best_ptr != a.m_global_best_ptr, "loaded algorithms have the same best individual"); for (int n = 0; n < nn; n++) { auto q = a.m_neighborhood_bests_cnt[n]; VASSERT(!q == !d.m_neighborhood_bests_cnt[n] && !q == !c.m_neighborhood_bests_cnt[n], "neighborhood bests are copied"); if (q) VASSERT(q->raw_fitness(0) == c.m_neighborhood_bests_cnt[n]->raw_fitness(0) && q->raw_fitness(0) == d.m_neighborhood_bests_cnt[n]->raw_fitness(0), "neighborhood bests are copied"); } }
  }
  vs_reach("done");
}
HARNESS h_run() {
  std::vector<Rec> seq; g_seq = &seq; vsr::hook = hook; g_conc = true; g_r = 0.5; g_bits = 2; bool max = sym_choice("maximize", 2); int n = 1 + sym_choice("supplied", 2); int reps = 2; SW a; a.setSwarmSizes(1, 2);
  for (int t = 0; t < reps; t++) {
    seq.clear(); a.m_executor_ptr = std::make_shared<GSerialExecutorT<GParameterSet>>(); for (int i = 0; i < n; i++) a.push_back(mk(1, max, {3. * i}, -1024., 1024.)); quiet(a, 2); static_cast<G_OptimizationAlgorithm_Base *>(&a)->optimize(0); VASSERT(seq.size() == 4 && a.size() == 2, "individuals are evaluated once per iteration"); double best = seq[0].f; for (auto &r : seq) if (better(max, r.f, best)) best = r.f;
    auto g = a.getBestGlobalIndividual<SInd>(); VASSERT(g->is_processed() && g->raw_fitness(0) == best && seq[g->ev].f == best && g->pos()[0] == seq[g->ev].pos[0], "the best individual ever found is available"); VASSERT(std::get<0>(a.getBestKnownPrimaryFitness()) == best, "the best fitness is known"); for (auto &p : a) VASSERT(!p->m_pt_ptr , "individuals do not keep algorithm-specific data");
    a.resetToOptimizationStart();
  }
  vs_reach("done");
}
