// GParameterScan: grids, random scans, simple scans
#include "ind.hpp"
#include "common/GParserBuilder.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
using PS = GParameterScan; using EX = Gem::Courtier::GSerialExecutorT<GParameterSet>; using i32 = std::int32_t;
struct Pt { double d[2]; i32 i[1]; bool b[1]; bool operator==(const Pt &o) const { return (d[0] == o.d[0]) & (d[1] == o.d[1]) & (i[0] == o.i[0]) & (b[0] == o.b[0]); } };
static std::vector<Pt> *g_pos; static std::vector<double> *g_seq; static unsigned g_bits = 0; static int g_fail = -1, g_id;
struct SInd : public GParameterSet {
  int ev = -1, id = g_id++; SInd() : GParameterSet(std::size_t(1)) {} SInd(const SInd &o) : GParameterSet(o), ev(o.ev) {} void load_(const GObject *cp) override { GParameterSet::load_(cp); ev = static_cast<const SInd *>(cp)->ev; } GObject *clone_() const override { return new SInd(*this); }
  Pt pt() const { Pt p; std::vector<double> d; streamline<double>(d); std::vector<i32> i; streamline<i32>(i); std::vector<bool> b; streamline<bool>(b); VASSERT(d.size() == 2 && i.size() == 1 && b.size() == 1, "parameters are complete"); p.d[0] = d[0]; p.d[1] = d[1]; p.i[0] = i[0]; p.b[0] = b[0]; return p; }
  double fitnessCalculation() override { double v = g_bits ? sym_intd("f", g_bits) : 100. - g_seq->size(); ev = g_seq->size(); g_seq->push_back(v); g_pos->push_back(pt()); if (ev == g_fail) throw std::runtime_error("boom"); return v; }
};
static std::shared_ptr<SInd> mk(const Pt &p, bool max = false) {
  auto x = std::make_shared<SInd>(); x->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); auto d0 = std::make_shared<GDoubleObject>(p.d[0], -2., 2.), d1 = std::make_shared<GDoubleObject>(p.d[1], -2., 6.); d0->setParameterName("x"); d1->setParameterName("y"); x->push_back(d0);
  auto i = std::make_shared<GInt32Object>(p.i[0], -10, 10); i->setParameterName("n"); x->push_back(i); auto b = std::make_shared<GBooleanObject>(p.b[0]); b->setParameterName("b"); x->push_back(b); x->push_back(d1); return x;
}
template <class T> static parPropSpec<T> spec(int mode, const char *n, size_t pos, T lo, T up, size_t ns) { parPropSpec<T> s; s.var = NAMEANDIDTYPE(mode, mode ? n : "empty", mode ? 0 : pos); s.lowerBoundary = lo; s.upperBoundary = up; s.nSteps = ns; return s; }
static void go(PS &a) { a.setReportIteration(0); a.setEmitTerminationReason(false); static_cast<G_OptimizationAlgorithm_Base *>(&a)->optimize(0); }
static void prep(PS &a, int pop, int n = 1, bool max = false) { g_pos->clear(); g_seq->clear(); a.m_executor_ptr = std::make_shared<EX>(); a.setDefaultPopulationSize(pop); for (int i = 0; i < n; i++) a.push_back(mk(i ? Pt{{9., 9.}, {9}, {false}} : Pt{{5., 7.}, {3}, {true}}, max)); }
// expected grid, the first parameter (booleans, integers, then fp numbers) runs fastest
struct Sc { bool b = false, i = false, d0 = false, d1 = false; i32 il = 0, iu = 0; size_t n0 = 2, n1 = 2; double l0 = 0, u0 = 0, l1 = 0, u1 = 0; };
static void add(PS &a, const Sc &s, bool rnd, int mode, size_t nb) {
  if (s.b) a.m_b_cnt.push_back(std::make_shared<bScanPar>(spec<bool>(mode, "b", 0, false, true, nb), rnd)); if (s.i) a.m_int32_cnt.push_back(std::make_shared<int32ScanPar>(spec<i32>(mode, "n", 0, s.il, s.iu, nb), rnd));
  if (s.d0) a.m_d_cnt.push_back(std::make_shared<dScanPar>(spec<double>(mode, "x", 0, s.l0, s.u0, s.n0), rnd)); if (s.d1) a.m_d_cnt.push_back(std::make_shared<dScanPar>(spec<double>(mode, "y", 1, s.l1, s.u1, s.n1), rnd));
}
static void grid_check(const Sc &s) {
  size_t k = 0;
  for (size_t q1 = 0; q1 < (s.d1 ? s.n1 : 1); q1++) for (size_t q0 = 0; q0 < (s.d0 ? s.n0 : 1); q0++) for (i32 i = s.i ? s.il : 3;; i++) { for (int b = s.b ? 0 : 1; b < 2; b++) { VASSERT(k < g_pos->size(), "all points of the grid are evaluated"); if (k >= g_pos->size()) return; auto &p = (*g_pos)[k++];
    VASSERT((p.b[0] == (bool)b) & (p.i[0] == i) & (p.d[0] == (s.d0 ? s.l0 + (s.u0 - s.l0) * q0 / (s.n0 - 1) : 5.)) & (p.d[1] == (s.d1 ? s.l1 + (s.u1 - s.l1) * q1 / (s.n1 - 1) : 7.)), "the grid consists of all combinations of equidistant values including the boundaries; other parameters keep the values of the first individual"); } if (!s.i || i == s.iu) break; }
  VASSERT(k == g_pos->size(), "no point of the grid is evaluated twice");
}
static void grid(Sc s, bool again) {
  std::vector<Pt> pos; g_pos = &pos; std::vector<double> seq; g_seq = &seq; int mode = sym_choice("mode", 3), pop = 1 + sym_choice("population", 5); static const size_t nbs[] = {1, 3, 100}; size_t nb = nbs[sym_choice("nSteps", 3)];
  if (s.i) { s.il = (i32)sym_choice("lower", 3) - 1; s.iu = s.il + sym_choice("range", 3); } s.l0 = sym_intd("lower", 4); s.l1 = sym_intd("lower", 4); s.u0 = s.l0 + (s.n0 - 1) * sym_intd("step", 3); s.u1 = s.l1 + (s.n1 - 1) * sym_intd("step", 3);
  PS a; prep(a, pop, 1 + sym_choice("individuals", 2)); add(a, s, false, mode, nb);
  if (again) { auto c = a.GObject::clone<PS>(); c->m_executor_ptr = std::make_shared<EX>(); go(*c); grid_check(s); vs_reach("clone"); pos.clear(); seq.clear(); }
  go(a); grid_check(s); auto g = a.getBestGlobalIndividual<SInd>(); VASSERT(g->ev == (int)seq.size() - 1 && g->raw_fitness(0) == seq.back() && g->pt() == pos.back(), "the best point is available"); vs_reach("done");
}
HARNESS h_grid_d() { Sc s; s.d0 = s.d1 = true; s.n0 = 3; grid(s, false); }
HARNESS h_grid_i() { Sc s; s.i = true; grid(s, false); }
HARNESS h_grid_b() { Sc s; s.b = true; s.d1 = true; grid(s, false); }
HARNESS h_grid_mix() { Sc s; s.b = s.i = s.d0 = true; grid(s, false); }
HARNESS h_grid_clone() { Sc s; s.i = s.d0 = true; grid(s, true); }
// random scans
HARNESS h_random() {
  std::vector<Pt> pos; g_pos = &pos; std::vector<double> seq; g_seq = &seq; int k = sym_choice("parameters", 3), mode = 2 * sym_choice("mode", 2), pop = 1 + 2 * sym_choice("population", 2); Sc s; s.i = k > 0; s.d0 = k != 1; s.b = mode == 0; s.n0 = 2; s.l0 = sym_intd("lower", 4); s.u0 = s.l0 + 1 + (sym_u32("range") & 7); s.il = (i32)sym_u32("ilower"); s.iu = (i32)sym_u32("iupper"); VASSUME(s.il <= s.iu);
  PS a; prep(a, pop); add(a, s, true, mode, 2); go(a); size_t want = (s.b ? 2 : 1) * (s.i ? 2 : 1) * (s.d0 ? s.n0 : 1); VASSERT(pos.size() == want, "as many points are evaluated as requested");
  for (auto &p : pos) { if (s.i) VASSERT((p.i[0] >= s.il) & (p.i[0] <= s.iu), "random integers lie within the boundaries"); else VASSERT(p.i[0] == 3, "other parameters keep their values"); if (s.d0) VASSERT((p.d[0] >= s.l0) & (p.d[0] <= s.u0), "random values lie within the boundaries"); else VASSERT(p.d[0] == 5., "other parameters keep their values"); VASSERT(p.d[1] == 7., "other parameters keep their values"); if (!s.b) VASSERT((int)p.b[0] == 1, "other parameters keep their values"); }
  vs_reach("done");
}
// a given number of random individuals
HARNESS h_simple() {
  std::vector<Pt> pos; g_pos = &pos; std::vector<double> seq; g_seq = &seq; int pop = 1 + sym_choice("population", 3), n = 1 + sym_choice("scans", 5); PS a; a.setNSimpleScans(n);
  // the start individual lies outside of the range of initial values
  for (int run = 0; run < 2; run++) { if (run) a.resetToOptimizationStart(); prep(a, pop); a.at(0)->at(2)->setAdaptionsInactive(); go(a); VASSERT((int)pos.size() == n, "the requested number of random individuals is evaluated"); for (auto &p : pos) { VASSERT((p.d[0] >= -2.) & (p.d[0] <= 2.), "all individuals are random"); VASSERT((p.d[1] >= -2.) & (p.d[1] <= 6.), "all individuals are random"); VASSERT((int)p.b[0] == 1, "inactive parameters are left alone"); } VASSERT((int)a.getNSimpleScans() == n, "the setting is kept"); vs_reach(run ? "again" : "done"); }
}
// the best point is found, failing evaluations are reported
HARNESS h_best() {
  std::vector<Pt> pos; g_pos = &pos; std::vector<double> seq; g_seq = &seq; g_bits = 2; bool max = sym_choice("maximize", 2); int pop = 1 + sym_choice("population", 3); g_fail = (int)sym_choice("fail", 4) - 1; Sc s; s.d0 = true; s.n0 = 3; s.u0 = 2.; PS a; prep(a, pop, 1, max); add(a, s, false, 0, 2); bool t = false; try { go(a); } catch (const gemfony_exception &) { t = true; }
  VASSERT(t == (g_fail >= 0), "scans fail if an evaluation fails"); if (t) { vs_reach("failed"); return; } double best = seq[0]; for (double f : seq) if (max ? f > best : f < best) best = f; auto g = a.getBestGlobalIndividual<SInd>(); VASSERT(g->raw_fitness(0) == best && seq[g->ev] == best && g->pt() == pos[g->ev], "the best point is available"); VASSERT(std::get<0>(a.getBestKnownPrimaryFitness()) == best, "the best fitness is known"); vs_reach("done");
}
// a scan may go on after all points have been evaluated
HARNESS h_goon() {
  std::vector<Pt> pos; g_pos = &pos; std::vector<double> seq; g_seq = &seq; int pop = 1 + sym_choice("population", 5), mn = sym_choice("minIteration", 5); bool simple = sym_choice("simple", 2); PS a; prep(a, pop); a.setMaxIteration(100); a.setMinIteration(mn); Sc s; s.d0 = true; s.n0 = 3; s.u0 = 2.; if (simple) a.setNSimpleScans(3); else add(a, s, false, 0, 2);
  go(a); VASSERT(pos.size() >= 3, "all points are evaluated"); for (int i = 0; i < 3 && !simple; i++) VASSERT(pos[i].d[0] == i, "all points of the grid are evaluated"); VASSERT((int)a.getIteration() > mn, "the minimum number of iterations is observed"); vs_reach("done");
}
HARNESS h_bad() {
  std::vector<Pt> pos; g_pos = &pos; std::vector<double> seq; g_seq = &seq; int k = sym_choice("case", 4); PS a; prep(a, 2, k == 0 ? 0 : 1); Sc s; s.d0 = true; bool t = false;
  try { if (k == 1) a.m_defaultPopulationSize = 0; if (k == 2) a.m_d_cnt.push_back(std::make_shared<dScanPar>(spec<double>(0, "", 2, 0., 1., 2), false)); else if (k < 2) add(a, s, false, 0, 2); go(a); } catch (const gemfony_exception &) { t = true; } VASSERT(t && pos.empty(), "scans without individuals, of missing parameters or without parameters are refused"); vs_reach("refused");
}
HARNESS h_fill() {
  size_t n = sym_choice("steps", 5); if (n == 4) n = 5; double lo = sym_intd("lower", 4), st = sym_intd("step", 3); bool t = false; std::vector<double> v; std::vector<float> w; try { v = fillWithData<double>(n, lo, lo + st * (n - 1.)); w = fillWithData<float>(n, lo, lo + st * (n - 1.)); } catch (const gemfony_exception &) { t = true; } VASSERT(t == (n < 2), "grids need at least two points"); if (t) { vs_reach("refused"); return; }
  VASSERT(v.size() == n && w.size() == n, "grids have the requested number of points"); for (size_t i = 0; i < n; i++) { VASSERT(v[i] == lo + st * i, "points of a grid are equidistant and include the boundaries"); VASSERT((double)w[i] == lo + st * i, "points of a grid are equidistant and include the boundaries"); } vs_reach("done");
}
HARNESS h_fill_int() {
  i32 il = (i32)sym_u32("ilower"); i32 r = sym_choice("range", 4); VASSUME(il <= 2147483647 - r); auto u = fillWithData<i32>(7, il, il + r); VASSERT(u.size() == (size_t)r + 1, "integer grids contain all integers of the range"); for (i32 i = 0; i <= r; i++) VASSERT(u[i] == il + i, "integer grids contain all integers of the range"); vs_reach("done");
}
HARNESS h_step() {
  Sc s; dScanPar d(spec<double>(1, "x", 4, 1., 3., 3), false); VASSERT(d.getVarAddress() == NAMEANDIDTYPE(1, "x", 0) && d.getTypeDescriptor() == "d", "parameters are addressed as requested"); Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY> gr;
  for (int i = 0; i < 7; i++) { VASSERT(d.getCurrentItem(gr) == 1. + i % 3 && d.getCurrentItemPos() == (size_t)i % 3, "values are visited in order"); VASSERT(d.isAtFirstPosition() == (i % 3 == 0) && d.isAtTerminalPosition() == (i % 3 == 2), "first and last position are known"); VASSERT(d.goToNextItem() == (i % 3 == 2), "values are visited cyclically"); }
  d.resetPosition(); VASSERT(d.isAtFirstPosition(), "scans can be reset"); d.goToNextItem(); auto c = d.clone(); VASSERT(c->getCurrentItem(gr) == 2. && !c->goToNextItem() && c->getCurrentItem(gr) == 3. && c->goToNextItem(), "copies are equal"); vs_reach("done");
}
// specifications
static std::string num(int &v, const char *n) { v = (int)sym_choice(n, 10); return std::string(1, (char)('0' + v)); }
template <class T> static void want(const std::vector<std::shared_ptr<T>> &v, size_t i, int mode, const std::string &n, size_t pos, double lo, double up, size_t ns) {
  VASSERT(i < v.size(), "all parameters are known"); if (i >= v.size()) return; auto &p = *v[i]; auto a = p.getVarAddress(); VASSERT(std::get<0>(a) == (size_t)mode && std::get<2>(a) == pos && (!mode || std::get<1>(a) == n), "parameters are addressed by index, name or name and index"); VASSERT((double)p.m_lower == lo && (double)p.m_upper == up, "boundaries are those of the specification"); VASSERT(p.m_nSteps == ns, "the number of steps is the one of the specification"); VASSERT(p.m_randomScan, "the scan mode is the one set before");
}
HARNESS h_spec() {
  PS a; int d = 5, q = 7; int k = sym_choice("case", 8); bool t = false; std::string D = k < 4 ? num(d, "digit") : "5", Q = "7";
  if (k == 7) { try { a.setParameterSpecs(""); } catch (const gemfony_exception &) { t = true; } VASSERT(t, "empty specifications are refused"); vs_reach("refused"); return; }
  switch (k) {
  case 0: a.setParameterSpecs("d(" + D + ", -1.5, 2, " + Q + ")"); VASSERT(a.m_d_cnt.size() == 1 && a.m_f_cnt.empty() && a.m_int32_cnt.empty() && a.m_b_cnt.empty(), "only the given parameters are scanned"); want(a.m_d_cnt, 0, 0, "", d, -1.5, 2., q); break;
  case 1: a.setParameterSpecs("d(ab_1[" + D + "], -1, " + Q + "), d(c, 0, 1, 12)"); VASSERT(a.m_d_cnt.size() == 2, "only the given parameters are scanned"); want(a.m_d_cnt, 0, 1, "ab_1", d, -1., q, 100); want(a.m_d_cnt, 1, 2, "c", 0, 0., 1., 12); break;
  case 2: a.setParameterSpecs("i(0,-" + D + "," + Q + "), f(1, 0.25, 0.5, 3),b(2),b(x[3], false, true, 9)"); VASSERT(a.m_d_cnt.empty() && a.m_f_cnt.size() == 1 && a.m_int32_cnt.size() == 1 && a.m_b_cnt.size() == 2, "only the given parameters are scanned"); want(a.m_int32_cnt, 0, 0, "", 0, -d, q, 100); want(a.m_f_cnt, 0, 0, "", 1, .25, .5, 3); want(a.m_b_cnt, 0, 0, "", 2, 0, 1, 100); want(a.m_b_cnt, 1, 1, "x", 3, 0, 1, 9); break;
  case 3: a.setParameterSpecs("d(0, 0, 1)"); a.setParameterSpecs("s(1" + D + ")"); VASSERT(a.m_d_cnt.empty() && a.getNSimpleScans() == 10u + d, "simple scans replace scans of parameters"); break;
  case 4: a.setParameterSpecs("s(5)"); a.setParameterSpecs("d(0, 0, 1)"); VASSERT(a.m_d_cnt.size() == 1 && a.getNSimpleScans() == 0, "scans of parameters replace simple scans"); break;
  case 5: a.setParameterSpecs("d(0, 0, 1), s(9)"); VASSERT(a.m_d_cnt.empty() && a.getNSimpleScans() == 9, "simple scans replace scans of parameters"); break;
  case 6: a.setScanRandomly(false); a.setParameterSpecs("d(x, 0, 4, 5)"); VASSERT(a.m_d_cnt.size() == 1 && !a.m_d_cnt[0]->m_randomScan && a.m_d_cnt[0]->size() == 5 && a.m_d_cnt[0]->at(1) == 1., "grids are filled"); break;
  } vs_reach("parsed");
}
// configuration files
void vs_file_put(const std::string &n, const std::string &d);
HARNESS h_config() {
  PS a; Gem::Common::GParserBuilder gpb; a.addConfigurationOptions(gpb); bool rnd = sym_choice("random", 2); 
  vs_file_put("x.json", std::string("{ \"parameterOptions\": { \"value\": \"d(x, 0, 4, 5)\" }, \"scanRandomly\": { \"value\": \"") + (rnd ? "true" : "false") + "\" }, \"size\": { \"value\": \"17\" } }");
  VASSERT(gpb.parseConfigFile("x.json"), "config files are parsed"); VASSERT(a.getDefaultPopulationSize() == 17 && a.m_d_cnt.size() == 1 && a.m_d_cnt[0]->m_randomScan == rnd, "options are applied"); vs_reach("done");
}
// arbitrary boundaries: a grid ends exactly at its upper boundary
HARNESS h_fill_ends() {
  size_t n = 2 + sym_choice("steps", 7); double lo = sym_fin("lower"), up = sym_fin("upper"); VASSUME((lo >= -1e300) & (lo < up) & (up <= 1e300)); auto v = fillWithData<double>(n, lo, up); VASSERT(v.size() == n && ((v[n - 1] == up) | (vs_bits(v[n - 1]) == vs_bits(up))), "grids end at the upper boundary");
  float fl = sym_f32("lower"), fu = sym_f32("upper"); VASSUME((fl >= -1e30f) & (fl < fu) & (fu <= 1e30f)); auto w = fillWithData<float>(n, fl, fu); VASSERT(w.size() == n && (w[n - 1] == fu), "grids end at the upper boundary"); vs_reach("done");
}
