// GEvolutionaryAlgorithm: selection schemes over populations of individuals with symbolic fitness
#include "fix.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
using EA = GEvolutionaryAlgorithm; using TR = GEvolutionaryAlgorithm_PersonalityTraits;
struct Pop { EA ea; bool max; int n, np; std::vector<std::vector<double>> f; };
static std::shared_ptr<Ind> mk(int i, std::vector<double> v, bool max) { return mkInd<TR>(i, v, max); }
static void fill(Pop &s, int n, int np, int nc, sortingMode m, bool first, unsigned bits = 5) {
  s.n = n; s.np = np; s.max = nc == 1 || n < 3 ? sym_choice("maximize", 2) : 0; s.ea.setPopulationSizes(n, np); s.ea.setSortingScheme(m); s.ea.m_default_n_children = n - np;
  for (int i = 0; i < n; i++) { std::vector<double> v; for (int c = 0; c < nc; c++) v.push_back(bits ? sym_intd("f", bits) : sym_fin("f")); s.f.push_back(v); auto p = mk(i, v, s.max); if (i < np) p->getPersonalityTraits<TR>()->setIsParent(); else p->getPersonalityTraits<TR>()->setIsChild(); s.ea.push_back(p); }
  s.ea.m_offset = 0; s.ea.m_iteration = first ? 0 : 1;
}
static int idAt(Pop &s, int i) { return std::static_pointer_cast<Ind>(s.ea.at(i))->id; }
static bool better(Pop &s, int a, int b, int c = 0) { return s.max ? s.f[a][c] > s.f[b][c] : s.f[a][c] < s.f[b][c]; }
static void common(Pop &s) {
  VASSERT((int)s.ea.size() == s.n, "the population has its nominal size"); std::vector<int> seen(s.n, 0);
  for (int i = 0; i < s.n; i++) seen[idAt(s, i)]++;
  for (int i = 0; i < s.n; i++) VASSERT(seen[i] == 1, "no individual is lost or duplicated");
  for (int i = 0; i < s.np; i++) VASSERT(s.ea.at(i)->getPersonalityTraits<TR>()->isParent(), "the chosen individuals are marked as parents");
}
// parents at positions [from,np) are sorted and the best among the candidates [c0,n) except those in taken
static void bestOf(Pop &s, int from, int c0, int skip = -1) {
  std::vector<int> chosen(s.n, 0); for (int i = from; i < s.np; i++) chosen[idAt(s, i)] = 1;
  for (int i = from; i < s.np; i++) {
    int p = idAt(s, i); VASSERT(p >= c0, "parents are chosen among the admissible individuals only");
    if (i > from) VASSERT((int)better(s, p, idAt(s, i - 1)) == 0, "parents are sorted by fitness");
    for (int c = c0; c < s.n; c++) if (!chosen[c] && c != skip) VASSERT((int)better(s, c, p) == 0, "no better individual is left out");
  }
}
HARNESS h_plus() { Pop s; fill(s, 4, 1 + sym_choice("parents", 2), 1, sortingMode::MUPLUSNU_SINGLEEVAL, sym_choice("first", 2)); s.ea.selectBest_(); common(s); bestOf(s, 0, 0); vs_reach("done"); }
HARNESS h_comma() { Pop s; bool first = sym_choice("first", 2); fill(s, 4, 1 + sym_choice("parents", 2), 1, sortingMode::MUCOMMANU_SINGLEEVAL, first); s.ea.selectBest_(); common(s); bestOf(s, 0, first ? 0 : s.np); vs_reach("done"); }
HARNESS h_retain() {
  Pop s; bool first = sym_choice("first", 2); fill(s, 4, 1 + sym_choice("parents", 2), 1, sortingMode::MUNU1PRETAIN_SINGLEEVAL, first); s.ea.selectBest_(); common(s);
  if (first || s.np == 1) { bestOf(s, 0, 0); return; }
  bool bc = false; for (int c = s.np; c < s.n; c++) if (better(s, c, 0)) bc = true;
  if (bc) { bestOf(s, 0, s.np); vs_reach("replaced"); } else { VASSERT(idAt(s, 0) == 0, "the best parent stays if no child is better"); bestOf(s, 1, s.np); vs_reach("kept"); }
}
static bool dom(Pop &s, int a, int b) { bool st = false; for (size_t c = 0; c < s.f[a].size(); c++) { if (better(s, b, a, c)) return false; if (better(s, a, b, c)) st = true; } return st; }
HARNESS h_dom() {
  Pop s; fill(s, 2, 1, 1 + sym_choice("criteria", 3), sortingMode::MUPLUSNU_PARETO, false); bool d = s.ea.aDominatesB(s.ea.at(0), s.ea.at(1));
  VASSERT((int)d == (int)dom(s, 0, 1), "an individual dominates another one if it is better in a criterion and worse in none"); if (d) vs_reach("dominates");
}
static void pareto(sortingMode m, int n, int np, bool first) {
  Pop s; fill(s, n, np, 2, m, first, 3); s.ea.selectBest_(); common(s); int c0 = m == sortingMode::MUCOMMANU_PARETO && !first ? np : 0;
  std::vector<int> front(n, 0), par(n, 0); int nf = 0, npf = 0;
  for (int i = c0; i < n; i++) { bool d = false; for (int j = c0; j < n; j++) if (j != i && dom(s, j, i)) d = true; front[i] = !d; nf += !d; }
  for (int i = 0; i < np; i++) { int p = idAt(s, i); par[p] = 1; npf += front[p]; if (i) VASSERT((int)better(s, p, idAt(s, i - 1)) == 0, "parents are sorted by their main fitness"); }
  VASSERT(npf == (nf < np ? nf : np), "parents are taken from the Pareto front as far as possible");
  for (int i = 0; i < n; i++) VASSERT(s.ea.m_data_cnt.size() == (size_t)n && std::static_pointer_cast<Ind>(s.ea.at(i))->getPersonalityTraits<TR>()->isOnParetoFront() == (bool)front[idAt(s, i)], "individuals are tagged according to the Pareto front");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (par[i] && !front[i] && !par[j] && !front[j]) VASSERT((int)better(s, j, i) == 0, "further parents are those with the best main fitness");
  vs_reach("done");
}
HARNESS h_pareto_plus() { pareto(sortingMode::MUPLUSNU_PARETO, 3, 1 + sym_choice("parents", 2), sym_choice("first", 2)); }
HARNESS h_pareto_comma() { bool first = sym_choice("first", 2); pareto(sortingMode::MUCOMMANU_PARETO, 3, first ? 2 : 1, first); }
HARNESS h_pareto_comma2() { pareto(sortingMode::MUCOMMANU_PARETO, 4, 2, false); }
HARNESS h_pareto_comma3() { pareto(sortingMode::MUCOMMANU_PARETO, 4, 1, false); }
HARNESS h_pareto_plus4() { pareto(sortingMode::MUPLUSNU_PARETO, 4, 2, true); }

HARNESS h_fix() { fixit<EA, TR>(sym_choice("size", 4), 1 + sym_choice("parents", 2), sym_choice("old", 3), 1); }
HARNESS h_fix_large() { fixit<EA, TR>(19, 17, 1, 2); }
// whatever sizes pass the sanity checks can be handled by the selection
HARNESS h_sanity() {
  int n = 1 + sym_choice("size", 4), np = sym_choice("parents", 4); bool first = sym_choice("first", 2); auto m = (sortingMode)sym_choice("mode", 5); int nc = 1 + sym_choice("criteria", 2); bool ok = true; bool plus = m == sortingMode::MUPLUSNU_SINGLEEVAL || m == sortingMode::MUPLUSNU_PARETO;
  EA ea; ea.setPopulationSizes(n, np); ea.setSortingScheme(m); ea.m_iteration = first ? 0 : 1; ea.m_offset = 0;
  for (int i = 0; i < n; i++) ea.push_back(mk(i, std::vector<double>(nc, (double)((i * 2) % 3)), false));
  try { ea.populationSanityChecks_(); } catch (const gemfony_exception &) { ok = false; }
  VASSERT(ok == (np > 0 && (plus ? n > np : n >= 2 * np)), "population sizes are checked against the needs of the selection scheme"); if (!ok) { vs_reach("refused"); return; }
  ea.m_default_n_children = n - np; ea.selectBest_(); VASSERT(ea.size() == (size_t)n, "the population keeps its size"); vs_reach("selected");
}
// population growth
HARNESS h_growth() {
  EA ea; int n = 3, np = 1 + sym_choice("parents", 2), g = sym_choice("rate", 3), mx = sym_choice("maximum", 8); ea.setPopulationSizes(n, np); ea.setPopulationGrowth(g, mx); ea.setSortingScheme(sortingMode::MUPLUSNU_SINGLEEVAL); ea.m_default_n_children = n - np; ea.m_offset = 0; ea.m_iteration = 0;
  for (int i = 0; i < n; i++) ea.push_back(mk(i, {(double)i}, false));
  int want = n;
  for (int k = 1; k < 4; k++) {
    ea.m_iteration = k; ea.performScheduledPopulationGrowth(); if (g && want + g <= mx) want += g;
    VASSERT((int)ea.getDefaultPopulationSize() == want && (int)ea.size() == want, "the population grows as requested, up to the maximum size");
    for (auto &x : ea) VASSERT(x && x->is_processed(), "new individuals exist"); ea.selectBest_(); VASSERT((int)ea.size() == want, "selection does not undo the growth"); if (want > n) vs_reach("grown");
  }
}
// duplication schemes
HARNESS h_recombine() {
  EA ea; int np = 1 + sym_choice("parents", 3), n = np + 2; ea.setPopulationSizes(n, np); ea.m_default_n_children = n - np; ea.m_offset = 0; ea.m_iteration = sym_choice("iteration", 2); ea.setRecombinationMethod((duplicationScheme)sym_choice("scheme", 3));
  for (int i = 0; i < n; i++) { auto x = mk(i, {(double)i}, false); if (i < np) x->getPersonalityTraits<TR>()->setIsParent(); ea.push_back(x); }
  ea.recombine(); VASSERT((int)ea.size() == n, "the size of the population does not change");
  for (int i = 0; i < n; i++) {
    auto x = std::static_pointer_cast<Ind>(ea.at(i)); auto t = x->getPersonalityTraits<TR>(); VASSERT(t->isParent() == (i < np), "parents and children are marked"); VASSERT((int)t->getPopulationPosition() == i, "individuals know their positions");
    if (i < np) VASSERT(x->id == i, "parents are not modified"); else { VASSERT(x->id < np && (int)t->getParentId() == x->id, "children are copies of a parent and know which one"); for (int j = 0; j < i; j++) VASSERT(ea.at(i) != ea.at(j) && ea.at(i)->getPersonalityTraits<TR>() != ea.at(j)->getPersonalityTraits<TR>(), "children are separate objects"); if (x->id == np - 1) vs_reach("last parent"); }
  }
}
// stalls are reported to the adaptors of all parents except for the best one; counts of parents, children and items to be processed
#include "geneva/GDoubleObject.hpp"
struct Probe : public GDoubleObject { std::size_t stalls = 0; int calls = 0; Probe() : GDoubleObject(1.) {} bool updateAdaptorsOnStall_(std::size_t n) override { stalls = n; calls++; return true; } };
HARNESS h_stalls() {
  unsigned np = 1 + sym_choice("parents", 3), n = np + 1 + sym_choice("children", 2); Pop s; fill(s, n, np, 1, sortingMode::MUPLUSNU_SINGLEEVAL, false); s.ea.m_stallCounter = sym_u32("stalls") & 0xffff; std::vector<std::shared_ptr<Probe>> pr;
  for (unsigned i = 0; i < n; i++) for (int k = 0; k < 2; k++) { pr.push_back(std::make_shared<Probe>()); s.ea.at(i)->push_back(pr.back()); }
  s.ea.actOnStalls_(); for (unsigned i = 0; i < 2 * n; i++) { bool due = i >= 2 && i < 2 * np; VASSERT(pr[i]->calls == (due ? 1 : 0), "all parents except for the best one are told about stalls once"); if (due) VASSERT(pr[i]->stalls == s.ea.m_stallCounter, "the number of stalls is passed on"); } vs_reach("stalls");
}
HARNESS h_counts() {
  unsigned np = 1 + sym_choice("parents", 3), nc = 1 + sym_choice("children", 2); Pop s; unsigned m = sym_choice("scheme", 3); static const sortingMode sm[3] = {sortingMode::MUPLUSNU_SINGLEEVAL, sortingMode::MUPLUSNU_PARETO, sortingMode::MUCOMMANU_SINGLEEVAL}; if (m == 2 && nc < np) return; bool first = sym_choice("first", 2); fill(s, np + nc, np, 1, sm[m], first);
  VASSERT(s.ea.getNParents() == np && s.ea.getNChildren() == nc && s.ea.getDefaultNChildren() == nc && s.ea.getDefaultPopulationSize() == np + nc, "numbers of parents and children"); 
  VASSERT(s.ea.getNProcessableItems_() == (first ? np + nc : nc), "the first iteration evaluates all, later ones the children");
  std::vector<int> on; for (unsigned i = 0; i < np + nc; i++) { bool o = sym_bool("front"); on.push_back(o); if (o) s.ea.at(i)->getPersonalityTraits<TR>()->resetParetoTag(); else s.ea.at(i)->getPersonalityTraits<TR>()->setIsNotOnParetoFront(); }
  std::vector<std::shared_ptr<GParameterSet>> v; if (sym_choice("old entries", 2)) v.push_back(s.ea.at(0)); s.ea.extractCurrentParetoIndividuals(v); unsigned j = 0; for (unsigned i = 0; i < np + nc; i++) if (on[i]) { VASSERT(j < v.size() && v[j] == s.ea.at(i), "the individuals on the front are handed out in order"); j++; } VASSERT(j == v.size(), "only individuals on the front are handed out"); vs_reach("counts");
}
