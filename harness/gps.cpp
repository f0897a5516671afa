// GParameterSet: fitness bookkeeping, evaluation policies, adaption, cross-over; validity checks and their combination
#include "vs.hpp"
#include <limits>
#include <stdexcept>
#include "geneva/GParameterSet.hpp"
#include "geneva/GMultiConstraintT.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "common/GCommonMathHelperFunctions.hpp"
using namespace Gem::Geneva; using Gem::Common::gsigmoid; using i32 = std::int32_t; using dvec = std::vector<double>;
static const double BIG = std::numeric_limits<double>::max(), INF = std::numeric_limits<double>::infinity();
static int g_evals;
// fitness: sum of double parameters (or given values)
struct PS : public GParameterSet {
  dvec f; int fail = 0; int rounds = 0, na[8]; bool user = false;
  PS(size_t n = 1) : GParameterSet(n) { mark_as_due_for_processing(); } PS(const PS &o) : GParameterSet(o), f(o.f), fail(o.fail) {} void load_(const GObject *cp) override { GParameterSet::load_(cp); auto p = static_cast<const PS *>(cp); f = p->f; fail = p->fail; } GObject *clone_() const override { return new PS(*this); }
  double sum() const { dvec v; streamline<double>(v); double s = 0.; for (double x : v) s += x; return s; }
  double fitnessCalculation() override { g_evals++; for (size_t i = 1; i < getNStoredResults(); i++) setResult(i, f[i]); if (fail == 1) throw std::runtime_error("boom"); if (fail == 2) force_set_error("flagged"); return f.empty() ? sum() : f[0]; }
  std::size_t customAdaptions() override { if (!user) return GParameterSet::customAdaptions(); VASSERT(rounds < 8, "adaptions stop"); na[rounds] = sym_choice("adaptions", 2) * (1 + rounds); return na[rounds++]; }
};
// a check with a given result
struct Chk : public GPreEvaluationValidityCheckT<GParameterSet> {
  double v = 0.; int *calls = nullptr; const double *seq = nullptr; Chk() {} Chk(double x) : v(x) {} Chk(const Chk &o) : GPreEvaluationValidityCheckT<GParameterSet>(o), v(o.v), calls(o.calls), seq(o.seq) {}
  double check_(const GParameterSet *) const override { if (seq) return seq[(*calls)++]; if (calls) ++*calls; return v; } GObject *clone_() const override { return new Chk(*this); } void load_(const GObject *o) override { GPreEvaluationValidityCheckT<GParameterSet>::load_(o); v = static_cast<const Chk *>(o)->v; }
};
using Comb = GCheckCombinerT<GParameterSet>; using Pol = validityCheckCombinerPolicy;
static std::shared_ptr<PS> mk(double a, double b, i32 i = 3, bool c = true) { auto p = std::make_shared<PS>(); auto d = std::make_shared<GDoubleObject>(a, -9., 9.); d->setParameterName("x"); p->push_back(d); p->push_back(std::make_shared<GInt32Object>(i, -9, 9)); p->push_back(std::make_shared<GBooleanObject>(c)); auto e = std::make_shared<GDoubleObject>(b, -9., 9.); e->setParameterName("y"); p->push_back(e); return p; }
static evaluationPolicy pol(unsigned k) { return k == 0 ? evaluationPolicy::USESIMPLEEVALUATION : k == 1 ? evaluationPolicy::USEWORSTCASEFORINVALID : evaluationPolicy::USESIGMOID; }
static double sigf() { static const double t[6] = {-3., 0., 0.5, 1e-300, BIG, -BIG}; return t[sym_choice("f", 6)]; }
// evaluation policies
HARNESS h_process() {
  bool max = sym_choice("maximize", 2); unsigned k = sym_choice("policy", 3), n = 1 + sym_choice("criteria", 2), fail = sym_choice("fail", 3); unsigned lv = sym_choice("level", 4); double level = lv == 0 ? 0. : lv == 1 ? 1. : lv == 2 ? 1.5 : BIG;
  PS p(n); for (unsigned i = 0; i < n; i++) p.f.push_back(k == 2 ? sigf() : sym_intd("f", 4)); p.fail = fail; p.setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p.setEvaluationPolicy(pol(k)); p.setBarrier(4.); p.setSteepness(2.); int calls = 0; bool registered = lv != 0; if (registered) { Chk c(level); c.calls = &calls; p.registerConstraint(std::make_shared<Chk>(c)); }
  VASSERT(p.is_due_for_processing() && p.getWorstCase() == (max ? -BIG : BIG) && p.getBestCase() == (max ? BIG : -BIG), "worst and best case"); g_evals = 0; bool thr = false; try { p.process(); } catch (const std::exception &) { thr = true; }
  bool valid = level <= 1., ev = valid || k == 0; VASSERT(g_evals == (ev ? 1 : 0), "invalid individuals are only evaluated if requested"); VASSERT(thr == (ev && fail != 0), "errors are passed on"); VASSERT(p.has_errors() == (ev && fail != 0) && !p.is_due_for_processing(), "failures are recorded");
  VASSERT(p.constraintsFulfilled() == valid && p.getValidityLevel() == (valid ? 0. : level), "validity levels"); if (p.has_errors()) { vs_reach("failed"); return; }
  VASSERT(p.isValid() == valid && p.isInValid() == !valid && p.is_processed(), "validity"); double w = p.getWorstCase();
  for (unsigned i = 0; i < n; i++) {
    double raw = p.raw_fitness(i), tr = p.transformed_fitness(i); VASSERT(std::get<0>(p.getFitnessTuple(i)) == raw && std::get<1>(p.getFitnessTuple(i)) == tr && p.raw_fitness_vec()[i] == raw && p.transformed_fitness_vec()[i] == tr, "all ways to access the fitness agree");
    if (ev) { VASSERT(raw == p.f[i], "raw fitness"); if (k != 2) VASSERT(tr == raw, "the transformed fitness equals the raw fitness"); else { VASSERT(tr == gsigmoid(raw, 4., 2.), "sigmoidal fitness"); VASSERT((tr >= -4.) & (tr <= 4.), "sigmoidal fitness stays within the barrier"); } }
    else { VASSERT(raw == w, "worst case"); if (k == 1 || lv == 3) VASSERT(tr == w, "worst case"); else { VASSERT(tr == (max ? -6. : 6.), "invalid individuals are worse than the barrier"); } }
  }
  VASSERT(p.hasMultipleFitnessCriteria() == (n > 1) && p.raw_fitness_vec().size() == n, "number of criteria"); vs_reach(ev ? "evaluated" : "invalid");
}
// invalid individuals are never better than valid ones
HARNESS h_invalid_worse() {
  bool max = sym_choice("maximize", 2); unsigned k = 1 + sym_choice("policy", 2); double lv = sym_f64("level"); auto mkp = [&]() { PS p; p.f = {sigf()}; p.setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); p.setEvaluationPolicy(pol(k)); p.setBarrier(4.); p.setSteepness(2.); return p; };
  PS a = mkp(), b = mkp(); b.registerConstraint(std::make_shared<Chk>(lv)); a.process(); b.process(); if (b.isValid()) { vs_reach("valid"); return; }
  double x = a.transformed_fitness(0), y = b.transformed_fitness(0); VASSERT((max ? y < x : y > x) | (y == x && x == a.getWorstCase()), "invalid individuals are worse than valid ones"); vs_reach("invalid");
}
HARNESS h_sigmoid() {
  double b = sym_choice("barrier", 2) ? 4. : 0.5, s = sym_choice("steepness", 2) ? 2. : 0.25; double x = sym_choice("x", 7) * 0.5 - 1.5, y = sym_choice("y", 8) - 3.5; double u = gsigmoid(x, b, s), v = gsigmoid(y, b, s); VASSERT((u > -b) & (u < b), "bounded"); VASSERT((v > -b) & (v < b), "bounded"); VASSERT((x < y) == (u < v), "monotone"); VASSERT(gsigmoid(-x, b, s) == -u, "odd"); VASSERT(gsigmoid(0., b, s) == 0. && gsigmoid(s, b, s) == b / 2, "scale");
  double h = sym_choice("sign", 2) ? 1. : -1.; VASSERT(gsigmoid(h * INF, b, s) == h * b, "infinite values are mapped to the barrier"); VASSERT(gsigmoid(h * BIG, b, s) == h * b, "extreme values are mapped to the barrier"); VASSERT(gsigmoid((float)x, (float)b, (float)s) == (float)gsigmoid((double)(float)x, b, s), "float version"); vs_reach("done");
}
// whenever parameters may have changed, the individual needs to be evaluated again
HARNESS h_dirty() {
  auto p = mk(sym_intd("a", 3), sym_intd("b", 3)), q = mk(sym_intd("c", 3), sym_intd("d", 3)); p->process(); q->process(); double before = p->sum(); VASSERT(p->raw_fitness(0) == before && !p->is_due_for_processing(), "evaluated"); activityMode am = activityMode::ALLPARAMETERS; unsigned k = sym_choice("op", 14); double v = sym_intd("v", 3); bool due = true; double want = 0.; bool known = true; g_evals = 0; dvec cv, cq; p->streamline<double>(cv); q->streamline<double>(cq);
  switch (k) {
    case 0: p->assignValueVector<double>({v, 1.}); want = v + 1.; break; case 1: { std::map<std::string, dvec> m{{"x", {v}}, {"y", {2.}}}; p->assignValueVectors<double>(m); want = v + 2.; break; }
    case 2: p->multiplyBy<double>(2., am); want = 2 * before; break; case 3: p->fixedValueInit<double>(0.5, am); want = 1.; break; case 4: p->add<double>(q, am); want = before + q->sum(); break; case 5: p->subtract<double>(q, am); want = before - q->sum(); break;
    case 6: p->randomInit(am); known = false; break; case 7: p->multiplyByRandom<double>(am); known = false; break; case 8: p->multiplyByRandom<double>(1., 2., am); known = false; break; case 9: p->GParameterSet::swap(*q); want = cq[0] + cq[1]; VASSERT(q->is_due_for_processing() && q->sum() == before, "both need evaluation"); break;
    case 10: { auto c = std::dynamic_pointer_cast<PS>(p->crossOverWith(q)); VASSERT(c->is_due_for_processing() && !p->is_due_for_processing() && !q->is_due_for_processing() && p->sum() == before, "parents of cross-over do not change"); due = false; want = before; break; }
    case 11: { auto c = p->GObject::clone<PS>(); VASSERT(!c->is_due_for_processing() && c->raw_fitness(0) == before && c->sum() == before, "copies keep their fitness"); c->fixedValueInit<double>(1., am); due = false; want = before; break; }
    case 12: { PS c; c.load(q); VASSERT(!c.is_due_for_processing() && c.raw_fitness(0) == q->sum() && c.sum() == q->sum(), "loaded individuals keep their fitness"); p->load(q); due = false; want = q->sum(); break; }
    default: { p->updateAdaptorsOnStall(3); p->setAssignedIteration(4); p->setNStalls(2); p->setBestKnownPrimaryFitness(std::make_tuple(1., 2.)); dvec l, u; p->boundaries<double>(l, u); p->countParameters<double>(); due = false; want = before; }
  }
  VASSERT(p->is_due_for_processing() == due, "changed individuals need evaluation, unchanged ones do not"); if (known) VASSERT(p->sum() == want, "parameters"); double now = p->sum(); if (due) p->process(); VASSERT(p->raw_fitness(0) == now, "the fitness belongs to the current parameters"); VASSERT(g_evals == (due ? 1 : 0), "one evaluation"); vs_reach(due ? "changed" : "unchanged");
}
// adaption: retries until something changed and the result is valid
HARNESS h_adapt() {
  PS p; p.user = true; p.f = {1.}; p.process(); size_t mu = 1 + sym_choice("unsuccessful", 2), mr = sym_choice("retries", 3); p.setMaxUnsuccessfulAdaptions(mu); p.setMaxRetriesUntilValid(mr); double lv[8]; for (size_t i = 0; i < 8; i++) lv[i] = i > mr ? 0. : sym_choice("level", 2) ? 2. : 0.; int calls = 0; Chk c; c.calls = &calls; c.seq = lv; p.registerConstraint(std::make_shared<Chk>(c)); calls = 0;
  auto n = p.adapt(); int changed = 0; for (int i = 0; i < p.rounds; i++) changed += p.na[i]; VASSERT(p.is_due_for_processing() == (changed > 0), "individuals need evaluation if any of the attempts has changed them"); VASSERT(n == p.getNAdaptions(), "changes are reported");
  VASSERT(calls >= 1 && calls <= (int)mr + 1, "number of retries"); VASSERT(lv[calls - 1] <= 1. || calls == (int)mr + 1, "invalid individuals are adapted again"); for (int i = 0; i + 1 < calls; i++) VASSERT(lv[i] > 1., "valid individuals are not adapted again"); if (changed == 0) VASSERT(p.rounds > (int)mu, "unsuccessful adaptions are repeated"); else if (calls == 1) VASSERT(p.na[p.rounds - 1] > 0, "adaptions end with a successful one"); vs_reach(changed ? "changed" : "unchanged");
}
// one-point cross-over of all types, and of individuals with parameters of a single type
static void cross_one(unsigned n) {
  unsigned ty = sym_choice("type", 3); auto mk1 = [&](int o) { auto x = std::make_shared<PS>(); for (unsigned i = 0; i < n; i++) if (ty == 0) x->push_back(std::make_shared<GDoubleObject>(o + 1. + i, -99., 99.)); else if (ty == 1) x->push_back(std::make_shared<GInt32Object>(o + 1 + i, -99, 99)); else x->push_back(std::make_shared<GBooleanObject>(o > 0)); return x; };
  auto val = [&](GParameterSet &x) { dvec v; if (ty == 0) x.streamline<double>(v); else if (ty == 1) { std::vector<i32> k; x.streamline<i32>(k); for (auto e : k) v.push_back(e); } else { std::vector<bool> k; x.streamline<bool>(k); for (bool e : k) v.push_back(e); } return v; };
  auto a = mk1(0), b = mk1(10); a->process(); b->process(); dvec va = val(*a), vb = val(*b); auto c = a->crossOverWith(b); dvec vc = val(*c); VASSERT(vc.size() == n && va.size() == n && vb.size() == n, "sizes"); bool ot = false, ch = false; for (unsigned i = 0; i < n; i++) { bool o = vc[i] == vb[i]; VASSERT(o | (vc[i] == va[i]), "values stem from one of the parents"); VASSERT(!ot | o, "cross-over happens at one point"); ot = o; ch = ch | (vc[i] != va[i]); }
  VASSERT((n == 1) | ch, "both parents contribute"); VASSERT(vc[0] == va[0] || n == 1, "both parents contribute"); VASSERT(!ch | c->is_due_for_processing(), "a child with changed parameters needs evaluation"); VASSERT(!a->is_due_for_processing() && !b->is_due_for_processing(), "parents keep their fitness"); VASSERT(val(*a) == va && val(*b) == vb, "parents do not change"); vs_reach(n > 1 ? "one type" : "single");
}
HARNESS h_cross() {
  unsigned n = 1 + sym_choice("size", 3); if (sym_choice("one type", 2)) { cross_one(n); return; } auto a = std::make_shared<PS>(), b = std::make_shared<PS>(); for (unsigned i = 0; i < n; i++) { a->push_back(std::make_shared<GDoubleObject>(1. + i, -99., 99.)); b->push_back(std::make_shared<GDoubleObject>(11. + i, -99., 99.)); a->push_back(std::make_shared<GInt32Object>(1 + i, -99, 99)); b->push_back(std::make_shared<GInt32Object>(11 + i, -99, 99)); a->push_back(std::make_shared<GBooleanObject>(false)); b->push_back(std::make_shared<GBooleanObject>(true)); }
  a->process(); b->process(); std::shared_ptr<GParameterSet> c; try { c = a->crossOverWith(b); } catch (const std::exception &e) { VASSERT(false, e.what()); } dvec d; std::vector<i32> k; std::vector<bool> l; c->streamline<double>(d); c->streamline<i32>(k); c->streamline<bool>(l); VASSERT(d.size() == n && k.size() == n && l.size() == n, "sizes");
  int cd = 0, ck = 0, cl = 0; bool od = false, ok = false, ol = false; for (unsigned i = 0; i < n; i++) { bool o = d[i] == 11. + i; VASSERT(o | (d[i] == 1. + i), "values stem from one of the parents"); VASSERT(!od | o, "cross-over happens at one point"); od = o; cd += o; o = k[i] == (i32)(11 + i); VASSERT(o | (k[i] == (i32)(1 + i)), "values stem from one of the parents"); VASSERT(!ok | o, "cross-over happens at one point"); ok = o; ck += o; o = l[i]; VASSERT(!ol | o, "cross-over happens at one point"); ol = o; cl += o; }
  if (n > 1) VASSERT((cd >= 1) & (cd < (int)n) & (ck >= 1) & (ck < (int)n) & (cl >= 1) & (cl < (int)n), "both parents contribute"); VASSERT(c->is_due_for_processing() && !a->is_due_for_processing(), "the child needs evaluation"); a->streamline<double>(d); VASSERT(d[n - 1] == 1. + (n - 1), "parents do not change"); if (n > 1) { if (cd == 1) vs_reach("late"); else vs_reach("early"); } else vs_reach("single");
}
HARNESS h_cannibalize() {
  bool max = sym_choice("maximize", 2); unsigned k = sym_choice("policy", 3); bool inval = sym_choice("invalid", 2); auto a = mk(1., 2.), b = mk(k == 2 ? sigf() : sym_intd("a", 3), 1.); for (auto *x : {&a, &b}) { (*x)->setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); (*x)->setEvaluationPolicy(pol(k)); (*x)->setBarrier(4.); (*x)->setSteepness(2.); (*x)->registerConstraint(std::make_shared<Chk>(inval ? 1.5 : 0.)); }
  unsigned st = sym_choice("state", 3); bool thr = false; if (st) { if (st == 2) b->fail = 2; try { b->process(); } catch (const std::exception &) {} } bool pa = sym_choice("processed", 2); if (pa) a->process(); double s = b->sum(); bool ok = st == 1 || (st == 2 && inval && k != 0); double r = 0, t = 0; if (ok) { r = b->raw_fitness(0); t = b->transformed_fitness(0); }
  try { a->cannibalize(*b); } catch (const std::exception &) { thr = true; } VASSERT(thr == !ok, "only evaluated individuals can be taken over"); if (thr) { VASSERT(a->size() == 4 && b->size() == 4 && a->sum() == 3., "nothing changes upon errors"); vs_reach("refused"); return; }
  VASSERT(a->size() == 4 && b->size() == 0 && a->sum() == s, "parameters are taken over"); VASSERT(!a->is_due_for_processing() && a->is_processed(), "the individual counts as evaluated"); VASSERT(a->raw_fitness(0) == r && a->transformed_fitness(0) == t && a->isValid() == !inval, "the fitness is taken over"); vs_reach("done");
}
HARNESS h_good() {
  bool max = sym_choice("maximize", 2); unsigned n = 1 + sym_choice("criteria", 2); PS p(n); dvec b; bool good = true; p.setMaxMode(max ? maxMode::MAXIMIZE : maxMode::MINIMIZE); for (unsigned i = 0; i < n; i++) { double x = sym_fin("f"), y = sym_fin("boundary"); p.f.push_back(x); b.push_back(y); good = good & (max ? x >= y : x <= y); } p.process(); VASSERT(p.isGoodEnough(b) == good, "good enough if all criteria are"); vs_reach("done");
}
struct CP : public PS { using PS::PS; using GParameterSet::sumCombiner; using GParameterSet::fabsSumCombiner; using GParameterSet::squaredSumCombiner; using GParameterSet::weighedSquaredSumCombiner; };
HARNESS h_combiners() {
  unsigned n = 1 + sym_choice("criteria", 3); CP p(n); double s = 0, a = 0, q = 0, wq = 0; dvec w; for (unsigned i = 0; i < n; i++) { double x = sym_choice("f", 5) - 2.; p.f.push_back(x); w.push_back(i + 1.); s += x; a += x < 0 ? -x : x; q += x * x; wq += (i + 1.) * x * ((i + 1.) * x); } p.process(); VASSERT(p.sumCombiner() == s && p.fabsSumCombiner() == a, "sums"); VASSERT(p.squaredSumCombiner() == sqrt(q), "squared sum"); VASSERT(p.weighedSquaredSumCombiner(w) == sqrt(wq), "weighed squared sum"); w.push_back(1.); bool thr = false; try { p.weighedSquaredSumCombiner(w); } catch (const std::exception &) { thr = true; } VASSERT(thr, "wrong number of weights"); vs_reach("done");
}
HARNESS h_settings() {
  double x = sym_f64("x"); PS p; bool t1 = false, t2 = false; double b = p.getBarrier(), s = p.getSteepness(); try { p.setBarrier(x); } catch (const std::exception &) { t1 = true; } try { p.setSteepness(x); } catch (const std::exception &) { t2 = true; } VASSUME(x == x); VASSERT(t1 == (x <= 0.) && t2 == t1, "barrier and steepness are positive"); VASSERT(p.getBarrier() == (t1 ? b : x) && p.getSteepness() == (t1 ? s : x), "accepted values are stored"); bool t3 = false; try { p.registerConstraint(std::shared_ptr<Chk>()); } catch (const std::exception &) { t3 = true; } VASSERT(t3, "empty constraints are refused"); vs_reach(t1 ? "refused" : "accepted");
}
// ---------------------------------------------------------------- validity checks
HARNESS h_check() {
  double x = sym_f64("x"); bool neg = sym_choice("allow negative", 2); Chk c(x); c.setAllowNegative(neg); PS p; double l = -1.; bool v = c.isValid(&p, l), want = (x <= 1.) & (neg | (x >= 0.)); VASSERT(v == want, "valid between 0 and 1 (or below 1, if negative values are allowed)"); VASSERT(v ? l == 0. : l > 1., "validity levels: 0 for valid individuals, otherwise larger than 1"); VASSERT(!(!v && x > 1.) || l == x, "levels above 1 are kept"); VASSERT(!(!v && x < 0. && x > -1e10) || l == 1. - x || 1. - x == 1., "negative values become the more invalid the smaller they are"); VASSERT(c.isInvalid(&p, l) == !v && c.getAllowNegative() == neg, "isInvalid"); vs_reach(v ? "valid" : "invalid");
}
static void comb_run(bool full) {
  unsigned n = 1 + sym_choice("checks", full ? 2 : 3); bool mul = sym_choice("policy", 2); std::vector<std::shared_ptr<GPreEvaluationValidityCheckT<GParameterSet>>> cs; double x[3]; bool all = true, ext = false; double pr = 1., su = 0.; auto g = std::make_shared<Comb>(); bool ctor = full || sym_choice("constructor", 2);
  for (unsigned i = 0; i < n; i++) { unsigned e = full ? 0 : sym_choice("extreme", 2); x[i] = full ? (i == 0 ? sym_f64("x") : 3.) : e ? BIG : sym_intd("x", 4); auto c = std::make_shared<Chk>(x[i]); cs.push_back(c); bool v = (x[i] >= 0.) & (x[i] <= 1.); all = all & v; if (!full && !v) { if (e) ext = true; else { double l = x[i] < 0 ? 1. - x[i] : x[i]; pr *= l; su += l; } } }
  if (ctor) g = std::make_shared<Comb>(cs); else for (auto &c : cs) g->addCheck(c); g->setCombinerPolicy(mul ? Pol::MULTIPLYINVALID : Pol::ADDINVALID); VASSERT(g->getCombinerPolicy() == (mul ? Pol::MULTIPLYINVALID : Pol::ADDINVALID), "policy"); for (auto &c : cs) static_cast<Chk *>(c.get())->v = 0.; // the combiner keeps copies
  std::shared_ptr<Comb> h; unsigned cp = full ? 2 : sym_choice("copy", 4); if (cp == 0) h = g; else if (cp == 1) h = g->GObject::clone<Comb>(); else if (cp == 2) { h = std::make_shared<Comb>(); h->addCheck(std::make_shared<Chk>(7.)); h->load(g); } else { h = std::make_shared<Comb>(); *h = *g; }
  PS p; double l = -1; bool v = h->isValid(&p, l); VASSERT(v == all, "individuals are valid if all checks are fulfilled"); if (all) VASSERT(l == 0., "level of valid individuals"); else { VASSERT(l > 1., "level of invalid individuals"); if (!full) VASSERT(l == (ext ? BIG : mul ? pr : su), "levels of violated checks are combined"); }
  if (cp == 0 || cp == 1) { PS q; q.f = {1.}; q.setEvaluationPolicy(evaluationPolicy::USEWORSTCASEFORINVALID); q.registerConstraint(h); g->addCheck(std::make_shared<Chk>(3.)); q.process(); VASSERT(q.isValid() == all && q.raw_fitness(0) == (all ? 1. : BIG), "individuals keep a copy of their constraint"); PS r(q), s; s.load(std::make_shared<PS>(q)); r.mark_as_due_for_processing(); s.mark_as_due_for_processing(); r.process(); s.process(); VASSERT(r.isValid() == all && s.isValid() == all, "copies keep the constraint"); }
  vs_reach(all ? "valid" : "invalid");
}
HARNESS h_combine() { comb_run(false); }
HARNESS h_combine_full() { comb_run(true); }
HARNESS h_formula() {
  double a = sym_choice("a", 5) - 2., b = sym_choice("b", 5) - 2.; unsigned k = sym_choice("formula", 3); PS p; auto x = std::make_shared<GDoubleObject>(a), y = std::make_shared<GDoubleObject>(b); x->setParameterName("x"); y->setParameterName("y"); p.push_back(x); p.push_back(y); p.f = {5.}; p.setEvaluationPolicy(evaluationPolicy::USEWORSTCASEFORINVALID);
  auto c = std::make_shared<GParameterSetFormulaConstraint>(k == 0 ? "{{x}} + 2*{{y}}" : k == 1 ? "{{x}}/{{y}}" : "1/({{x}} - {{y}})"); bool neg = sym_choice("allow negative", 2); c->setAllowNegative(neg); p.registerConstraint(c); try { p.process(); } catch (const std::exception &e) { VASSERT(false, e.what()); } bool sing = k == 1 ? b == 0. : k == 2 ? a == b : false; double v = k == 0 ? a + 2 * b : sing ? 9. : k == 1 ? a / b : 1 / (a - b);
  bool want = (!sing) & (v <= 1.) & (neg | (v >= 0.)); VASSERT(p.isValid() == want, "formula constraints"); VASSERT(p.raw_fitness(0) == (want ? 5. : BIG), "fitness"); if (sing) VASSERT(p.getValidityLevel() == BIG, "undefined formulas are invalid"); vs_reach(want ? "valid" : "invalid");
}
