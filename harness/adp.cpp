// Adaptors: ranges of probabilities and step widths, who is adapted by which amount, adaption of the adaptors, stalls
#include "vs.hpp"
#include <limits>
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GDoubleCollection.hpp"
using namespace Gem::Geneva; using i32 = std::int32_t; using GG = GDoubleGaussAdaptor; using GB = GDoubleBiGaussAdaptor; using GI = GInt32GaussAdaptor; using GF = GInt32FlipAdaptor; struct Rnd : public Gem::Hap::GRandomBase { result_type int_random() override { return 0; } };
#define THROWS(expr) ([&] { try { (void)(expr); return false; } catch (gemfony_exception &) { return true; } }())
// every random draw with its parameters
struct Draw { double m, s, r; }; static std::vector<Draw> N; struct BDraw { double p; bool r; }; static std::vector<BDraw> B; static int g_kind; // 0: any finite value, 1: small integers, 2: values from a table
static int g_which, g_n; static double nh(double m, double s) { double r; if (g_kind == 0) r = sym_fin("n"); else if (g_kind == 1) r = sym_intd("n", 5); else if (g_kind == 3) { if (!vs_is_symbolic(vs_bits(s)) && (s == 0.375 || s == 0.1875 || s == 0.4375)) r = g_n++ == g_which ? sym_fin("n") : g_n == 2 ? 1. : -0.5; else r = 1.5 + N.size(); } else { static const double t[7] = {0., 0.1, -0.1, 1.9, -1.9, 40., -40.}; r = t[sym_choice("n", 7)]; } N.push_back({m, s, r}); return r; }
static bool bh(double p) { bool r = p <= 0. ? false : p >= 1. ? true : sym_choice("b", 2) != 0; B.push_back({p, r}); return r; }
static void hooks(int kind) { g_kind = kind; vsr::nhook = nh; vsr::bhook = bh; N.clear(); B.clear(); g_n = 0; g_which = 0; }
static double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
template <class A> static void prob() {
  A a(0.5); VASSERT(a.getAdaptionProbability() == 0.5 && a.getResetAdaptionProbability() == 0.5, "initial probability"); auto r0 = a.getAdProbRange(); VASSERT(std::get<0>(r0) == 0.001 && std::get<1>(r0) == 1., "initial range"); double lo = sym_fin("lo"), hi = sym_fin("hi"), p = sym_fin("p"); double mn = 0.001, mx = 1., ap = 0.5, ar = 0.5; unsigned op = sym_choice("op", 5);
  auto check = [&]() { auto r = a.getAdProbRange(); VASSERT(std::get<0>(r) == mn && std::get<1>(r) == mx, "range of probabilities"); VASSERT(a.getAdaptionProbability() == ap, "probability"); VASSERT(a.getResetAdaptionProbability() == ar, "reset value of the probability"); VASSERT((ap >= mn) & (ap <= mx) & (ar >= mn) & (ar <= mx) & (mn >= 0.001) & (mx <= 1.), "probabilities stay in their range"); };
  if (op == 0 || op == 1 || op == 2) { bool t = THROWS(a.setAdProbRange(lo, hi)); bool ok = (lo >= 0.) & (hi <= 1.) & (lo <= hi) & (hi >= 0.001); VASSERT(t == !ok, "impossible ranges are refused"); if (t) vs_reach("refused"); else { mn = lo < 0.001 ? 0.001 : lo; mx = hi; ap = clampd(ap, mn, mx); ar = clampd(ar, mn, mx); vs_reach("range"); } check(); }
  if (op == 1) { bool t = THROWS(a.setAdaptionProbability(p)); VASSERT(t == !((p >= mn) & (p <= mx)), "probabilities outside of the range are refused"); if (!t) ap = p; check(); }
  if (op == 2) { bool t = THROWS(a.setResetAdaptionProbability(p)); VASSERT(t == !((p >= mn) & (p <= mx)), "probabilities outside of the range are refused"); if (!t) ar = p; check(); }
  if (op == 3) { double q = a.getAdaptAdaptionProbability(); bool t = THROWS(a.setAdaptAdaptionProbability(p)); VASSERT(t == !((p >= 0.) & (p <= 1.)), "bad probabilities are refused"); VASSERT(a.getAdaptAdaptionProbability() == (t ? q : p), "probability of adapting the adaptor"); check(); }
  if (op == 4) { double q = a.getAdaptAdProb(); bool t = THROWS(a.setAdaptAdProb(p)); VASSERT(t == (p < 0.), "negative rates are refused"); VASSERT(a.getAdaptAdProb() == (t ? q : p), "rate of probability changes"); A b(p); VASSERT(b.getAdaptionProbability() == clampd(p, 0.001, 1.) && b.getResetAdaptionProbability() == clampd(p, 0.001, 1.), "constructed adaptors have a valid probability"); }
  vs_reach("done");
}
HARNESS h_prob_gauss() { prob<GG>(); } HARNESS h_prob_bigauss() { prob<GB>(); } HARNESS h_prob_int() { prob<GI>(); } HARNESS h_prob_flip() { prob<GF>(); } HARNESS h_prob_bool() { prob<GBooleanAdaptor>(); }
// sigma of Gauss adaptors
template <class A> static void sigma() {
  A a(0.5, 0.2, 0.1, 0.9); double mn = 0.1, mx = 0.9, s = 0.5, sr = 0.5, rate = 0.2; unsigned how = sym_choice("ctor", 3); double lo = sym_fin("lo"), hi = sym_fin("hi"), v = sym_fin("v"); unsigned op = sym_choice("op", 4);
  if (how == 1) { a = A(0.5, 0.2, 0.1, 0.9, 0.25); VASSERT(a.getAdaptionProbability() == 0.25, "constructed with a probability"); } if (how == 2) { a = A(0.25); VASSERT(a.getAdaptionProbability() == 0.25, "constructed with a probability"); mn = 0.001; mx = 1.; s = sr = std::is_same<A, GI>::value ? DEFAULTINT32SIGMA : 0.025; rate = 0.2; }
  auto check = [&]() { auto r = a.getSigmaRange(); VASSERT(std::get<0>(r) == mn && std::get<1>(r) == mx, "range of sigmas"); VASSERT(a.getSigma() == s, "sigma"); VASSERT(a.getResetSigma() == sr, "reset value of sigma"); VASSERT(a.getSigmaAdaptionRate() == rate, "rate of sigma"); VASSERT((s >= mn) & (s <= mx) & (sr >= mn) & (sr <= mx) & (mn >= 0.001), "sigma stays in its range"); };
  check(); if (op == 3) { rate = v; a.setSigmaAdaptionRate(v); check(); vs_reach("done"); return; }
  bool t = THROWS(a.setSigmaRange(lo, hi)); bool ok = (lo >= 0.) & (hi <= 1.) & (lo <= hi) & (hi >= 0.001); VASSERT(t == !ok, "impossible ranges are refused"); if (t) vs_reach("refused"); else { mn = lo < 0.001 ? 0.001 : lo; mx = hi; s = clampd(s, mn, mx); sr = clampd(sr, mn, mx); } check();
  if (op == 1) { t = THROWS(a.setSigma(v)); VASSERT(t == !((v >= mn) & (v <= mx)), "sigmas outside of the range are refused"); if (!t) s = v; check(); }
  if (op == 2) { t = THROWS(a.setResetSigma(v)); VASSERT(t == !((v >= mn) & (v <= mx)), "sigmas outside of the range are refused"); if (!t) sr = v; check(); }
  vs_reach("done");
}
HARNESS h_sigma() { sigma<GG>(); } HARNESS h_sigma_int() { sigma<GI>(); }
HARNESS h_sigma_all() { GG a(0.5); double lo = sym_fin("lo"), hi = sym_fin("hi"), v = sym_fin("v"); bool t = THROWS(a.setAll(v, 0.3, lo, hi)); double mn = lo < 0.001 ? 0.001 : lo; bool ok = (lo >= 0.) & (hi <= 1.) & (lo <= hi) & (hi >= 0.001) & (v >= mn) & (v <= hi); VASSERT(t == !ok, "impossible settings are refused"); auto r = a.getSigmaRange(); double s = a.getSigma(); if (!t) { VASSERT(s == v && a.getSigmaAdaptionRate() == 0.3 && std::get<0>(r) == mn && std::get<1>(r) == hi, "all settings"); vs_reach("accepted"); } VASSERT((s >= std::get<0>(r)) & (s <= std::get<1>(r)), "sigma stays in its range"); vs_reach("done"); }
// sigmas and distances of bi-gauss adaptors
template <class SR, class SS, class GR, class GS> static void bi(double mn, double mx, double s, double least, SR setr, SS sets, GR getr, GS gets) {
  double lo = sym_fin("lo"), hi = sym_fin("hi"), v = sym_fin("v"); auto check = [&]() { auto r = getr(); VASSERT(std::get<0>(r) == mn && std::get<1>(r) == mx, "range"); VASSERT(gets() == s, "value"); VASSERT((s >= mn) & (s <= mx) & (mn >= least), "values stay in their range"); };
  check(); bool t = THROWS(setr(lo, hi)); bool ok = (lo >= 0.) & (lo <= hi) & (hi >= least); VASSERT(t == !ok, "impossible ranges are refused"); if (t) vs_reach("refused"); else { mn = lo < least ? least : lo; mx = hi; s = clampd(s, mn, mx); } check();
  t = THROWS(sets(v)); VASSERT(t == !((v >= mn) & (v <= mx)), "values outside of the range are refused"); if (!t) s = v; check(); vs_reach("done");
}
HARNESS h_bi() {
  GB a; unsigned k = sym_choice("which", 3); VASSERT(a.getUseSymmetricSigmas(), "symmetric by default"); a.setSigma1AdaptionRate(0.3); a.setSigma2AdaptionRate(0.4); a.setDeltaAdaptionRate(0.6); VASSERT(a.getSigma1AdaptionRate() == 0.3 && a.getSigma2AdaptionRate() == 0.4 && a.getDeltaAdaptionRate() == 0.6, "rates");
  if (k == 0) bi(0.001, 1., 0.025, 0.001, [&](double x, double y) { a.setSigma1Range(x, y); return 0; }, [&](double x) { a.setSigma1(x); return 0; }, [&] { return a.getSigma1Range(); }, [&] { return a.getSigma1(); });
  else if (k == 1) bi(0.001, 1., 0.025, 0.001, [&](double x, double y) { a.setSigma2Range(x, y); return 0; }, [&](double x) { a.setSigma2(x); return 0; }, [&] { return a.getSigma2Range(); }, [&] { return a.getSigma2(); });
  else bi(0., 0.5, 0.05, 0., [&](double x, double y) { a.setDeltaRange(x, y); return 0; }, [&](double x) { a.setDelta(x); return 0; }, [&] { return a.getDeltaRange(); }, [&] { return a.getDelta(); });
  GB b; auto same = [&](int s) { return (s == 1 || (a.getSigma1() == b.getSigma1() && a.getSigma1Range() == b.getSigma1Range())) && (s == 2 || (a.getSigma2() == b.getSigma2() && a.getSigma2Range() == b.getSigma2Range())) && (s == 3 || (a.getDelta() == b.getDelta() && a.getDeltaRange() == b.getDeltaRange())); }; VASSERT(same(k + 1), "other settings are unchanged");
}
HARNESS h_bi_all() { GB a; a.setAllSigma1(0.4, 0.1, 0.2, 0.5); a.setAllSigma2(0.6, 0.3, 0.5, 0.7); a.setAllDelta(0.8, 0.2, 0.75, 0.9); a.setUseSymmetricSigmas(false); using T = std::tuple<double, double>; VASSERT(a.getSigma1() == 0.4 && a.getSigma1AdaptionRate() == 0.1 && a.getSigma1Range() == T(0.2, 0.5) && a.getSigma2() == 0.6 && a.getSigma2AdaptionRate() == 0.3 && a.getSigma2Range() == T(0.5, 0.7) && a.getDelta() == 0.8 && a.getDeltaAdaptionRate() == 0.2 && a.getDeltaRange() == T(0.75, 0.9) && !a.getUseSymmetricSigmas(), "all settings"); vs_reach("done"); }
// which values are adapted
template <class A, class T> static void modes(T v0, T range) {
  A a(0.5); a.setAdaptionThreshold(0); a.setAdaptAdaptionProbability(0.); unsigned m = sym_choice("mode", 3), n = sym_choice("n", 4); adaptionMode am = m == 0 ? adaptionMode::NEVER : m == 1 ? adaptionMode::ALWAYS : adaptionMode::WITHPROBABILITY; a.setAdaptionMode(am); VASSERT(a.getAdaptionMode() == am, "mode"); unsigned pk = sym_choice("probability", 3); double pr = pk == 0 ? 0.001 : pk == 1 ? 0.5 : 1.; a.setAdaptionProbability(pr); a.setAdaptAdProb(0.); Rnd g; hooks(1); std::vector<T> v(n + 1, v0), w = v; bool vec = sym_choice("vector", 2); std::size_t k = 0;
  if (vec) k = a.adapt(v, range, g); else { v.resize(1); w.resize(1); k = a.adapt(v[0], range, g); } VASSERT(v.size() == w.size(), "number of values"); std::size_t bi = 0, want = 0;
  for (std::size_t i = 0; i < v.size(); i++) { bool ad = m == 1; if (m == 2) { VASSERT(bi < B.size() && B[bi].p == pr, "one decision with the adaption probability for each value"); ad = B[bi++].r; } if (ad) { want++; if (!std::is_same<T, bool>::value && !std::is_same<A, GG>::value && !std::is_same<A, GB>::value) while (bi < B.size() && B[bi].p == 0.5 && m == 1) bi++; if (std::is_same<A, GF>::value && m == 2) bi++; if (std::is_same<A, GI>::value && m == 2) { double f = N[want - 1].r; if (f == 0.) bi++; } if (std::is_same<A, GB>::value) bi += m == 2; } else VASSERT(v[i] == w[i], "other values are unchanged"); }
  VASSERT(k == want, "the number of adapted values is reported"); VASSERT(a.getAdaptionProbability() == pr, "the probability is unchanged"); vs_reach("done");
}
HARNESS h_mode_gauss() { modes<GG, double>(sym_intd("v", 6), 8.); } HARNESS h_mode_bigauss() { modes<GB, double>(sym_intd("v", 6), 8.); } HARNESS h_mode_int() { modes<GI, i32>(5, 8); } HARNESS h_mode_flip() { modes<GF, i32>((i32)sym_small("v", 6), 8); }
HARNESS h_mode_bool() {
  GBooleanAdaptor a(0.5); unsigned m = sym_choice("mode", 3), n = 1 + sym_choice("n", 3); a.setAdaptionMode(m == 0 ? adaptionMode::NEVER : m == 1 ? adaptionMode::ALWAYS : adaptionMode::WITHPROBABILITY); a.setAdaptAdProb(0.); Rnd g; hooks(1); std::size_t want = 0; for (unsigned i = 0; i < n; i++) { bool v = sym_choice("v", 2), w = v; std::size_t c = a.adapt(w, true, g); bool ad = m == 1 || (m == 2 && B.back().r); VASSERT(w == (ad ? !v : v) && c == (ad ? 1u : 0u), "booleans are inverted"); if (m == 2) VASSERT(B.size() == i + 1 && B[i].p == a.getAdaptionProbability(), "decision"); else VASSERT(B.empty(), "no decision"); } vs_reach("done");
}
// adaption of the probability itself
template <class A, class T> static void adprob(T v0) {
  A a(0.5); a.setAdaptionMode(sym_choice("mode", 2) ? adaptionMode::NEVER : adaptionMode::ALWAYS); a.setAdaptionThreshold(0); a.setAdaptAdaptionProbability(0.); a.setAdProbRange(0.25, 0.75); double rate = sym_choice("rate", 2) ? 0.3 : 0.; a.setAdaptAdProb(rate); Rnd g; hooks(0); bool vec = sym_choice("vector", 2); std::vector<T> v(2, v0); T w = v0; vec ? a.adapt(v, v0, g) : a.adapt(w, v0, g); double p = a.getAdaptionProbability();
  if (rate == 0.) { VASSERT(p == 0.5, "the probability is unchanged"); vs_reach("constant"); } else { VASSERT(!N.empty() && N[0].m == 0. && N[0].s == 0.3, "draw"); double want = clampd(0.5 * std::exp(N[0].r), 0.25, 0.75); VASSERT(p == want, "the probability changes by a log-normal factor"); VASSERT((p >= 0.25) & (p <= 0.75), "the probability stays in its range"); vs_reach("adapted"); } VASSERT(a.getResetAdaptionProbability() == 0.5, "reset value");
}
HARNESS h_adprob() { adprob<GG, double>(1.); } HARNESS h_adprob_flip() { adprob<GF, i32>(1); }
// values of adapted numbers; adaption of sigma
static double sa(GG &a, std::size_t i, double s, double rate) { VASSERT(i < N.size() && N[i].m == 0. && N[i].s == (rate < 0. ? -rate : rate), "draw for sigma"); auto r = a.getSigmaRange(); return clampd(s * std::exp(N[i].r), std::get<0>(r), std::get<1>(r)); }
static void gauss(bool values) {
  double rate = sym_choice("rate", 2) ? 0.375 : -0.375, range = 8.; GG a(0.5, rate, 0.125, 0.75); a.setAdaptionMode(adaptionMode::ALWAYS); unsigned thr = values ? 0 : sym_choice("threshold", 4); a.setAdaptionThreshold(thr); double ap = values ? 0. : sym_choice("prob", 3) * 0.5; a.setAdaptAdaptionProbability(ap); a.setAdaptAdProb(0.); VASSERT(a.getAdaptionThreshold() == thr && a.getAdaptionCounter() == 0, "threshold"); Rnd g; hooks(values ? 1 : 3); double s = 0.5; g_which = values ? 0 : sym_choice("which", 3); std::size_t ni = 0, bi = 0; unsigned cnt = 0;
  for (unsigned i = 0; i < 3 && g_n <= g_which; i++) { double v = values ? sym_intd("v", 6) : 5., w = v; a.adapt(w, range, g); bool ad = false; if (thr > 0) { if (++cnt == thr) { cnt = 0; ad = true; } } else if (ap > 0.) { VASSERT(bi < B.size() && B[bi].p == ap, "decision about adapting the adaptor"); ad = B[bi++].r; } if (ad) s = sa(a, ni++, s, rate); VASSERT(a.getSigma() == s, "sigma changes if and only if it is due"); VASSERT((s >= 0.125) & (s <= 0.75), "sigma stays in its range"); VASSERT(ni < N.size() && N[ni].m == 0. && N[ni].s == s, "the value is drawn with the current sigma"); VASSERT(w == v + range * N[ni].r, "values change by a part of the range"); ni++; VASSERT(N.size() == ni && B.size() == bi && a.getAdaptionCounter() == cnt, "nothing else is drawn"); }
  vs_reach("done");
}
HARNESS h_gauss() { gauss(false); } HARNESS h_gauss_value() { gauss(true); }
HARNESS h_bigauss() {
  GB a(1.); a.setAllSigma1(0.5, 0.1875, 0.25, 0.75); a.setAllSigma2(0.5, -0.4375, 0.25, 0.625); a.setAllDelta(0.25, 0.375, 0.125, 0.5); a.setAdaptionMode(adaptionMode::ALWAYS); bool sym = sym_choice("symmetric", 2); a.setUseSymmetricSigmas(sym); bool ad = sym_choice("adapt", 2); a.setAdaptionThreshold(ad); a.setAdaptAdProb(0.); if (!ad) a.setAdaptAdaptionProbability(0.); Rnd g; hooks(ad ? 3 : 1); if (ad) g_which = sym_choice("which", 3); double v = ad ? 5. : sym_intd("v", 6), w = v; a.adapt(w, 8., g); double s1 = 0.5, s2 = 0.5, d = 0.25; std::size_t i = 0;
  if (ad) { VASSERT(N.size() == 4 && N[0].s == 0.1875 && N[1].s == 0.4375 && N[2].s == 0.375, "draws for the settings"); s1 = clampd(0.5 * std::exp(N[0].r), 0.25, 0.75); s2 = clampd(0.5 * std::exp(N[1].r), 0.25, 0.625); d = clampd(0.25 * std::exp(N[2].r), 0.125, 0.5); i = 3; } VASSERT(a.getSigma1() == s1, "first sigma"); VASSERT(a.getSigma2() == s2, "second sigma"); VASSERT(a.getDelta() == d, "distance"); VASSERT((s1 >= 0.25) & (s1 <= 0.75) & (s2 >= 0.25) & (s2 <= 0.625) & (d >= 0.125) & (d <= 0.5), "ranges");
  VASSERT(N.size() == i + 1 && N[i].m == 0. && N[i].s == 1. && B.size() == 1 && B[0].p == 0.5, "draws for the value"); double x = N[i].r; double step = B[0].r ? s1 * x - d / 2 : (sym ? s1 : s2) * x + d / 2; VASSERT(w == v + 8. * step, "values are drawn from one of two hills"); vs_reach("done");
}
HARNESS h_int() {
  GI a(0.5, 0.2, 0.125, 0.75); a.setAdaptionMode(adaptionMode::ALWAYS); a.setAdaptionThreshold(0); a.setAdaptAdaptionProbability(0.); a.setAdaptAdProb(0.); Rnd g; hooks(2); i32 v = (i32)sym_range("v", -1000000, 1000000), w = v; i32 range = sym_choice("range", 2) ? 10 : 1; a.adapt(w, range, g); VASSERT(N.size() == 1 && N[0].s == 0.5, "draw"); i32 add = (i32)(range * N[0].r); if (add) { VASSERT(w == v + add, "integers change by a part of the range"); vs_reach("drawn"); } else { VASSERT(B.size() == 1 && B[0].p == 0.5, "decision about the direction"); VASSERT(w == v + 1 || w == v - 1, "integers change by at least one"); vs_reach("minimal"); }
}
HARNESS h_flip() { GF a(1.); a.setAdaptionMode(adaptionMode::ALWAYS); a.setAdaptAdProb(0.); Rnd g; hooks(1); i32 v = sym_i32("v"), w = v; VASSUME(v > std::numeric_limits<i32>::min() && v < std::numeric_limits<i32>::max()); a.adapt(w, 100, g); VASSERT(B.size() == 1 && B[0].p == 0.5 && N.empty(), "decision about the direction"); VASSERT(w == (B[0].r ? v + 1 : v - 1), "integers are flipped to a neighbor"); vs_reach("done"); }
// stalls
HARNESS h_stall() {
  GG a(0.5, 0.2, 0.125, 0.75); bool p = sym_choice("prob", 2), s = sym_choice("sigma", 2); a.setResetAdaptionProbability(0.25); a.setAdaptionProbability(p ? 0.5 : 0.25); a.setResetSigma(0.25); a.setSigma(s ? 0.5 : 0.25); VASSERT(THROWS(a.updateOnStall(0, 1.)), "no stall"); VASSERT(a.updateOnStall(1 + sym_choice("n", 2), 1.) == (p || s), "changes are reported"); VASSERT(a.getAdaptionProbability() == 0.25 && a.getSigma() == 0.25, "stalls reset the adaptor"); VASSERT(!a.updateOnStall(3, 1.), "nothing left to reset");
  GF b(0.5); VASSERT(!b.updateOnStall(1, 1), "nothing to reset"); b.setAdaptionProbability(0.75); VASSERT(b.updateOnStall(1, 1) && b.getAdaptionProbability() == 0.5, "reset"); GB c(0.5); c.setAdaptionProbability(0.75); VASSERT(c.updateOnStall(1, 1.) && c.getAdaptionProbability() == 0.5, "reset"); vs_reach("done");
}
HARNESS h_init() {
  Rnd g; GG a(0.5, 0.2, 0.125, 0.75); VASSERT(a.randomInit(g), "changed"); VASSERT((a.getSigma() >= 0.125) & (a.getSigma() <= 0.75), "random sigma"); VASSERT(a.getResetSigma() == 0.5 && a.getAdaptionProbability() == 1., "other settings");
  GB b(0.5); b.setAllSigma1(0.5, 0.1, 0.25, 0.75); b.setAllSigma2(0.5, 0.2, 0.25, 0.625); b.setAllDelta(0.25, 0.3, 0.125, 0.5); VASSERT(b.randomInit(g), "changed"); VASSERT((b.getSigma1() >= 0.25) & (b.getSigma1() <= 0.75), "first"); VASSERT((b.getSigma2() >= 0.25) & (b.getSigma2() <= 0.625), "second"); VASSERT((b.getDelta() >= 0.125) & (b.getDelta() <= 0.5), "distance"); GF c(0.5); VASSERT(!static_cast<GAdaptorT<i32> &>(c).randomInit(g), "nothing to initialize"); GBooleanAdaptor d(0.5); VASSERT(!d.randomInit(g), "nothing to initialize"); vs_reach("done");
}
template <class A> static void query(const char *name, const char *prop) {
  A a(0.5); a.setAdaptionProbability(0.75); std::vector<boost::any> d; std::string nm = a.name(); VASSERT(nm == name, "name"); a.queryPropertyFrom("other", "adProb", d); a.queryPropertyFrom("other", "nonsense", d); VASSERT(d.empty(), "queries for other adaptors are ignored"); a.queryPropertyFrom(nm, "adProb", d); VASSERT(d.size() == 1 && boost::any_cast<double>(d[0]) == 0.75, "probability"); VASSERT(THROWS(([&] { a.queryPropertyFrom(nm, "nonsense", d); return 0; })()) && d.size() == 1, "unknown properties are refused"); if (*prop) { a.queryPropertyFrom(nm, prop, d); VASSERT(d.size() == 2, "property"); }
}
HARNESS h_query() { query<GG>("GDoubleGaussAdaptor", "sigma"); query<GB>("GDoubleBiGaussAdaptor", "sigma1"); query<GI>("GInt32GaussAdaptor", "sigma"); query<GF>("GInt32FlipAdaptor", ""); query<GBooleanAdaptor>("GBooleanAdaptor", ""); vs_reach("done"); }
// adaptors belong to one parameter
HARNESS h_own() {
  GDoubleObject o(1., 0., 8.); bool same = sym_choice("same", 2); if (!same) o.addAdaptor(std::make_shared<GB>()); auto a = std::make_shared<GG>(0.5, 0.2, 0.125, 0.75); a->setAdaptionMode(adaptionMode::ALWAYS); o.addAdaptor(a); VASSERT(THROWS(([&] { o.addAdaptor(std::shared_ptr<GAdaptorT<double>>()); return 0; })()), "empty adaptors are refused"); auto b = o.getAdaptor<GG>(); VASSERT(b && b != a && b->getSigma() == 0.5 && o.hasAdaptor(), "the parameter has an adaptor of its own"); VASSERT(THROWS(o.getAdaptor<GB>()), "the type of the adaptor is checked"); a->setSigma(0.25); VASSERT(b->getSigma() == 0.5, "no shared state"); GDoubleObject p(o); VASSERT(p.getAdaptor<GG>() != b && p.getAdaptor<GG>()->getSigma() == 0.5, "copied"); b->setResetSigma(0.25);
  b->setAdaptionThreshold(0); b->setAdaptAdaptionProbability(0.); b->setAdaptAdProb(0.); Rnd g; hooks(1); unsigned k = sym_choice("op", 3); if (k == 0) { VASSERT(o.updateAdaptorsOnStall(2) && b->getSigma() == 0.25 && p.getAdaptor<GG>()->getSigma() == 0.5, "stalls reset the adaptors"); VASSERT(!o.updateAdaptorsOnStall(3), "nothing left to reset"); }
  else if (k == 1) { std::vector<boost::any> d; o.queryAdaptor("GDoubleGaussAdaptor", "sigma", d); VASSERT(d.size() == 1 && boost::any_cast<double>(d[0]) == 0.5, "queries are passed on"); }
  else { std::size_t n = o.adapt(g); VASSERT(n == 1 && N.size() == 1 && N[0].s == 0.5, "the adaptor is applied once"); VASSERT(o.value() == 1. + 8. * N[0].r, "the range of initial values is used"); } vs_reach("done");
}
