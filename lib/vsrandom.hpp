// Random draws as unconstrained symbolic values within the contract of the standard distributions.
// Force-included into every translation unit that draws random numbers.
#pragma once
#include "common/GGlobalDefines.hpp"
#include <random>
#include "hap/GRandomT.hpp"
#include "vs.hpp"
namespace vsr {
inline double last[16]; inline unsigned nlast; // uniform draws, for oracles
inline double (*hook)(double, double); // replaces uniform draws
inline double ureal(double a, double b) { if (hook) return hook(a, b); double r = sym_f64("rnd_ureal"); vs_assume((a == b) ? (r == a) : ((r >= a) & (r < b))); if (nlast < 16) last[nlast] = r; nlast++; return r; }
inline float urealf(float a, float b) { float r = sym_f32("rnd_urealf"); vs_assume((a == b) ? (r == a) : ((r >= a) & (r < b))); return r; }
inline long long (*ihook)(long long, long long); // replaces integer draws
inline double (*nhook)(double, double); inline bool (*bhook)(double); // replace normal and boolean draws
inline double norm(double m, double s) { if (nhook) return nhook(m, s); if (s == 0.) return m; double r = sym_f64("rnd_norm"); vs_assume(r - r == 0.); return r; }
inline float normf(float m, float s) { if (s == 0.f) return m; float r = sym_f32("rnd_normf"); vs_assume(r - r == 0.f); return r; }
inline bool bern(double p) { if (bhook) return bhook(p); if (p <= 0.) return false; if (p >= 1.) return true; return vs_sym("rnd_bool", 1) != 0; }
template <class I> inline I uint(I a, I b) { if (ihook) return (I)ihook((long long)a, (long long)b); I r = (I)vs_sym("rnd_int", 8 * sizeof(I)); vs_assume((r >= a) & (r <= b)); return r; }
}
#define VSR_GEN(M) M(Gem::Hap::GRandomBase) M(Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMPROXY>) M(Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMLOCAL>)
#define VSR_SPEC(G) \
  template <> template <> inline double std::uniform_real_distribution<double>::operator()<G>(G &, const param_type &p) { return vsr::ureal(p.a(), p.b()); } \
  template <> template <> inline float std::uniform_real_distribution<float>::operator()<G>(G &, const param_type &p) { return vsr::urealf(p.a(), p.b()); } \
  template <> template <> inline double std::normal_distribution<double>::operator()<G>(G &, const param_type &p) { return vsr::norm(p.mean(), p.stddev()); } \
  template <> template <> inline float std::normal_distribution<float>::operator()<G>(G &, const param_type &p) { return vsr::normf(p.mean(), p.stddev()); } \
  template <> inline bool std::bernoulli_distribution::operator()<G>(G &, const param_type &p) { return vsr::bern(p.p()); } \
  template <> template <> inline std::int32_t std::uniform_int_distribution<std::int32_t>::operator()<G>(G &, const param_type &p) { return vsr::uint<std::int32_t>(p.a(), p.b()); } \
  template <> template <> inline std::int64_t std::uniform_int_distribution<std::int64_t>::operator()<G>(G &, const param_type &p) { return vsr::uint<std::int64_t>(p.a(), p.b()); } \
  template <> template <> inline std::uint32_t std::uniform_int_distribution<std::uint32_t>::operator()<G>(G &, const param_type &p) { return vsr::uint<std::uint32_t>(p.a(), p.b()); } \
  template <> template <> inline std::size_t std::uniform_int_distribution<std::size_t>::operator()<G>(G &, const param_type &p) { return vsr::uint<std::size_t>(p.a(), p.b()); }
VSR_GEN(VSR_SPEC)
