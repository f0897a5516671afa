// Harness API. In the symbolic engine these are intrinsics; in native replay they are
// implemented by vsnative.cpp, reading the counterexample's values from a file.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
extern "C" {
uint64_t vs_sym(const char *name, uint32_t bits);
void vs_assume(int c);
void vs_assert(int c, const char *msg);
void vs_assert_known(int c, const char *msg, const char *finding);
void vs_fail(const char *msg);
void vs_reach(const char *what);
uint64_t vs_concretize(uint64_t v);
int vs_is_symbolic(uint64_t v);
void vs_log(const char *m);
void vs_lognum(const char *m, uint64_t v);
uint64_t vs_nthreads();
void vs_bt();
void vs_symbuf(void *p, uint64_t n, const char *name);
}
static inline int32_t sym_i32(const char *n) { return (int32_t)vs_sym(n, 32); }
static inline uint32_t sym_u32(const char *n) { return (uint32_t)vs_sym(n, 32); }
static inline int64_t sym_i64(const char *n) { return (int64_t)vs_sym(n, 64); }
static inline uint64_t sym_u64(const char *n) { return vs_sym(n, 64); }
static inline bool sym_bool(const char *n) { return vs_sym(n, 1) != 0; }
static inline uint8_t sym_u8(const char *n) { return (uint8_t)vs_sym(n, 8); }
static inline double sym_f64(const char *n) { uint64_t u = vs_sym(n, 64); double d; memcpy(&d, &u, 8); return d; }
static inline float sym_f32(const char *n) { uint32_t u = (uint32_t)vs_sym(n, 32); float d; memcpy(&d, &u, 4); return d; }
// finite double
static inline double sym_fin(const char *n) { double d = sym_f64(n); vs_assume(d - d == 0.); return d; }
static inline float sym_finf(const char *n) { float d = sym_f32(n); vs_assume(d - d == 0.f); return d; }
// value in [0,n), explored value by value
static inline uint32_t sym_choice(const char *nm, uint32_t n) { uint32_t v = (uint32_t)vs_sym(nm, 32); vs_assume(v < n); return (uint32_t)vs_concretize(v); }
// integer in [lo,hi], kept symbolic
static inline int64_t sym_range(const char *nm, int64_t lo, int64_t hi) { int64_t v = (int64_t)vs_sym(nm, 64); vs_assume(v >= lo && v <= hi); return v; }
static inline uint64_t vs_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
// integer of the given number of bits (sign included); sums and products of the corresponding doubles stay exact
static inline int64_t sym_small(const char *nm, unsigned bits) { return (int64_t)(vs_sym(nm, bits) << (64 - bits)) >> (64 - bits); }
static inline double sym_intd(const char *nm, unsigned bits) { return (double)sym_small(nm, bits); }
#define VASSERT(c, m) vs_assert((c) ? 1 : 0, m)
#define VASSUME(c) vs_assume((c) ? 1 : 0)
#define HARNESS extern "C" void
