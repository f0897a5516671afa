// Native side of the harness API: used to replay a counterexample against the real build
// (real libstdc++, real boost, real libm). Values come from the file named by VS_REPLAY.
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <map>
#include <mutex>
#include <thread>
#include <exception>
#include <fstream>
#include <iostream>
static std::map<std::string, uint64_t> vals; static std::map<std::string, int> cnt; static std::mutex mx; static bool loaded = false;
static void load() { if (loaded) return; loaded = true; const char *f = getenv("VS_REPLAY"); if (!f) return; std::ifstream in(f); std::string n, b, v; while (in >> n >> b >> v) if (n[0] != '@') vals[n] = strtoull(v.c_str(), 0, 16); }
[[noreturn]] static void out(const char *what, const char *msg, int rc) { fprintf(stdout, "\nVS-NATIVE %s %s\n", what, msg); fflush(stdout); _exit(rc); }
#include <unistd.h>
extern "C" {
uint64_t vs_sym(const char *name, uint32_t bits) { std::lock_guard<std::mutex> l(mx); load(); std::string k = std::string(name) + "#" + std::to_string(cnt[name]++); for (char &c : k) if (c == ' ') c = '_'; auto it = vals.find(k); uint64_t v = it == vals.end() ? 0 : it->second; if (bits < 64) v &= (1ULL << bits) - 1; return v; }
void vs_assume(int c) { if (!c) out("ASSUME-FAILED", "an assumption does not hold natively", 50); }
void vs_assert(int c, const char *msg) { if (!c) out("ASSERT-FAILED", msg, 42); }
void vs_assert_known(int c, const char *msg, const char *) { (void)c; (void)msg; }
void vs_fail(const char *msg) { out("ASSERT-FAILED", msg, 42); }
void vs_reach(const char *) {}
uint64_t vs_concretize(uint64_t v) { return v; }
int vs_is_symbolic(uint64_t) { return 0; }
void vs_log(const char *m) { fprintf(stdout, "LOG %s\n", m); }
void vs_lognum(const char *m, uint64_t v) { fprintf(stdout, "LOG %s %llu\n", m, (unsigned long long)v); }
uint64_t vs_nthreads() { return 1; }
void vs_bt() {}
void vs_symbuf(void *p, uint64_t n, const char *name) { for (uint64_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)vs_sym(name, 8); }
uint64_t vs_thread_create(void *(*)(void *), void *) { return 0; }
}
#include <sys/resource.h>
#include <csignal>
extern "C" void vs_disk_limit(long n) { signal(SIGXFSZ, SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n < 0 ? r.rlim_max : (rlim_t)n; setrlimit(RLIMIT_FSIZE, &r); }
extern "C" void ENTRY();
int main() {
  std::set_terminate([] { const char *m = "terminate called"; static char b[400]; try { auto e = std::current_exception(); if (e) std::rethrow_exception(e); } catch (std::exception &e) { snprintf(b, sizeof b, "uncaught exception: %s", e.what()); m = b; } catch (...) { m = "uncaught exception"; } out("TERMINATE", m, 43); });
  ENTRY();
  printf("\nVS-NATIVE OK\n"); fflush(stdout); _exit(0);
}
