// Random number factory: every number and every seed is handed out once; producers, shutdown
#include "vs.hpp"
#include <thread>
#include <set>
#include "hap/GRandomFactory.hpp"
#include "hap/GRandomT.hpp"
using namespace Gem::Hap; using Proxy = GRandomT<RANDFLAVOURS::RANDOMPROXY>; using Local = GRandomT<RANDFLAVOURS::RANDOMLOCAL>; using num = GRandomBase::result_type;
static void distinct(const std::vector<num> &v, const char *m) { std::set<num> s; for (auto x : v) { VASSERT(x >= 1 && x <= vsh::produced, "a number that was produced"); VASSERT(s.insert(x).second, m); } }
static const char *ONCE = "every number is delivered once";
// histories of draws, copies, moves and destructions of proxies
HARNESS h_proxy() {
  auto f = GRANDOMFACTORY; f->setNProducerThreads(1); std::vector<num> got; { auto a = std::make_unique<Proxy>(), b = std::make_unique<Proxy>(); for (int i = 0; i < 4; i++) switch (sym_choice("op", 6)) { case 0: got.push_back((*a)()); break; case 1: got.push_back((*b)()); break; case 2: b = std::make_unique<Proxy>(*a); break; case 3: b = std::make_unique<Proxy>(std::move(*a)); break; case 4: *b = std::move(*a); break; default: *b = *a; } got.push_back((*a)()); got.push_back((*b)()); got.push_back((*b)()); }
  Proxy c; got.push_back(c()); got.push_back(c()); distinct(got, ONCE); f->finalize(); vs_reach("done");
}
HARNESS h_consumers() {
  auto f = GRANDOMFACTORY; f->setNProducerThreads(1); std::vector<num> got[2]; auto run = [&](int k) { Proxy p; for (int i = 0; i < 3; i++) got[k].push_back(p()); }; std::thread t([&] { run(1); }); run(0); t.join(); f->finalize(); got[0].insert(got[0].end(), got[1].begin(), got[1].end()); VASSERT(got[0].size() == 6, "all numbers arrive"); distinct(got[0], ONCE); vs_reach("done");
}
HARNESS h_producers2() { auto f = GRANDOMFACTORY; std::vector<num> got; { Proxy p; for (int i = 0; i < 5; i++) got.push_back(p()); } f->finalize(); distinct(got, ONCE); VASSERT(vsh::used.size() == 2 && vsh::used[0] != vsh::used[1], "producers have their own seeds"); vs_reach("done"); }
// the number of producers is the largest one asked for; each has its own seed
HARNESS h_threads() {
  auto f = GRANDOMFACTORY; std::size_t want = DEFAULT01PRODUCERTHREADS; bool started = false; for (int i = 0; i < 4; i++) { unsigned k = i == 0 ? 1 : sym_choice("op", 4); if (k == 3) { auto p = f->getNewRandomContainer(); started = true; VASSERT(!p || !p->empty(), "fresh packages"); } else { f->setNProducerThreads(k); std::size_t n = k ? k : (std::size_t)DEFAULT01PRODUCERTHREADS; want = started ? std::max(want, n) : n; } }
  std::size_t n = f->m_producer_threads.size(); VASSERT(n == (started ? want : 0), "number of producers"); f->finalize(); VASSERT(vsh::used.size() <= n, "one generator for each producer"); std::set<unsigned long> s(vsh::used.begin(), vsh::used.end()); VASSERT(s.size() == vsh::used.size(), "producers have their own seeds"); f->finalize(); vs_reach("done");
}
HARNESS h_start_race() { auto f = GRANDOMFACTORY; std::thread t([&] { f->setNProducerThreads(1); }); { auto p = f->getNewRandomContainer(); } t.join(); std::size_t n = f->m_producer_threads.size(); VASSERT(n == 1 || n == 2, "threads are started once"); f->finalize(); vs_reach("done"); }
HARNESS h_start2() { auto f = GRANDOMFACTORY; f->setNProducerThreads(1); std::thread t([&] { auto p = f->getNewRandomContainer(); }); { auto p = f->getNewRandomContainer(); } t.join(); VASSERT(f->m_producer_threads.size() == 1, "threads are started once"); f->finalize(); vs_reach("done"); }
// seeds are handed out once, in order
HARNESS h_seeds() { auto f = GRANDOMFACTORY; std::vector<num> a, b; std::thread t([&] { for (int i = 0; i < 2; i++) b.push_back(f->getSeed()); }); for (int i = 0; i < 3; i++) a.push_back(f->getSeed()); t.join(); for (auto v : {&a, &b}) for (std::size_t i = 1; i < v->size(); i++) VASSERT((*v)[i] > (*v)[i - 1], "seeds in order"); a.insert(a.end(), b.begin(), b.end()); std::set<num> s(a.begin(), a.end()); VASSERT(s.size() == 5 && *s.begin() == 1 && *s.rbegin() == 5, "every seed is handed out once"); vs_reach("done"); }
HARNESS h_local() { vsh::used.clear(); Local a; Local b(a), c(std::move(a)); Local d; d = b; VASSERT(vsh::used.size() == 4, "own generators"); std::set<unsigned long> s(vsh::used.begin(), vsh::used.end()); VASSERT(s.size() == 4, "copies have their own seeds"); std::vector<num> v{a(), b(), c(), d(), a()}; distinct(v, ONCE); vs_reach("done"); }
static std::unique_ptr<random_container> get() { std::unique_ptr<random_container> p; while (!(p = GRANDOMFACTORY->getNewRandomContainer())) ; return p; } // empty after a time-out
// packages: positions, exhaustion, recycling
HARNESS h_package() { auto f = GRANDOMFACTORY; f->setNProducerThreads(1); auto p = get(); VASSERT((bool)p && p->size() == f->getCurrentArraySize() && p->getCurrentPosition() == 0 && !p->empty(), "a fresh package"); std::vector<num> v; std::size_t n = sym_choice("used", 3); for (std::size_t i = 0; i < n; i++) { v.push_back(p->next()); VASSERT(p->getCurrentPosition() == i + 1 && p->empty() == (i + 1 == p->size()), "position"); } f->returnUsedPackage(std::move(p)); for (int i = 0; i < 3; i++) { auto q = get(); VASSERT((bool)q && q->getCurrentPosition() == 0, "a fresh package"); while (!q->empty()) v.push_back(q->next()); f->returnUsedPackage(std::move(q)); } distinct(v, ONCE); f->finalize(); vs_reach("done"); }
