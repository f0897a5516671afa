// GBarrier, GSingletonT, GThreadGroup, GThreadPool
#include "vs.hpp"
#include <atomic>
#include "common/GBarrier.hpp"
#include "common/GSingletonT.hpp"
#include "common/GThreadPool.hpp"
using namespace Gem::Common;
// nobody passes the barrier before the required number of threads has arrived
HARNESS h_barrier2() {
  GBarrier b(2); std::atomic<int> arrived{0}, released{0};
  auto f = [&] { arrived++; if (b.wait()) released++; VASSERT(arrived.load() == 2, "all threads arrived before any continued"); };
  std::thread t(f); f(); t.join();
  VASSERT(released.load() == 1, "exactly one thread is told it released the barrier");
  vs_reach("done");
}
HARNESS h_barrier3() {
  GBarrier b(3); std::atomic<int> arrived{0};
  auto f = [&] { arrived++; b.wait(); VASSERT(arrived.load() == 3, "all threads arrived before any continued"); };
  std::thread t(f), u(f); f(); t.join(); u.join();
  vs_reach("done");
}
// the barrier can be used again
HARNESS h_barrier_reuse() {
  GBarrier b(2); std::atomic<int> a{0};
  auto f = [&] { a++; b.wait(); VASSERT(a.load() >= 2, "first round"); a++; b.wait(); VASSERT(a.load() == 4, "second round"); };
  std::thread t(f); f(); t.join();
  bool th = false; try { GBarrier z(0); } catch (gemfony_exception &) { th = true; } VASSERT(th, "a barrier for 0 threads is rejected");
  vs_reach("done");
}
static std::atomic<int> g_made{0};
struct Thing { int x; Thing() : x(41) { g_made++; x++; } };
HARNESS h_singleton() {
  std::shared_ptr<Thing> a, b, c;
  std::thread t([&] { a = GSingletonT<Thing>::Instance(0); }), u([&] { c = GSingletonT<Thing>::Instance(0); });
  b = GSingletonT<Thing>::Instance(0);
  t.join(); u.join();
  VASSERT(a && b && c && a.get() == b.get() && b.get() == c.get(), "everybody sees the same object");
  VASSERT(a->x == 42, "the object is fully constructed");
  VASSERT(g_made.load() == 1, "exactly one object is created");
  GSingletonT<Thing>::Instance(1);
  VASSERT(a->x == 42, "the object lives as long as it is held");
  VASSERT(GSingletonT<Thing>::Instance(0).get() != nullptr && g_made.load() == 2, "a reset singleton is created again");
  vs_reach("done");
}
HARNESS h_group() {
  GThreadGroup g; std::atomic<int> n{0};
  unsigned k = sym_choice("k", 4);
  g.create_threads([&] { n++; }, k);
  VASSERT(g.size() == k, "size of the group");
  g.add_thread(std::make_shared<std::thread>([&] { n++; }));
  VASSERT(g.size() == k + 1, "size of the group");
  g.join_all();
  VASSERT(n.load() == (int)k + 1, "join_all waits for every thread");
  vs_reach("done");
}
// ---- thread pool
HARNESS h_pool_basic() {
  std::atomic<int> runs[3]; for (auto &r : runs) r = 0;
  { GThreadPool p(2);
    int v = sym_i32("v");
    auto f0 = p.async_schedule([&] { runs[0]++; });
    auto f1 = p.async_schedule([&runs, v] { runs[1]++; return v; });
    p.wait();
    VASSERT(runs[0].load() == 1 && runs[1].load() == 1, "wait() returns after every submitted task has run exactly once");
    VASSERT(f1.get() == v, "the task's result is delivered"); f0.get();
    VASSERT(p.getNThreads() == 2, "the requested number of threads is running");
    p.async_schedule([&] { runs[2]++; });
  }
  VASSERT(runs[2].load() == 1, "destruction lets the pool run empty");
  VASSERT(runs[0].load() == 1 && runs[1].load() == 1, "tasks are not repeated");
  vs_reach("done");
}
HARNESS h_pool_throw() {
  GThreadPool p(1); std::atomic<int> n{0};
  auto a = p.async_schedule([&]() -> int { n++; throw std::runtime_error("x"); });
  auto b = p.async_schedule([&] { n++; throw 7; });
  auto c = p.async_schedule([&] { n++; return 5; });
  p.wait();
  VASSERT(n.load() == 3, "a throwing task does not keep others from running");
  bool ta = false, tb = false;
  try { a.get(); } catch (std::runtime_error &) { ta = true; }
  try { b.get(); } catch (int x) { tb = x == 7; }
  VASSERT(ta && tb, "exceptions are delivered through the future"); VASSERT(c.get() == 5, "later tasks are unaffected");
  vs_reach("done");
}
HARNESS h_pool_resize() {
  unsigned n0 = 1 + sym_choice("n0", 2), n1 = 1 + sym_choice("n1", 3); bool busy = sym_bool("busy");
  GThreadPool p(n0); std::atomic<int> n{0};
  p.async_schedule([&] { n++; });
  if (!busy) p.wait();
  p.setNThreads(n1);
  if (n0 != n1) VASSERT(n.load() == 1, "changing the number of threads lets the pool run empty first");
  VASSERT(p.getNThreads() == n1, "the pool has the requested number of threads");
  auto f = p.async_schedule([&] { n++; return 9; });
  p.wait(); VASSERT(n.load() == 2, "tasks submitted after a resize run once"); VASSERT(f.get() == 9, "result after a resize");
  vs_reach("done");
}
// after a change the pool executes exactly the requested number of tasks at a time
HARNESS h_pool_width() {
  unsigned n0 = 1 + sym_choice("n0", 3), n1 = 1 + sym_choice("n1", 2); GThreadPool p(n0); std::atomic<int> n{0}, in{0}, most{0};
  p.async_schedule([&] { n++; }); if (sym_bool("idle")) p.wait();
  p.setNThreads(n1); VASSERT(p.getNThreads() == n1 || n.load() == 0, "the pool has the requested number of threads");
  std::mutex m; std::condition_variable cv; unsigned arrived = 0;
  for (unsigned i = 0; i < n1; i++) p.async_schedule([&] { int c = ++in; if (c > most.load()) most = c; { std::unique_lock<std::mutex> l(m); arrived++; cv.notify_all(); while (arrived < n1) cv.wait(l); } in--; n++; });
  p.wait(); VASSERT(n.load() == (int)n1 + 1, "all tasks have run"); VASSERT(most.load() <= (int)n1 && p.getNThreads() == n1, "not more tasks at a time than requested");
  vs_reach("done");
}
// two submitters at the same time
HARNESS h_pool_2sub() {
  std::atomic<int> n{0};
  { GThreadPool p(1);
    std::thread t([&] { p.async_schedule([&] { n++; }); });
    p.async_schedule([&] { n++; });
    t.join(); p.wait(); VASSERT(n.load() == 2, "tasks of all submitters have run"); VASSERT(p.getNThreads() == 1, "threads are started once");
  }
  vs_reach("done");
}
