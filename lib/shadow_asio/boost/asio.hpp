// Environment model: boost::asio::io_context reduced to its documented contract
// (post() queues a handler; run() executes queued handlers and returns once the context is
// stopped or there is neither work guard nor handler; restart() allows run() to be called again).
#pragma once
#include <functional>
#include <mutex>
#include <condition_variable>
#include <deque>
#include <memory>
#include <boost/system/error_code.hpp>
namespace boost { namespace asio {
class io_context {
public:
  struct base { virtual ~base() {} virtual void call() = 0; };
  template <class F> struct holder : base { F f; holder(F &&x) : f(std::move(x)) {} void call() override { f(); } };
  class work { io_context &c; public: explicit work(io_context &x) : c(x) { std::lock_guard<std::mutex> l(c.m); c.nwork++; } work(const work &o) : work(o.c) {} ~work() { std::lock_guard<std::mutex> l(c.m); c.nwork--; if (!c.nwork) c.cv.notify_all(); } };
  template <class F> void post_(F f) { std::unique_ptr<base> h(new holder<F>(std::move(f))); std::lock_guard<std::mutex> l(m); q.push_back(std::move(h)); cv.notify_one(); }
  std::size_t run() {
    std::size_t n = 0;
    for (;;) {
      std::unique_ptr<base> h;
      { std::unique_lock<std::mutex> l(m);
        for (;;) { if (stopped_) return n; if (!q.empty()) { h = std::move(q.front()); q.pop_front(); running++; break; } if (!nwork && !running) { stopped_ = true; cv.notify_all(); return n; } cv.wait(l); } }
      try { h->call(); } catch (...) { std::lock_guard<std::mutex> l(m); running--; throw; }
      h.reset(); n++;
      { std::lock_guard<std::mutex> l(m); running--; if (!running && q.empty() && !nwork) { stopped_ = true; cv.notify_all(); } }
    }
  }
  void stop() { std::lock_guard<std::mutex> l(m); stopped_ = true; cv.notify_all(); }
  bool stopped() { std::lock_guard<std::mutex> l(m); return stopped_; }
  void restart() { std::lock_guard<std::mutex> l(m); stopped_ = false; }
  void reset() { restart(); }
private:
  friend class work;
  std::mutex m; std::condition_variable cv; std::deque<std::unique_ptr<base>> q; int nwork = 0, running = 0; bool stopped_ = false;
};
typedef io_context io_service;
// sockets are not modelled, only named
namespace ip { struct tcp { struct socket { enum { shutdown_both }; template <class E> void shutdown(int, E &) {} void close() {} }; }; }
template <class F> void post(io_context &c, F &&f) { c.post_(std::decay_t<F>(std::forward<F>(f))); }
}}
