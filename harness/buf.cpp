// GBoundedBufferT: FIFO, capacity, no loss/duplication, no lost wakeup, timeouts
#include "vs.hpp"
#include "common/GBoundedBufferT.hpp"
#include <thread>
#include <vector>
using Gem::Common::GBoundedBufferT;

// ---- single-threaded operation sequences against a reference queue (contents symbolic)
template <std::size_t CAP, int N> static void seq() {
  GBoundedBufferT<int, CAP> b;
  int ref[N + 1]; int h = 0, t = 0; // reference FIFO [h,t)
  for (int k = 0; k < N; k++) {
    unsigned op = sym_choice("op", 12);
    int v = sym_i32("v");
    bool full = CAP && (std::size_t)(t - h) >= CAP;
    bool emp = t == h;
    auto popped = [&](bool ok, int x) { VASSERT(ok == !emp, "pop succeeds exactly when the buffer is not empty"); if (ok) { VASSERT(x == ref[h], "items leave in the order they entered"); h++; vs_reach("pop"); } };
    auto pushed = [&](bool ok) { VASSERT(ok == !full, "push succeeds exactly when there is space"); if (ok) { ref[t++] = v; vs_reach("push"); } else vs_reach("full"); };
    int x = v + 1;
    std::chrono::duration<double> to(0.001);
    switch (op) {
      case 0: pushed(b.try_push_copy(v)); break;
      case 1: { int w = v; pushed(b.try_push_move(std::move(w))); break; }
      case 2: if (!full) { b.push_and_block_copy(v); pushed(true); } break;
      case 3: if (!full) { int w = v; b.push_and_block_move(std::move(w)); pushed(true); } break;
      case 4: pushed(b.push_and_wait_copy(v, to)); break;
      case 5: { int w = v; pushed(b.push_and_wait_move(std::move(w), to)); break; }
      case 6: popped(b.try_pop_copy(x), x); break;
      case 7: popped(b.try_pop_move(x), x); break;
      case 8: if (!emp) { b.pop_and_block_copy(x); popped(true, x); } break;
      case 9: if (!emp) { b.pop_and_block_move(x); popped(true, x); } break;
      case 10: popped(b.pop_and_wait_copy(x, to), x); break;
      case 11: popped(b.pop_and_wait_move(x, to), x); break;
    }
    VASSERT(b.size() == (std::size_t)(t - h), "size() counts the stored items");
    VASSERT(b.empty() == (t == h) && b.isNotEmpty() == (t != h), "empty()/isNotEmpty() agree with the contents");
    if (CAP) { VASSERT(b.size() <= CAP, "capacity is never exceeded"); VASSERT(b.getRemainingSpace() == CAP - (std::size_t)(t - h), "remaining space"); }
  }
}
HARNESS h_seq1() { seq<1, 3>(); }
HARNESS h_seq2() { seq<2, 4>(); }
HARNESS h_sequ() { seq<0, 3>(); }

// ---- concurrent: every operation flavour, one producer and one consumer plus main
template <std::size_t CAP> static bool doPush(GBoundedBufferT<int, CAP> &b, unsigned f, int v) {
  std::chrono::duration<double> to(0.5);
  switch (f) {
    case 0: b.push_and_block_copy(v); return true;
    case 1: { int w = v; b.push_and_block_move(std::move(w)); return true; }
    case 2: return b.try_push_copy(v);
    case 3: { int w = v; return b.try_push_move(std::move(w)); }
    case 4: return b.push_and_wait_copy(v, to);
    default: { int w = v; return b.push_and_wait_move(std::move(w), to); }
  }
}
template <std::size_t CAP> static bool doPop(GBoundedBufferT<int, CAP> &b, unsigned f, int &x) {
  std::chrono::duration<double> to(0.5);
  switch (f) {
    case 0: b.pop_and_block_copy(x); return true;
    case 1: b.pop_and_block_move(x); return true;
    case 2: return b.try_pop_copy(x);
    case 3: return b.try_pop_move(x);
    case 4: return b.pop_and_wait_copy(x, to);
    default: return b.pop_and_wait_move(x, to);
  }
}
// a full buffer and a blocked producer: any successful retrieval must let the producer in
HARNESS h_wake_producer() {
  GBoundedBufferT<int, 1> b;
  b.push_and_block_copy(7);
  unsigned pf = sym_choice("pushflavour", 2), qf = sym_choice("popflavour", 6);
  std::thread p([&] { doPush(b, pf, 8); });
  int x = 0; bool ok = doPop(b, qf, x);
  VASSERT(ok && x == 7, "the stored item is retrieved");
  p.join(); // a lost wakeup shows up as a deadlock here
  VASSERT(b.size() == 1, "the second item arrived");
  vs_reach("joined");
}
// an empty buffer and a blocked consumer: any successful submission must let the consumer proceed
HARNESS h_wake_consumer() {
  GBoundedBufferT<int, 1> b;
  unsigned pf = sym_choice("pushflavour", 6), qf = sym_choice("popflavour", 2);
  int x = 0;
  std::thread c([&] { doPop(b, qf, x); });
  VASSERT(doPush(b, pf, 8), "space is available");
  c.join();
  VASSERT(x == 8 && b.size() == 0, "the item was delivered");
  vs_reach("joined");
}
// two producers, one consumer, capacity 1: nothing lost, duplicated or reordered per producer
HARNESS h_2p1c() {
  GBoundedBufferT<int, 1> b;
  std::thread p1([&] { b.push_and_block_copy(10); b.push_and_block_move(11); });
  std::thread p2([&] { b.push_and_block_move(20); });
  int got[3];
  for (int i = 0; i < 3; i++) { int x = 0; b.pop_and_block_move(x); got[i] = x; }
  p1.join(); p2.join();
  int seen10 = -1, seen11 = -1, seen20 = -1;
  for (int i = 0; i < 3; i++) { if (got[i] == 10) seen10 = i; else if (got[i] == 11) seen11 = i; else if (got[i] == 20) seen20 = i; }
  VASSERT(seen10 >= 0 && seen11 >= 0 && seen20 >= 0, "every item is delivered exactly once");
  VASSERT(seen10 < seen11, "items of one producer keep their order");
  VASSERT(b.empty(), "nothing is left over");
  vs_reach("done");
}
// one producer, two consumers
HARNESS h_1p2c() {
  GBoundedBufferT<int, 1> b;
  int x = 0, y = 0;
  std::thread c1([&] { b.pop_and_block_copy(x); });
  std::thread c2([&] { b.pop_and_block_move(y); });
  b.push_and_block_copy(1); b.push_and_block_move(2);
  c1.join(); c2.join();
  VASSERT((x == 1 && y == 2) || (x == 2 && y == 1), "each item goes to exactly one consumer");
  VASSERT(b.empty(), "nothing is left over");
  vs_reach("done");
}
// timed operations: a timeout never loses or duplicates an item
HARNESS h_timed() {
  GBoundedBufferT<int, 1> b;
  bool okp = false;
  std::thread p([&] { okp = b.push_and_wait_copy(1, std::chrono::duration<double>(0.01)); bool o2 = b.push_and_wait_move(2, std::chrono::duration<double>(0.01)); okp = okp && !o2 ? true : okp; if (o2) vs_reach("second"); else vs_reach("push timed out"); });
  int x = 0; bool ok = b.pop_and_wait_copy(x, std::chrono::duration<double>(0.01));
  p.join();
  if (ok) VASSERT(x == 1, "the first item is retrieved first"); else vs_reach("pop timed out");
  int rest = 0, y = 0; while (b.try_pop_copy(y)) { VASSERT(y == (ok ? 2 : 1 + rest), "remaining items in order"); rest++; }
  VASSERT(okp, "the first push found an empty buffer");
  vs_reach("done");
}
// two blocked consumers, room for two items: every submission has to wake one of them
HARNESS h_wake_2c() {
  GBoundedBufferT<int, 2> b;
  unsigned pf = sym_choice("pushflavour", 6), pg = sym_choice("pushflavour2", 6);
  int x = 0, y = 0;
  std::thread c1([&] { b.pop_and_block_copy(x); });
  std::thread c2([&] { b.pop_and_block_move(y); });
  VASSERT(doPush(b, pf, 1), "space is available");
  VASSERT(doPush(b, pg, 2), "space is available");
  c1.join(); c2.join();
  VASSERT((x == 1 && y == 2) || (x == 2 && y == 1), "each item goes to exactly one consumer");
  VASSERT(b.empty(), "nothing is left over");
  vs_reach("done");
}
// two blocked producers, two items stored: every retrieval has to wake one of them
HARNESS h_wake_2p() {
  GBoundedBufferT<int, 2> b;
  b.push_and_block_copy(1); b.push_and_block_copy(2);
  unsigned pf = sym_choice("popflavour", 6), pg = sym_choice("popflavour2", 6);
  int x = 0, y = 0;
  std::thread c1([&] { b.push_and_block_copy(3); });
  std::thread c2([&] { b.push_and_block_move(4); });
  VASSERT(doPop(b, pf, x) && x == 1, "the oldest item is retrieved");
  VASSERT(doPop(b, pg, y) && y == 2, "the oldest item is retrieved");
  c1.join(); c2.join();
  VASSERT(b.size() == 2, "both items arrived");
  vs_reach("done");
}
