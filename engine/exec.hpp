// Symbolic executor over LLVM IR: state representation
#pragma once
#include "expr.hpp"
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <unordered_set>
#include <deque>

struct Obj {
  int rc = 0;
  uint64_t size = 0;
  uint8_t kind = 0; // 0 heap 1 stack 2 global 3 function 4 external-global
  bool ro = false;
  std::vector<uint8_t> b;
  std::vector<Expr *> s; // empty or one entry per byte (null = concrete)
  const char *tag = "";
  std::shared_ptr<std::map<uint32_t, struct Shadow>> shadow; // race detection
};
struct Shadow { // per 8-byte granule, per access range approximated by byte mask
  struct Acc { uint8_t tid; uint8_t mask; uint32_t clk; };
  std::vector<Acc> w, r;
};
template <class T> struct IP {
  T *p = nullptr;
  IP() {}
  IP(T *x) : p(x) { if (p) p->rc++; }
  IP(const IP &o) : p(o.p) { if (p) p->rc++; }
  IP(IP &&o) noexcept : p(o.p) { o.p = nullptr; }
  ~IP() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
  IP &operator=(const IP &o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; }
  IP &operator=(IP &&o) noexcept { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
};
typedef IP<Obj> ObjP;
struct Chunk { int rc = 0; ObjP o[64]; };
typedef IP<Chunk> ChunkP;

struct FnInfo;
struct Code;
struct Frame {
  int rc = 0;
  Code *code = nullptr;
  uint32_t pc = 0;
  std::vector<SVal> regs;
  std::vector<uint64_t> allocas;
  std::vector<SVal> varargs;
  uint8_t onReturn = 0; // 1: ignore the return value (engine-pushed call), 2: thread entry
  uint64_t onReturnArg = 0;
  SVal lpPtr, lpSel; // landing pad values
};
typedef IP<Frame> FrameP;

struct ExcInfo { uint64_t ti = 0, dtor = 0; int refs = 0; int handlers = 0; };
struct Caught { uint64_t obj; };
enum class WK : uint8_t { None, Mutex, Cond, CondReacq, Join, Once, RwR, RwW, Sleep, Sem };
struct Thread {
  std::vector<FrameP> stack;
  bool finished = false, detached = false, started = false;
  WK wk = WK::None;
  uint64_t waddr = 0, wmutex = 0;
  bool signaled = false, timed = false, timedout = false;
  uint64_t deadline = 0;
  std::vector<Caught> caught;
  uint64_t curExc = 0, curAdj = 0; // in-flight exception
  std::map<uint64_t, uint64_t> tls;
  bool schedDone = false;
  uint64_t retval = 0;
  std::vector<uint32_t> vc;
  std::string what;
};
struct MutexSt { int owner = -1; int count = 0; std::vector<uint32_t> vc; int readers = 0; };
struct InputRec { std::string name; uint32_t var; uint32_t bits; };
struct SchedRec { uint8_t thread; uint8_t kind; };
struct UFApp { Expr *var; std::string fn; std::vector<Expr *> args; };

struct State {
  uint64_t id = 0;
  std::vector<ChunkP> heap, glob;
  uint64_t nextObj = 1;
  std::vector<Thread> threads;
  int cur = 0;
  std::vector<Expr *> pc;
  ModelP model;
  bool unv = false;   // path feasibility not confirmed: model may violate pc
  std::vector<InputRec> inputs;
  std::map<std::string, uint32_t> inputCount;
  std::map<uint64_t, ExcInfo> exc;
  std::map<uint64_t, MutexSt> mutexes;
  std::vector<uint8_t> schedule; // chosen thread at each scheduling point
  std::vector<std::string> schedWhat;
  int preemptions = 0;
  int timeouts = 0;
  uint64_t steps = 0;
  uint64_t now = 1000000000ULL;
  std::vector<UFApp> uf;
  std::vector<std::string> log;
  std::map<uint64_t, std::vector<uint32_t>> syncvc; // atomics / cond variables
  int liveThreads = 1;
  uint64_t depth = 0;
  uint64_t errnoObj = 0;
  uint64_t randCount = 0;
};
