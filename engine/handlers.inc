// External-function models
#define H(name) static HR name(State &s, CallCtx &c)
#define ARG(i) conc(s, c.args[i])
static uint64_t conc(State &s, SVal &v) { if (v.e) concretize(s, v, 64, "argument"); return v.c; }
H(h_zero) { c.ret = SVal(0); return H_DONE; }
H(h_arg0) { c.ret = c.args[0]; return H_DONE; }
static const uint64_t MAXALLOC = 1ULL << 27;
static uint64_t doMalloc(State &s, uint64_t n, const char *tag) {
  if (n > MAXALLOC) { incomplete("allocation of " + std::to_string(n) + " bytes at " + backtrace(s, s.cur, 4).back()); throw Kill(); }
  return allocObj(s, n, 0, tag);
}
H(h_malloc) { uint64_t n = ARG(0); c.ret = SVal(doMalloc(s, n, "heap")); return H_DONE; }
H(h_calloc) { uint64_t n = ARG(0) * ARG(1); uint64_t a = doMalloc(s, n, "heap"); Obj *o = wobj(s, idOf(a)); std::fill(o->b.begin(), o->b.end(), 0); c.ret = SVal(a); return H_DONE; }
H(h_free) {
  uint64_t p = ARG(0); if (!p) return H_DONE;
  const Obj *o = robj(s, idOf(p));
  if (!o) violation(s, "memory", "double free or free of invalid pointer");
  if (o->kind != 0 || offOf(p) != 0) violation(s, "memory", std::string("free of a non-heap pointer [") + o->tag + "]");
  if (optRaces && o->size) raceCheck(s, p, o->size, true, false);
  freeObj(s, idOf(p)); return H_DONE;
}
H(h_realloc) {
  uint64_t p = ARG(0), n = ARG(1);
  uint64_t a = doMalloc(s, n, "heap");
  if (p) { const Obj *o = accessR(s, p, 0, "realloc"); uint64_t k = std::min(n, o->size); copyMem(s, a, p, k, "realloc"); freeObj(s, idOf(p)); }
  c.ret = SVal(a); return H_DONE;
}
H(h_aligned) { uint64_t n = ARG(1); c.ret = SVal(doMalloc(s, n, "heap")); return H_DONE; }
H(h_newaligned) { uint64_t n = ARG(0); c.ret = SVal(doMalloc(s, n, "heap")); return H_DONE; }
H(h_posix_memalign) { uint64_t n = ARG(2); uint64_t p = ARG(0); wr(s, p, doMalloc(s, n, "heap"), 64); c.ret = SVal(0); return H_DONE; }
H(h_memcpy) { uint64_t d = ARG(0), q = ARG(1), n = ARG(2); copyMem(s, d, q, n, "memcpy"); c.ret = SVal(d); return H_DONE; }
H(h_memset) { uint64_t d = ARG(0), n = ARG(2); if (n) { raceCheck(s, d, n, true, false); Obj *o = accessW(s, d, n, "memset"); SVal v = c.args[1]; if (v.e) v = wrap(mkExtract(v.e, 0, 8)); else v.c &= 0xff; for (uint64_t i = 0; i < n; i++) storeScalar(o, offOf(d) + i, v, 8); } c.ret = SVal(d); return H_DONE; }
static SVal cmpBytes(State &s, uint64_t a, uint64_t b, uint64_t n) {
  if (!n) return SVal(0);
  raceCheck(s, a, n, false, false); raceCheck(s, b, n, false, false);
  const Obj *x = accessR(s, a, n, "memcmp"), *y = accessR(s, b, n, "memcmp");
  Expr *r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    SVal p = loadScalar(x, offOf(a) + i, 8), q = loadScalar(y, offOf(b) + i, 8);
    if (!p.e && !q.e) { if (p.c != q.c) r = mkConst(p.c < q.c ? ~0u : 1u, 32); continue; }
    Expr *P = ex(p, 8), *Q = ex(q, 8);
    r = mkIte(mkEq(P, Q), r, mkIte(mkBin(Op::Ult, P, Q), mkConst(~0u, 32), mkConst(1, 32)));
  }
  return wrap(r);
}
H(h_memcmp) { uint64_t a = ARG(0), b = ARG(1), n = ARG(2); c.ret = cmpBytes(s, a, b, n); return H_DONE; }
static uint64_t slen(State &s, uint64_t p) {
  for (uint64_t i = 0;; i++) { const Obj *o = accessR(s, p + i, 1, "strlen"); SVal v = loadScalar(o, offOf(p + i), 8); if (v.e ? decide(s, mkEq(v.e, mkConst(0, 8))) : v.c == 0) return i; }
}
H(h_strlen) { uint64_t p = ARG(0); c.ret = SVal(slen(s, p)); return H_DONE; }
H(h_strcmp) { uint64_t a = ARG(0), b = ARG(1); uint64_t la = slen(s, a), lb = slen(s, b); c.ret = cmpBytes(s, a, b, std::min(la, lb) + 1); return H_DONE; }
H(h_strncmp) { uint64_t a = ARG(0), b = ARG(1), n = ARG(2); uint64_t la = slen(s, a), lb = slen(s, b); c.ret = cmpBytes(s, a, b, std::min(n, std::min(la, lb) + 1)); return H_DONE; }
H(h_memchr) {
  uint64_t p = ARG(0), n = ARG(2); SVal ch = c.args[1]; Expr *C = mkExtract(ex(ch, 32), 0, 8);
  for (uint64_t i = 0; i < n; i++) { const Obj *o = accessR(s, p + i, 1, "memchr"); SVal v = loadScalar(o, offOf(p + i), 8); if (decide(s, mkEq(ex(v, 8), C))) { c.ret = SVal(p + i); return H_DONE; } }
  c.ret = SVal(0); return H_DONE;
}
H(h_strchr) {
  uint64_t p = ARG(0); SVal ch = c.args[1]; Expr *C = mkExtract(ex(ch, 32), 0, 8);
  for (uint64_t i = 0;; i++) { const Obj *o = accessR(s, p + i, 1, "strchr"); SVal v = loadScalar(o, offOf(p + i), 8); if (decide(s, mkEq(ex(v, 8), C))) { c.ret = SVal(p + i); return H_DONE; } if (decide(s, mkEq(ex(v, 8), mkConst(0, 8)))) { c.ret = SVal(0); return H_DONE; } }
}
H(h_abort) { violation(s, "terminate", "abort()/std::terminate called"); }
H(h_exit) { violation(s, "terminate", "exit() called"); }
H(h_pure) { violation(s, "terminate", "pure virtual function call"); }
H(h_assertfail) { violation(s, "terminate", "assert() failed: " + cstr(s, ARG(0))); }

// ---- exceptions
H(h_exc_alloc) { uint64_t n = ARG(0); uint64_t a = allocObj(s, std::max<uint64_t>(n, 1), 0, "exception"); s.exc[a] = ExcInfo(); c.ret = SVal(a); return H_DONE; }
H(h_exc_free) { uint64_t p = ARG(0); s.exc.erase(p); freeObj(s, idOf(p)); return H_DONE; }
H(h_exc_init) { uint64_t p = ARG(0); s.exc[p].ti = ARG(1); s.exc[p].dtor = ARG(2); c.ret = SVal(p); return H_DONE; }
H(h_throw) { uint64_t p = ARG(0); ExcInfo &e = s.exc[p]; e.ti = ARG(1); e.dtor = ARG(2); e.refs = 1; unwind(s, p, false); }
static bool excDrop(State &s, uint64_t obj) { // returns true if a destructor call was pushed
  auto it = s.exc.find(obj); if (it == s.exc.end()) return false;
  if (--it->second.refs > 0) return false;
  uint64_t d = it->second.dtor; s.exc.erase(it);
  if (d) { auto f = fnByAddr.find(d); if (f != fnByAddr.end() && f->second->F) { pushCall(s, f->second, {SVal(obj)}, 1); return true; } }
  return false;
}
H(h_begin_catch) { Thread &t = s.threads[s.cur]; uint64_t p = ARG(0); t.caught.push_back({p}); c.ret = SVal(t.curAdj); t.curExc = 0; return H_DONE; }
H(h_get_exc_ptr) { c.ret = SVal(s.threads[s.cur].curAdj); return H_DONE; }
H(h_end_catch) {
  Thread &t = s.threads[s.cur]; if (t.caught.empty()) return H_DONE;
  uint64_t p = t.caught.back().obj; t.caught.pop_back();
  return excDrop(s, p) ? H_PUSHED : H_DONE;
}
H(h_rethrow) { Thread &t = s.threads[s.cur]; if (t.caught.empty()) violation(s, "terminate", "rethrow without active exception (std::terminate)"); uint64_t p = t.caught.back().obj; s.exc[p].refs++; unwind(s, p, false); }
H(h_uncaught) { c.ret = SVal(s.threads[s.cur].curExc != 0); return H_DONE; }
H(h_cur_exc_type) { Thread &t = s.threads[s.cur]; c.ret = SVal(t.caught.empty() ? 0 : s.exc[t.caught.back().obj].ti); return H_DONE; }
// std::exception_ptr: one pointer; sret in arg 0
H(h_current_exception) { uint64_t d = ARG(0); Thread &t = s.threads[s.cur]; uint64_t p = t.caught.empty() ? 0 : t.caught.back().obj; if (p) s.exc[p].refs++; wr(s, d, p, 64); return H_DONE; }
H(h_eptr_ctor_void) { uint64_t d = ARG(0), p = ARG(1); if (p) s.exc[p].refs++; wr(s, d, p, 64); return H_DONE; }
H(h_eptr_addref) { uint64_t p = rd64(s, ARG(0)); if (p) s.exc[p].refs++; return H_DONE; }
H(h_eptr_release) { uint64_t d = ARG(0); uint64_t p = rd64(s, d); wr(s, d, 0, 64); if (p && excDrop(s, p)) return H_PUSHED; return H_DONE; }
H(h_eptr_copy) { uint64_t d = ARG(0), p = rd64(s, ARG(1)); if (p) s.exc[p].refs++; wr(s, d, p, 64); return H_DONE; }
H(h_eptr_dtor) { uint64_t p = rd64(s, ARG(0)); if (p && excDrop(s, p)) return H_PUSHED; return H_DONE; }
H(h_eptr_zero) { wr(s, ARG(0), 0, 64); return H_DONE; }
H(h_eptr_swap) { uint64_t a = ARG(0), b = ARG(1); uint64_t x = rd64(s, a), y = rd64(s, b); wr(s, a, y, 64); wr(s, b, x, 64); return H_DONE; }
H(h_eptr_bool) { c.ret = SVal(rd64(s, ARG(0)) != 0); return H_DONE; }
H(h_eptr_type) { uint64_t p = rd64(s, ARG(0)); c.ret = SVal(s.exc[p].ti); return H_DONE; }
H(h_rethrow_exception) { uint64_t p = rd64(s, ARG(0)); if (!p) violation(s, "terminate", "rethrow_exception(null)"); s.exc[p].refs++; unwind(s, p, false); }
H(h_dyncast) {
  uint64_t src = ARG(0), dst = ARG(2);
  if (!src) { c.ret = SVal(0); return H_DONE; }
  uint64_t vp = rd64(s, src);
  int64_t top = (int64_t)rd64(s, vp - 16); uint64_t ti = rd64(s, vp - 8);
  std::vector<std::pair<uint64_t, uint64_t>> v; collectBases(s, ti, src + top, v);
  uint64_t r = 0; int n = 0;
  for (auto &p : v) if (p.first == dst && p.second != r) { r = p.second; n++; }
  if (n > 1) { // prefer the one containing the source subobject; ambiguous => null
    r = 0;
  }
  c.ret = SVal(r); return H_DONE;
}
H(h_bad_cast) { incomplete("__cxa_bad_cast"); throw Kill(); }

// ---- guards / once
static bool guardBusy(State &s, uint64_t a) { auto it = s.mutexes.find(a); return it != s.mutexes.end() && it->second.owner != -1; }
H(h_guard_acquire) {
  uint64_t g = ARG(0); schedPoint(s); s.threads[s.cur].wk = WK::None;
  hbAcquire(s, g);
  SVal v = loadScalar(accessR(s, g, 1, "guard"), offOf(g), 8);
  if (v.c) { c.ret = SVal(0); return H_DONE; }
  if (guardBusy(s, g)) { if (s.mutexes[g].owner == s.cur) violation(s, "terminate", "recursive static initialisation"); blockOn(s, WK::Once, g); }
  logOp(s, "once"); s.mutexes[g].owner = s.cur; c.ret = SVal(1); return H_DONE;
}
H(h_guard_release) { uint64_t g = ARG(0); wr(s, g, 1, 8); s.mutexes[g].owner = -1; hbRelease(s, g); return H_DONE; }
H(h_guard_abort) { uint64_t g = ARG(0); s.mutexes[g].owner = -1; hbRelease(s, g); return H_DONE; }

// ---- pthread
H(h_mutex_init) { uint64_t m = ARG(0); uint32_t kind = 0; if (c.args[1].c) kind = rd32(s, c.args[1].c); wr(s, m + 16, kind, 32); s.mutexes.erase(m); c.ret = SVal(0); return H_DONE; }
H(h_mutexattr_init) { wr(s, ARG(0), 0, 32); c.ret = SVal(0); return H_DONE; }
H(h_mutexattr_settype) { wr(s, ARG(0), ARG(1), 32); c.ret = SVal(0); return H_DONE; }
H(h_mutex_destroy) {
  uint64_t m = ARG(0); auto it = s.mutexes.find(m);
  if (it != s.mutexes.end() && it->second.owner != -1) violation(s, "memory", "destruction of a locked mutex");
  c.ret = SVal(0); return H_DONE;
}
static bool mutexRecursive(State &s, uint64_t m) { accessR(s, m, 40, "mutex"); return (rd32(s, m + 16) & 3) == 1; }
H(h_mutex_lock) {
  uint64_t m = ARG(0); bool rec = mutexRecursive(s, m);
  Thread &t0 = s.threads[s.cur]; (void)t0;
  schedPoint(s); s.threads[s.cur].wk = WK::None;
  MutexSt &mx = s.mutexes[m];
  if (mx.owner == s.cur && rec) { mx.count++; c.ret = SVal(0); return H_DONE; }
  if (mx.owner != -1) { if (s.threads.size() == 1) violation(s, "deadlock", "self-deadlock: mutex already locked by this thread"); blockOn(s, WK::Mutex, m); }
  logOp(s, "lock"); mx.owner = s.cur; mx.count = 1; hbAcquire(s, m); c.ret = SVal(0); return H_DONE;
}
H(h_mutex_trylock) {
  uint64_t m = ARG(0); bool rec = mutexRecursive(s, m); schedPoint(s); logOp(s, "trylock");
  MutexSt &mx = s.mutexes[m];
  if (mx.owner == s.cur && rec) { mx.count++; c.ret = SVal(0); return H_DONE; }
  if (mx.owner != -1 || mx.readers) { c.ret = SVal(16); return H_DONE; }
  mx.owner = s.cur; mx.count = 1; hbAcquire(s, m); c.ret = SVal(0); return H_DONE;
}
H(h_mutex_unlock) {
  uint64_t m = ARG(0); accessR(s, m, 40, "mutex"); MutexSt &mx = s.mutexes[m];
  if (mx.owner != s.cur) violation(s, "terminate", "unlock of a mutex not owned by this thread");
  if (--mx.count == 0) { mx.owner = -1; hbRelease(s, m); }
  c.ret = SVal(0); return H_DONE;
}
H(h_rw_rd) { uint64_t m = ARG(0); accessR(s, m, 40, "rwlock"); schedPoint(s); s.threads[s.cur].wk = WK::None; MutexSt &mx = s.mutexes[m]; if (mx.owner != -1) { if (mx.owner == s.cur) { c.ret = SVal(35); return H_DONE; } blockOn(s, WK::RwR, m); } logOp(s, "rdlock"); mx.readers++; hbAcquire(s, m); c.ret = SVal(0); return H_DONE; }
H(h_rw_wr) { uint64_t m = ARG(0); accessR(s, m, 40, "rwlock"); schedPoint(s); s.threads[s.cur].wk = WK::None; MutexSt &mx = s.mutexes[m]; if (mx.owner == s.cur) { c.ret = SVal(35); return H_DONE; } if (mx.owner != -1 || mx.readers) blockOn(s, WK::RwW, m); logOp(s, "wrlock"); mx.owner = s.cur; hbAcquire(s, m); c.ret = SVal(0); return H_DONE; }
H(h_rw_un) { uint64_t m = ARG(0); MutexSt &mx = s.mutexes[m]; if (mx.owner == s.cur) mx.owner = -1; else if (mx.readers > 0) mx.readers--; else violation(s, "terminate", "rwlock unlock without lock"); hbRelease(s, m); c.ret = SVal(0); return H_DONE; }
static HR condWait(State &s, CallCtx &c, bool timed, uint64_t deadline) {
  uint64_t cv = ARG(0), m = ARG(1);
  Thread &t = s.threads[s.cur];
  if (t.wk != WK::Cond) {
    schedPoint(s);
    MutexSt &mx = s.mutexes[m];
    if (mx.owner != s.cur) violation(s, "terminate", "condition wait without holding the mutex");
    mx.owner = -1; mx.count = 0; hbRelease(s, m);
    logOp(s, "wait");
    t.wk = WK::Cond; t.waddr = cv; t.wmutex = m; t.signaled = false; t.timed = timed; t.deadline = deadline; t.schedDone = true;
    pickNext(s);
    throw Restart();
  }
  // woken
  MutexSt &mx = s.mutexes[m];
  if (mx.owner != -1) { pickNext(s); throw Restart(); }
  bool sig = t.signaled;
  t.wk = WK::None; t.schedDone = false;
  if (!sig) { s.timeouts++; s.now = std::max(s.now, t.deadline); }
  logOp(s, sig ? "wake" : "timeout");
  mx.owner = s.cur; mx.count = 1; hbAcquire(s, m); hbAcquire(s, cv);
  c.ret = SVal(sig ? 0 : 110); return H_DONE;
}
H(h_cond_wait) { return condWait(s, c, false, 0); }
static uint64_t tsNs(State &s, uint64_t p) { return rd64(s, p) * 1000000000ULL + rd64(s, p + 8); }
H(h_cond_timedwait) { return condWait(s, c, true, tsNs(s, ARG(2))); }
H(h_cond_clockwait) { return condWait(s, c, true, tsNs(s, ARG(3))); }
H(h_cond_broadcast) {
  uint64_t cv = ARG(0); accessR(s, cv, 48, "cond"); schedPoint(s); logOp(s, "broadcast"); hbRelease(s, cv);
  for (auto &t : s.threads) if (t.wk == WK::Cond && t.waddr == cv) t.signaled = true;
  c.ret = SVal(0); return H_DONE;
}
H(h_cond_signal) {
  uint64_t cv = ARG(0); accessR(s, cv, 48, "cond"); schedPoint(s); hbRelease(s, cv);
  std::vector<int> w;
  for (size_t i = 0; i < s.threads.size(); i++) { auto &t = s.threads[i]; if (t.wk == WK::Cond && t.waddr == cv && !t.signaled) w.push_back(i); }
  for (size_t k = 1; k < w.size(); k++) { // another waiter is woken instead
    State *n = forkState(s);
    n->threads[w[k]].signaled = true;
    n->schedWhat.push_back(std::to_string(s.cur) + " signal " + std::to_string(w[k]));
    Frame *f = wframe(n->threads[n->cur].stack.back());
    finishCall(*n, f, *c.ins, SVal(0), true);
    work.push_back(n); nSwitches++;
  }
  if (w.size()) s.threads[w[0]].signaled = true;
  s.schedWhat.push_back(std::to_string(s.cur) + " signal " + (w.size() ? std::to_string(w[0]) : "-"));
  c.ret = SVal(0); return H_DONE;
}
H(h_cond_init) { c.ret = SVal(0); return H_DONE; }
H(h_cond_destroy) {
  uint64_t cv = ARG(0);
  for (auto &t : s.threads) if (!t.finished && t.wk == WK::Cond && t.waddr == cv && !t.signaled) violation(s, "memory", "condition variable destroyed while a thread is waiting on it");
  c.ret = SVal(0); return H_DONE;
}
static uint64_t spawn(State &s, uint64_t fn, uint64_t arg) {
  auto it = fnByAddr.find(fn); if (it == fnByAddr.end()) { incomplete("thread entry is not a function"); throw Kill(); }
  int self = s.cur; size_t id = s.threads.size();
  if (id >= 120) { incomplete("too many threads"); throw Kill(); }
  s.threads.emplace_back();
  s.threads[id].started = true;
  if (optRaces) { vcTick(s); s.threads[id].vc = s.threads[self].vc; if (s.threads[id].vc.size() <= id) s.threads[id].vc.resize(id + 1, 0); s.threads[id].vc[id] = 1; vcTick(s); }
  s.cur = (int)id; pushCall(s, it->second, {SVal(arg)}, 2); s.cur = self;
  s.liveThreads++;
  logOp(s, "spawn");
  return id;
}
H(h_thread_create) { uint64_t f = ARG(0), a = ARG(1); c.ret = SVal(spawn(s, f, a) + 1); return H_DONE; }
H(h_pthread_create) { uint64_t p = ARG(0), f = ARG(2), a = ARG(3); wr(s, p, spawn(s, f, a) + 1, 64); c.ret = SVal(0); return H_DONE; }
H(h_join) {
  uint64_t t = ARG(0) - 1; if (t >= s.threads.size()) violation(s, "terminate", "join of invalid thread");
  if (t == (uint64_t)s.cur) violation(s, "deadlock", "thread joins itself");
  s.threads[s.cur].wk = WK::None;
  if (!s.threads[t].finished) { blockOn(s, WK::Join, t); }
  s.threads[s.cur].schedDone = false;
  logOp(s, "join");
  if (optRaces) vcJoin(s.threads[s.cur].vc, s.threads[t].vc);
  c.ret = SVal(0); return H_DONE;
}
H(h_detach) { c.ret = SVal(0); return H_DONE; }
H(h_self) { c.ret = SVal((uint64_t)s.cur + 1); return H_DONE; }
H(h_yield) { schedPoint(s); logOp(s, "yield"); c.ret = SVal(0); return H_DONE; }
static HR doSleep(State &s, uint64_t ns) {
  Thread &t = s.threads[s.cur];
  if (s.threads.size() == 1) { s.now += ns; return H_DONE; }
  if (t.wk != WK::Sleep) { t.wk = WK::Sleep; t.deadline = s.now + ns; t.schedDone = true; pickNext(s); throw Restart(); }
  t.wk = WK::None; t.schedDone = false; s.timeouts++; s.now = std::max(s.now, t.deadline); logOp(s, "sleep"); return H_DONE;
}
H(h_nanosleep) { uint64_t d = tsNs(s, ARG(0)); c.ret = SVal(0); return doSleep(s, d); }
H(h_usleep) { uint64_t d = ARG(0); c.ret = SVal(0); return doSleep(s, d * 1000); }
H(h_now) { s.now += 1000; c.ret = SVal(s.now); return H_DONE; }
H(h_clock_gettime) { s.now += 1000; uint64_t p = ARG(1); wr(s, p, s.now / 1000000000ULL, 64); wr(s, p + 8, s.now % 1000000000ULL, 64); c.ret = SVal(0); return H_DONE; }
H(h_time) { c.ret = SVal(1700000000ULL); return H_DONE; }
H(h_errno) { if (!s.errnoObj) { s.errnoObj = allocObj(s, 8, 2, "errno"); wr(s, s.errnoObj, 0, 64); } c.ret = SVal(s.errnoObj); return H_DONE; }
H(h_nproc) { c.ret = SVal(4); return H_DONE; }

// ---- harness API
H(h_sym) {
  std::string n = cstr(s, ARG(0)); unsigned b = (unsigned)ARG(1);
  Expr *v = newInput(s, n, b);
  c.ret = wrap(mkZExt(v, 64)); return H_DONE;
}
static Expr *truth(const SVal &v, unsigned w) { return mkNot(mkEq(ex(v, w), mkConst(0, w))); }
H(h_assume) { assumeC(s, truth(c.args[0], 32)); return H_DONE; }
H(h_assert) {
  std::string m = cstr(s, ARG(1)); Expr *t = truth(c.args[0], 32);
  asserts[m]++; nAssertChecks++; if (t->isConst()) nAssertTrivial++;
  ModelP cex;
  if (!mustTrue(s, t, cex)) {
    if (!s.uf.empty()) {
      size_t n0 = s.pc.size(); addPC(s, mkNot(t));
      ModelP m2 = cex; bool ok = refineModel(s, m2, nullptr);
      s.pc.resize(n0);
      if (!ok) { incomplete("assertion '" + m + "' could not be decided (libm abstraction)"); throw Kill(); }
      s.model = m2; std::vector<UFApp> keep; keep.swap(s.uf); violation(s, "assert", m, m2);
    }
    violation(s, "assert", m, cex);
  }
  addPC(s, t); return H_DONE;
}
static std::set<std::string> optKnown;
H(h_assert_known) { // (cond, msg, id): violations covered by finding id are recorded, not reported
  std::string id = cstr(s, ARG(2));
  if (!optKnown.count(id)) return h_assert(s, c);
  Expr *t = truth(c.args[0], 32); nAssertChecks++;
  ModelP cex; if (!mustTrue(s, t, cex)) knownHits[id]++;
  assumeC(s, t); return H_DONE;
}
H(h_fail) { violation(s, "assert", cstr(s, ARG(0))); }
H(h_reach) { reachHits[cstr(s, ARG(0))]++; return H_DONE; }
H(h_conc) { uint64_t v = ARG(0); c.ret = SVal(v); return H_DONE; }
H(h_issym) { c.ret = SVal(!isC(c.args[0])); return H_DONE; }
H(h_log) { std::string m = cstr(s, ARG(0)); s.log.push_back(m); if (getenv("VSE_DEBUG")) fprintf(stderr, "[log %llu] %s\n", (unsigned long long)s.id, m.c_str()); return H_DONE; }
H(h_lognum) { std::string m = cstr(s, ARG(0)); Expr *e = ex(c.args[1], 64); std::string t = m + "=" + (e->isConst() ? u128hex_((uint64_t)e->c) : exprStr(e, 6) + " [model " + u128hex_((uint64_t)evalExpr(e, *s.model)) + "]"); s.log.push_back(t); if (getenv("VSE_DEBUG")) fprintf(stderr, "[log %llu] %s\n", (unsigned long long)s.id, t.c_str()); return H_DONE; }
H(h_nthreads) { uint64_t n = 0; for (auto &t : s.threads) if (!t.finished) n++; c.ret = SVal(n); return H_DONE; }
H(h_bt) { if (getenv("VSE_DEBUG")) for (auto &b : backtrace(s, s.cur)) fprintf(stderr, "   %s\n", b.c_str()); return H_DONE; }
H(h_symbuf) { // vs_symbuf(ptr, n, name)
  uint64_t p = ARG(0), n = ARG(1); std::string nm = cstr(s, ARG(2));
  for (uint64_t i = 0; i < n; i++) { Expr *v = newInput(s, nm, 8); Obj *o = accessW(s, p + i, 1, "symbuf"); storeScalar(o, offOf(p + i), wrap(v), 8); }
  return H_DONE;
}

// ---- libm
static const char *libm1[] = {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "log10", "exp2", "log2", "expm1", "log1p", "cbrt", "lgamma", "tgamma", "erf", "erfc", "acosh", "asinh", "atanh"};
static const char *libm2[] = {"pow", "atan2", "hypot", "fmod", "remainder", "nextafter", "fdim"};
template <class T> static T host1(const std::string &n, T x, bool &ok) {
  ok = true;
#define T1(f) if (n == #f) return std::f(x);
  T1(exp) T1(log) T1(sin) T1(cos) T1(tan) T1(asin) T1(acos) T1(atan) T1(sinh) T1(cosh) T1(tanh) T1(log10) T1(exp2) T1(log2) T1(expm1) T1(log1p) T1(cbrt) T1(lgamma) T1(tgamma) T1(erf) T1(erfc) T1(acosh) T1(asinh) T1(atanh)
#undef T1
  ok = false; return 0;
}
template <class T> static T host2(const std::string &n, T x, T y, bool &ok) {
  ok = true;
#define T2(f) if (n == #f) return std::f(x, y);
  T2(pow) T2(atan2) T2(hypot) T2(fmod) T2(remainder) T2(nextafter) T2(fdim)
#undef T2
  ok = false; return 0;
}
template <class T> static T fromBits(u128 v) { T x = 0; memcpy(&x, &v, sizeof(T) == 16 ? 10 : sizeof(T)); return x; }
template <class T> static u128 toBits(T x) { u128 v = 0; memcpy(&v, &x, sizeof(T) == 16 ? 10 : sizeof(T)); return v; }
static bool hostEval(const std::string &n, unsigned w, const std::vector<u128> &a, u128 &out) {
  bool ok = false;
  auto run = [&](auto z) { typedef decltype(z) T; if (a.size() == 1) out = toBits<T>(host1<T>(n, fromBits<T>(a[0]), ok)); else out = toBits<T>(host2<T>(n, fromBits<T>(a[0]), fromBits<T>(a[1]), ok)); };
  if (w == 32) run(float()); else if (w == 64) run(double()); else run((long double)0);
  return ok;
}
static bool ufTrue(const UFApp &u, const Model &m, u128 &out) {
  std::vector<u128> a; for (auto *e : u.args) a.push_back(evalExpr(e, m));
  return hostEval(u.fn, u.var->width, a, out);
}
static SVal libmCall(State &s, const std::string &n, unsigned w, std::vector<SVal> &args) {
  bool all = true; for (auto &x : args) if (!isC(x)) all = false;
  if (all) { std::vector<u128> a; for (auto &x : args) a.push_back(cval(x)); u128 r; if (!hostEval(n, w, a, r)) { incomplete("libm " + n); throw Kill(); } return mkV(r, w); }
  std::string key = "libm:" + n + ":" + std::to_string(w);
  UFApp u; u.fn = n;
  for (auto &x : args) { u.args.push_back(ex(x, w)); key += ":" + std::to_string(ex(x, w)->id); }
  auto &v = canonVar[key];
  if (!v) v = mkVar(key, w);
  for (auto &k : s.uf) if (k.var == v) return SVal(0, v);
  u.var = v; s.uf.push_back(u);
  // set model to the true value to keep witnesses realistic, then add axioms
  u128 tv; if (ufTrue(u, *s.model, tv)) { auto m = std::make_shared<Model>(*s.model); m->set(v->aux, tv); s.model = m; }
  auto fc = [&](double d) { if (w == 32) return mkConst(toBits<float>((float)d), 32); if (w == 64) return mkConst(toBits<double>(d), 64); return mkConst(toBits<long double>(d), 80); };
  auto notNan = [&](Expr *e) { return mkNot(mkFCmp(Op::FUno, e, e)); };
  auto finite = [&](Expr *e) { return mkNot(mkFCmp(Op::FUno, mkF2(Op::FSub, e, e), mkF2(Op::FSub, e, e))); };
  auto imp = [&](Expr *p, Expr *q) { addPC(s, mkBin(Op::Or, mkNot(p), q)); };
  Expr *x = u.args[0];
  if (n == "exp" || n == "exp2") { imp(notNan(x), mkFCmp(Op::FOle, fc(0), v)); imp(mkFCmp(Op::FOle, fc(0), x), mkFCmp(Op::FOle, fc(1), v)); imp(mkFCmp(Op::FOle, x, fc(0)), mkFCmp(Op::FOle, v, fc(1))); }
  if (n == "sin" || n == "cos") { imp(finite(x), mkBin(Op::And, mkFCmp(Op::FOle, fc(-1), v), mkFCmp(Op::FOle, v, fc(1)))); }
  if (n == "log" || n == "log2" || n == "log10") { imp(mkFCmp(Op::FOlt, fc(0), x), notNan(v)); imp(mkBin(Op::And, mkFCmp(Op::FOlt, fc(0), x), mkFCmp(Op::FOle, x, fc(1))), mkFCmp(Op::FOle, v, fc(0))); }
  if (n == "tanh" || n == "erf") imp(notNan(x), mkBin(Op::And, mkFCmp(Op::FOle, fc(-1), v), mkFCmp(Op::FOle, v, fc(1))));
  return SVal(0, v);
}
template <int W> static HR h_libm(State &s, CallCtx &c) { std::string n = c.fn->name; if (W != 64) n.pop_back(); c.ret = libmCall(s, n, W, c.args); return H_DONE; }
template <int W, int OPC, int MODE> static HR h_f1(State &s, CallCtx &c) { c.ret = wrap(mkF1((Op)OPC, ex(c.args[0], W), W, MODE)); return H_DONE; }
template <int W> static HR h_lround(State &s, CallCtx &c) { c.ret = wrap(mkF1(Op::FToS, mkF1(Op::FRound, ex(c.args[0], W), W, 1), 64)); return H_DONE; }
template <int W, bool MX> static HR h_fminmax(State &s, CallCtx &c) {
  Expr *X = ex(c.args[0], W), *Y = ex(c.args[1], W);
  Expr *lt = MX ? mkFCmp(Op::FOlt, Y, X) : mkFCmp(Op::FOlt, X, Y);
  c.ret = wrap(mkIte(mkFCmp(Op::FUno, X, X), Y, mkIte(mkFCmp(Op::FUno, Y, Y), X, mkIte(lt, X, Y)))); return H_DONE;
}
H(h_fmt_double) {
  uint64_t b = ARG(0); uint64_t bits = ARG(1); double d; memcpy(&d, &bits, 8); int prec = (int)ARG(2), mode = (int)ARG(3);
  char t[400]; int n = snprintf(t, sizeof t, mode == 1 ? "%.*f" : mode == 2 ? "%.*e" : "%.*g", prec, d); if (n > 399) n = 399;
  for (int i = 0; i <= n; i++) wr(s, b + i, (uint8_t)t[i], 8);
  c.ret = SVal((uint64_t)n); return H_DONE;
}
H(h_parse_double) {
  uint64_t b = ARG(0); std::string t; for (;; b++) { const Obj *o = accessR(s, b, 1, "parse"); SVal v = loadScalar(o, offOf(b), 8); if (v.e) { concretize(s, v, 8, "strtod"); } if (!v.c) break; t += (char)v.c; }
  char *e; double d = strtod(t.c_str(), &e); wr(s, ARG(1), (*e == 0 && !t.empty()) ? 1 : 0, 32); uint64_t bits; memcpy(&bits, &d, 8); c.ret = SVal(bits); return H_DONE;
}
// snprintf with literal format; symbolic numbers appear as "<symbolic>" (they only ever occur in messages)
H(h_snprintf) {
  uint64_t dst = ARG(0), cap = ARG(1); std::string f = cstr(s, ARG(2)), out; size_t ai = 3;
  auto nextArg = [&]() -> SVal { if (ai >= c.args.size()) { incomplete("snprintf: missing argument"); throw Kill(); } return c.args[ai++]; };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (f[i + 1] == '%') { out += '%'; i++; continue; }
    std::string sp = "%"; i++; int star[2], ns = 0; bool lng = false, ld = false;
    for (; i < f.size(); i++) {
      if (f[i] == '*') { SVal v = nextArg(); if (!isC(v)) concretize(s, v, 32, "snprintf"); star[ns++] = (int)v.c; sp += std::to_string(star[ns - 1]); continue; }
      if (strchr("-+ #0123456789.", f[i])) { sp += f[i]; continue; }
      if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') { lng = true; continue; }
      if (f[i] == 'h') continue; if (f[i] == 'L') { ld = true; continue; }
      break;
    }
    char cv = f[i]; SVal v = nextArg(); char t[500];
    if (cv == 's') { std::string q = cstr(s, v.c); snprintf(t, sizeof t, (sp + "s").c_str(), q.c_str()); out += t; continue; }
    if (!isC(v)) { out += "<symbolic>"; continue; }
    if (strchr("feEgGaA", cv)) { if (ld) { long double x = fromBits<long double>(cval(v)); snprintf(t, sizeof t, (sp + "L" + cv).c_str(), x); } else { double x; uint64_t b = (uint64_t)v.c; memcpy(&x, &b, 8); snprintf(t, sizeof t, (sp + cv).c_str(), x); } }
    else if (strchr("di", cv)) snprintf(t, sizeof t, (sp + "lld").c_str(), lng ? (long long)(int64_t)v.c : (long long)(int32_t)v.c);
    else if (strchr("uxXo", cv)) snprintf(t, sizeof t, (sp + "ll" + cv).c_str(), lng ? (unsigned long long)v.c : (unsigned long long)(uint32_t)v.c);
    else if (cv == 'c') { t[0] = (char)v.c; t[1] = 0; }
    else { incomplete(std::string("snprintf conversion ") + cv); throw Kill(); }
    out += t;
  }
  if (cap) { size_t n = std::min<size_t>(out.size(), cap - 1); for (size_t i = 0; i < n; i++) wr(s, dst + i, (uint8_t)out[i], 8); wr(s, dst + n, 0, 8); }
  c.ret = SVal((uint64_t)out.size() & 0xffffffff); return H_DONE;
}
static std::vector<std::string> optNoop;
static void initHandlers() {
  auto &h = handlers;
  auto add = [&](std::initializer_list<const char *> ns, Handler f) { for (auto n : ns) h[n] = f; };
  add({"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}, h_malloc);
  add({"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}, h_newaligned);
  add({"calloc"}, h_calloc); add({"realloc"}, h_realloc); add({"aligned_alloc", "memalign"}, h_aligned); add({"posix_memalign"}, h_posix_memalign);
  add({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, h_free);
  add({"memcpy", "memmove"}, h_memcpy); add({"memset"}, h_memset); add({"memcmp", "bcmp"}, h_memcmp); add({"strlen"}, h_strlen); add({"strcmp"}, h_strcmp); add({"strncmp"}, h_strncmp); add({"memchr"}, h_memchr); add({"strchr"}, h_strchr);
  add({"abort", "_ZSt9terminatev", "_ZSt10unexpectedv", "std_terminate", "__cxa_call_terminate"}, h_abort); add({"exit", "_exit", "quick_exit"}, h_exit); add({"__cxa_pure_virtual", "__cxa_deleted_virtual"}, h_pure); add({"__assert_fail"}, h_assertfail);
  add({"_ZSt21__glibcxx_assert_failPKciS0_S0_"}, h_abort);
  add({"__cxa_allocate_exception"}, h_exc_alloc); add({"__cxa_free_exception"}, h_exc_free); add({"__cxa_throw"}, h_throw); add({"__cxa_begin_catch"}, h_begin_catch); add({"__cxa_end_catch"}, h_end_catch); add({"__cxa_rethrow"}, h_rethrow); add({"__cxa_get_exception_ptr"}, h_get_exc_ptr); add({"__cxa_init_primary_exception"}, h_exc_init); add({"__cxa_current_exception_type"}, h_cur_exc_type);
  add({"_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv"}, h_uncaught);
  add({"_ZSt17current_exceptionv"}, h_current_exception); add({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}, h_rethrow_exception);
  add({"_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv"}, h_eptr_ctor_void);
  add({"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"}, h_eptr_addref); add({"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}, h_eptr_release);
  add({"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"}, h_eptr_copy);
  add({"_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev"}, h_eptr_dtor);
  add({"_ZNSt15__exception_ptr13exception_ptr4swapERS0_"}, h_eptr_swap);
  add({"_ZNKSt15__exception_ptr13exception_ptr20__cxa_exception_typeEv"}, h_eptr_type);
  add({"__dynamic_cast"}, h_dyncast); add({"__cxa_bad_cast", "__cxa_bad_typeid"}, h_bad_cast);
  add({"__cxa_guard_acquire"}, h_guard_acquire); add({"__cxa_guard_release"}, h_guard_release); add({"__cxa_guard_abort"}, h_guard_abort);
  add({"__cxa_atexit", "__cxa_thread_atexit", "__cxa_finalize", "atexit", "__cxa_thread_atexit_impl", "at_quick_exit"}, h_zero);
  add({"pthread_mutex_init"}, h_mutex_init); add({"pthread_mutex_destroy"}, h_mutex_destroy); add({"pthread_mutex_lock"}, h_mutex_lock); add({"pthread_mutex_trylock"}, h_mutex_trylock); add({"pthread_mutex_unlock"}, h_mutex_unlock);
  add({"pthread_mutexattr_init"}, h_mutexattr_init); add({"pthread_mutexattr_settype"}, h_mutexattr_settype); add({"pthread_mutexattr_destroy", "pthread_condattr_init", "pthread_condattr_destroy", "pthread_condattr_setclock", "pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setdetachstate"}, h_zero);
  add({"pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock"}, h_rw_rd); add({"pthread_rwlock_wrlock", "pthread_rwlock_trywrlock"}, h_rw_wr); add({"pthread_rwlock_unlock"}, h_rw_un); add({"pthread_rwlock_init", "pthread_rwlock_destroy"}, h_zero);
  add({"pthread_cond_init"}, h_cond_init); add({"pthread_cond_destroy"}, h_cond_destroy); add({"pthread_cond_wait"}, h_cond_wait); add({"pthread_cond_timedwait"}, h_cond_timedwait); add({"pthread_cond_clockwait"}, h_cond_clockwait); add({"pthread_cond_signal"}, h_cond_signal); add({"pthread_cond_broadcast"}, h_cond_broadcast);
  add({"pthread_create"}, h_pthread_create); add({"pthread_join"}, h_join); add({"pthread_detach"}, h_detach); add({"pthread_self"}, h_self); add({"sched_yield", "pthread_yield"}, h_yield);
  add({"vs_thread_create"}, h_thread_create);
  add({"nanosleep"}, h_nanosleep); add({"clock_nanosleep"}, h_zero); add({"usleep"}, h_usleep);
  add({"_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"}, h_now); add({"clock_gettime"}, h_clock_gettime); add({"time"}, h_time); add({"__errno_location"}, h_errno);
  add({"_ZNSt6thread20hardware_concurrencyEv", "_ZN5boost6thread20hardware_concurrencyEv", "sysconf", "get_nprocs"}, h_nproc);
  add({"snprintf"}, h_snprintf);
  add({"vs_fmt_double"}, h_fmt_double); add({"vs_parse_double"}, h_parse_double);
  add({"vs_sym"}, h_sym); add({"vs_assume"}, h_assume); add({"vs_assert"}, h_assert); add({"vs_assert_known"}, h_assert_known); add({"vs_fail"}, h_fail); add({"vs_reach"}, h_reach); add({"vs_concretize"}, h_conc); add({"vs_is_symbolic"}, h_issym); add({"vs_log"}, h_log); add({"vs_lognum"}, h_lognum); add({"vs_nthreads"}, h_nthreads); add({"vs_bt"}, h_bt); add({"vs_symbuf"}, h_symbuf);
  add({"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "fwrite", "vfprintf", "perror", "setlocale", "tzset", "signal"}, h_zero);
  for (auto n : libm1) { h[n] = h_libm<64>; h[std::string(n) + "f"] = h_libm<32>; h[std::string(n) + "l"] = h_libm<80>; }
  for (auto n : libm2) { h[n] = h_libm<64>; h[std::string(n) + "f"] = h_libm<32>; h[std::string(n) + "l"] = h_libm<80>; }
#define F1(nm, OPC, MODE) h[nm] = h_f1<64, (int)OPC, MODE>; h[std::string(nm) + "f"] = h_f1<32, (int)OPC, MODE>; h[std::string(nm) + "l"] = h_f1<80, (int)OPC, MODE>;
  F1("sqrt", Op::FSqrt, 0) F1("floor", Op::FRound, 3) F1("ceil", Op::FRound, 2) F1("trunc", Op::FRound, 4) F1("round", Op::FRound, 1) F1("rint", Op::FRound, 0) F1("nearbyint", Op::FRound, 0) F1("fabs", Op::FAbs, 0)
  h["lround"] = h["llround"] = h_lround<64>; h["lroundf"] = h["llroundf"] = h_lround<32>; h["lroundl"] = h["llroundl"] = h_lround<80>;
  h["fmin"] = h_fminmax<64, false>; h["fmax"] = h_fminmax<64, true>; h["fminf"] = h_fminmax<32, false>; h["fmaxf"] = h_fminmax<32, true>; h["fminl"] = h_fminmax<80, false>; h["fmaxl"] = h_fminmax<80, true>;
}
