// Models of the parts of libstdc++ that are not header templates (symbolic side only).
#include <cstdint>
#include <string>
#include <cstring>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <memory>
#include <future>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <future>
#include <bits/atomic_futex.h>
#include <system_error>
#include <map>
#include <list>
#include <unordered_map>
#include <random>
extern "C" uint64_t vs_sym(const char *name, uint32_t bits);
#include <any>
#include <optional>
#include <variant>
#include <cxxabi.h>
extern "C" uint64_t vs_thread_create(void *(*)(void *), void *);
extern "C" { void vs_fail(const char *); }

template class std::basic_string<char>;

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}

static char *dupmsg(const char *m) { size_t n = strlen(m); char *p = new char[n + 1]; memcpy(p, m, n + 1); return p; }
__cow_string::__cow_string() : _M_p(dupmsg("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupmsg(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(dupmsg(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupmsg(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { delete[] _M_p; _M_p = dupmsg(o._M_p); } return *this; }
__cow_string::~__cow_string() { delete[] _M_p; }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(dupmsg(o._M_p)) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { if (this != &o) { delete[] _M_p; _M_p = dupmsg(o._M_p); } return *this; }

logic_error::logic_error(const string &a) : _M_msg(a) {}
logic_error::logic_error(const char *a) : _M_msg(a, 0) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &a) : _M_msg(a) {}
runtime_error::runtime_error(const char *a) : _M_msg(a, 0) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define EXC(N, B) N::N(const string &a) : B(a) {} N::N(const char *a) : B(a) {} N::~N() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
#undef EXC

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *m) { throw logic_error(m); }
void __throw_domain_error(const char *m) { throw domain_error(m); }
void __throw_invalid_argument(const char *m) { throw invalid_argument(m); }
void __throw_length_error(const char *m) { throw length_error(m); }
void __throw_out_of_range(const char *m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(const char *m, ...) { throw out_of_range(m); }
void __throw_runtime_error(const char *m) { throw runtime_error(m); }
void __throw_range_error(const char *m) { throw range_error(m); }
void __throw_overflow_error(const char *m) { throw overflow_error(m); }
void __throw_underflow_error(const char *m) { throw underflow_error(m); }

// ---------------------------------------------------------------- system_error / future
struct vs_generic_category final : error_category {
  const char *name() const noexcept override { return "generic"; }
  string message(int) const override { return string("generic error"); }
};
struct vs_future_category final : error_category {
  const char *name() const noexcept override { return "future"; }
  string message(int) const override { return string("future error"); }
};
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
static vs_generic_category g_gen, g_sys;
static vs_future_category g_fut;
inline namespace _V2 { const error_category &generic_category() noexcept { return g_gen; } }
inline namespace _V2 { const error_category &system_category() noexcept { return g_sys; } }
const error_category &future_category() noexcept { return g_fut; }
error_condition error_code::default_error_condition() const noexcept { return error_condition(value(), category()); }
system_error::~system_error() noexcept {}
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "future_error"; }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}

// ---------------------------------------------------------------- threads
thread::_State::~_State() {}
static void *vs_runner(void *p) { { thread::_State_ptr st(static_cast<thread::_State *>(p)); st->_M_run(); } return nullptr; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { _M_id._M_thread = vs_thread_create(&vs_runner, st.release()); }
void thread::join() {
  if (_M_id == id()) __throw_system_error(22);
  pthread_join(_M_id._M_thread, nullptr);
  _M_id = id();
}
void thread::detach() { if (_M_id == id()) __throw_system_error(22); pthread_detach(_M_id._M_thread); _M_id = id(); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { pthread_cond_destroy(_M_cond.native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(_M_cond.native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(_M_cond.native_handle()); }
// futex: a global monitor
static pthread_mutex_t vs_futex_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t vs_futex_c = PTHREAD_COND_INITIALIZER;
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) {
  pthread_mutex_lock(&vs_futex_m); while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) pthread_cond_wait(&vs_futex_c, &vs_futex_m); pthread_mutex_unlock(&vs_futex_m); return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) { pthread_mutex_lock(&vs_futex_m); pthread_cond_broadcast(&vs_futex_c); pthread_mutex_unlock(&vs_futex_m); }
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(_M_cond.native_handle(), l.mutex()->native_handle()); }
__thread void *__once_callable;
__thread void (*__once_call)();
}
namespace __cxxabiv1 { __fundamental_type_info::~__fundamental_type_info() {} } // makes clang emit the type infos of the fundamental types
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int __cxa_guard_acquire(int64_t *); extern "C" void __cxa_guard_release(int64_t *); extern "C" void __cxa_guard_abort(int64_t *);
extern "C" int pthread_once(pthread_once_t *c, void (*f)()) {
  // only the first byte of the control word is used as "done" flag; the engine serialises initialisers
  if (__cxa_guard_acquire((int64_t *)c)) { try { f(); } catch (...) { __cxa_guard_abort((int64_t *)c); throw; } __cxa_guard_release((int64_t *)c); }
  return 0;
}

// ---------------------------------------------------------------- containers
namespace std {
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base *const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      _Rb_tree_node_base *const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else leftmost = _Rb_tree_node_base::_S_minimum(x); }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else rightmost = _Rb_tree_node_base::_S_maximum(x); }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
        }
      } else {
        _Rb_tree_node_base *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = this->_M_next, *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411};
  for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; }
  vs_fail("hash table too large for the model"); return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
  if (e + i > _M_next_resize) { size_t m = e + i; if (m >= b) return {true, _M_next_bkt(std::max(m + 1, b * 2))}; _M_next_resize = b; return {false, 0}; }
  return {false, 0};
}
}
// hashing is part of the environment: any deterministic function of the bytes is a valid model
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}

// exact exponent manipulation (bit-level, usable with symbolic arguments)
extern "C" double ldexp(double x, int n) {
  if (n > 1023) { x *= 0x1p1023; n -= 1023; if (n > 1023) { x *= 0x1p1023; n -= 1023; if (n > 1023) n = 1023; } }
  else if (n < -1022) { x *= 0x1p-1022 * 0x1p53; n += 1022 - 53; if (n < -1022) { x *= 0x1p-1022 * 0x1p53; n += 1022 - 53; if (n < -1022) n = -1022; } }
  unsigned long u = (unsigned long)(0x3ff + n) << 52; double f; __builtin_memcpy(&f, &u, 8); return x * f;
}
extern "C" double scalbn(double x, int n) { return ldexp(x, n); }
extern "C" float ldexpf(float x, int n) { return (float)ldexp((double)x, n); }
extern "C" double frexp(double x, int *e) {
  unsigned long u; __builtin_memcpy(&u, &x, 8); int ee = (int)(u >> 52 & 0x7ff);
  if (ee == 0) { if (x != 0) { x = frexp(x * 0x1p64, e); *e -= 64; } else *e = 0; return x; }
  if (ee == 0x7ff) { *e = 0; return x; }
  *e = ee - 0x3fe; u &= 0x800ffffffffffffful; u |= 0x3fe0000000000000ul; __builtin_memcpy(&x, &u, 8); return x;
}
extern "C" float frexpf(float x, int *e) { return (float)frexp((double)x, e); }
// random bytes requested from the kernel: only used for unique identifiers here; distinct for every call
extern "C" long getrandom(void *p, size_t n, unsigned) { static uint64_t c = 0x1234; unsigned char *q = (unsigned char *)p; c++; for (size_t i = 0; i < n; i++) q[i] = (unsigned char)(i < 8 ? c >> (8 * i) : 0x40 + i); return (long)n; }
// std::random_device: unconstrained values
#include <random>
extern "C" uint64_t vs_sym(const char *name, uint32_t bits);
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (unsigned)vs_sym("rnd_device", 32); }
}
// ctype in the "C" locale
extern "C" {
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
}
extern "C" char *getenv(const char *) { return nullptr; }

// failed casts to references and typeid of null pointers
extern "C" { void __cxa_bad_cast() { std::__throw_bad_cast(); } void __cxa_bad_typeid() { std::__throw_bad_typeid(); } void __cxa_throw_bad_array_new_length() { std::__throw_bad_array_new_length(); } void __cxa_throw_bad_array_length() { std::__throw_bad_array_new_length(); } void __cxa_pure_virtual() { vs_fail("call of a pure virtual function"); } }
