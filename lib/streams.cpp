// Models of the iostream parts of libstdc++ that live in the shared library (symbolic side only).
// Compiled with -D_GLIBCXX_EXTERN_TEMPLATE=0: class layouts, buffers and manipulators are the real
// header templates; locales, number formatting/parsing and files are replaced by the code below.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <filesystem>
#include <locale>
extern "C" { void vs_fail(const char *); int vs_is_symbolic(uint64_t); uint64_t vs_concretize(uint64_t); }

namespace std {
// ---- locale: one opaque global
static char vs_locale_dummy[64];
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale &) noexcept : _M_impl(nullptr) {}
locale::locale(const char *) : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
const locale &locale::classic() { return *reinterpret_cast<const locale *>(vs_locale_dummy); }
bool locale::operator==(const locale &) const noexcept { return true; }
locale locale::global(const locale &) { return locale(); }
locale::facet::~facet() {}
string locale::name() const { return "C"; }

// ---- ctype<char>, classic locale
static ctype_base::mask vs_ctab[256]; static bool vs_ctab_init;
static const ctype_base::mask *vs_ctable() {
  if (!vs_ctab_init) {
    for (int c = 0; c < 128; c++) {
      ctype_base::mask m = 0; bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9';
      if (up) m |= ctype_base::upper | ctype_base::alpha; if (lo) m |= ctype_base::lower | ctype_base::alpha; if (di) m |= ctype_base::digit;
      if (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
      if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space; if (c == ' ' || c == 9) m |= ctype_base::blank;
      if (c >= 32 && c < 127) m |= ctype_base::print; if (c < 32 || c == 127) m |= ctype_base::cntrl; if (c > 32 && c < 127 && !up && !lo && !di) m |= ctype_base::punct;
      vs_ctab[c] = m;
    }
    vs_ctab_init = true;
  }
  return vs_ctab;
}
locale::id ctype<char>::id;
static char vs_up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char vs_lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
ctype<char>::ctype(const mask *t, bool, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : vs_ctable()), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
const ctype_base::mask *ctype<char>::classic_table() throw() { return vs_ctable(); }
char ctype<char>::do_toupper(char c) const { return vs_up(c); }
const char *ctype<char>::do_toupper(char *a, const char *b) const { for (; a < b; a++) *a = vs_up(*a); return b; }
char ctype<char>::do_tolower(char c) const { return vs_lo(c); }
const char *ctype<char>::do_tolower(char *a, const char *b) const { for (; a < b; a++) *a = vs_lo(*a); return b; }
void ctype<char>::_M_widen_init() const { _M_widen_ok = 0; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 0; }
template <> const ctype<char> &use_facet<ctype<char>>(const locale &) { static ctype<char> *c; if (!c) c = new ctype<char>(nullptr, false, 1); return *c; }
template <> bool has_facet<ctype<char>>(const locale &) noexcept { return true; }

// ---- ios_base
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = fmtflags(skipws | dec); }
locale ios_base::imbue(const locale &) noexcept { return locale(); }
void ios_base::_M_swap(ios_base &o) noexcept { std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state); }
void ios_base::_M_move(ios_base &o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
int ios_base::xalloc() noexcept { static int n; return n++; }
ios_base::failure::failure(const string &s) : system_error(io_errc::stream, s) {}
ios_base::failure::failure(const char *s, const error_code &e) : system_error(e, s) {}
ios_base::failure::failure(const string &s, const error_code &e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char *ios_base::failure::what() const noexcept { return runtime_error::what(); }
void __throw_ios_failure(const char *m) { throw ios_base::failure(string(m)); }
void __throw_ios_failure(const char *m, int) { throw ios_base::failure(string(m)); }
const error_category &iostream_category() noexcept { return generic_category(); }

template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = 0; _M_num_put = 0; _M_num_get = 0; }
template <> locale basic_ios<char>::imbue(const locale &) { return locale(); }
template <> locale basic_streambuf<char>::pubimbue(const locale &) { return locale(); }
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> char basic_ios<char>::fill() const { return _M_fill; }
template <> char basic_ios<char>::fill(char c) { char o = _M_fill; _M_fill = c; return o; }
template <> void basic_ios<char>::init(basic_streambuf<char> *sb) {
  ios_base::_M_init(); _M_ctype = 0; _M_num_put = 0; _M_num_get = 0; _M_fill = ' '; _M_fill_init = true; _M_tie = 0;
  _M_exception = goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit;
}

// ---- formatted output
static void vs_put(ostream &o, const char *p, size_t n) {
  if (!o.rdbuf()) return;
  streamsize w = o.width();
  if (w > (streamsize)n && (o.flags() & ios_base::adjustfield) != ios_base::left) for (size_t i = n; i < (size_t)w; i++) o.rdbuf()->sputc(o.fill());
  o.rdbuf()->sputn(p, n);
  if (w > (streamsize)n && (o.flags() & ios_base::adjustfield) == ios_base::left) for (size_t i = n; i < (size_t)w; i++) o.rdbuf()->sputc(o.fill());
  o.width(0);
}
static size_t vs_fmtu(char *b, uint64_t v, unsigned base) { char t[72]; size_t n = 0; do { t[n++] = "0123456789abcdef"[v % base]; v /= base; } while (v); for (size_t i = 0; i < n; i++) b[i] = t[n - 1 - i]; return n; }
static void vs_putint(ostream &o, uint64_t mag, bool neg) {
  if (!o.rdbuf()) return;
  if (vs_is_symbolic(mag) || vs_is_symbolic(neg)) { vs_put(o, "<symbolic>", 10); return; }
  char b[80]; size_t n = 0; if (neg) b[n++] = '-';
  unsigned base = (o.flags() & ios_base::basefield) == ios_base::hex ? 16 : (o.flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
  n += vs_fmtu(b + n, mag, base); vs_put(o, b, n);
}
extern "C" int vs_fmt_double(char *buf, double v, int prec, int mode); // %.*g / %.*f / %.*e on a concrete value
static void vs_putfp(ostream &o, double d) {
  if (!o.rdbuf()) return;
  uint64_t u; memcpy(&u, &d, 8);
  if (vs_is_symbolic(u)) { vs_put(o, "<symbolic>", 10); return; }
  int mode = (o.flags() & ios_base::floatfield) == ios_base::fixed ? 1 : (o.flags() & ios_base::floatfield) == ios_base::scientific ? 2 : 0;
  char b[400]; int n = vs_fmt_double(b, d, (int)o.precision(), mode); vs_put(o, b, n);
}
#define OI(T) template <> template <> ostream &ostream::_M_insert(T v)
OI(long) { vs_putint(*this, v < 0 ? 0 - (uint64_t)v : v, v < 0); return *this; }
OI(unsigned long) { vs_putint(*this, v, false); return *this; }
OI(long long) { vs_putint(*this, v < 0 ? 0 - (uint64_t)v : v, v < 0); return *this; }
OI(unsigned long long) { vs_putint(*this, v, false); return *this; }
OI(bool) { if (flags() & boolalpha) { if (v) vs_put(*this, "true", 4); else vs_put(*this, "false", 5); } else vs_putint(*this, v, false); return *this; }
OI(double) { vs_putfp(*this, v); return *this; }
OI(long double) { vs_putfp(*this, (double)v); return *this; }
OI(const void *) { if (rdbuf()) vs_put(*this, "0xPTR", 5); return *this; }
template <> ostream &ostream::operator<<(int v) { vs_putint(*this, v < 0 ? 0 - (uint64_t)(int64_t)v : v, v < 0); return *this; }
template <> ostream &ostream::operator<<(short v) { return *this << (int)v; }
template <> ostream &ostream::operator<<(basic_streambuf<char> *) { return *this; }
template <> ostream &ostream::flush() { return *this; }
template <> ostream &ostream::put(char c) { if (rdbuf()) rdbuf()->sputc(c); return *this; }
template <> ostream &ostream::write(const char *p, streamsize n) { if (rdbuf()) rdbuf()->sputn(p, n); return *this; }
template <> ostream::sentry::sentry(ostream &o) : _M_ok(o.good()), _M_os(o) {}
template <> ostream &__ostream_insert(ostream &o, const char *p, streamsize n) { vs_put(o, p, n); return o; }
template <> ostream &operator<<(ostream &o, const char *s) { if (s && o.rdbuf()) vs_put(o, s, strlen(s)); return o; }
template <> ostream &operator<<(ostream &o, char c) { vs_put(o, &c, 1); return o; }
template <> ostream &operator<<(ostream &o, const string &s) { vs_put(o, s.data(), s.size()); return o; }
template <> ostream &operator<<(ostream &o, signed char c) { return o << (char)c; }
template <> ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
template <> ostream &operator<<(ostream &o, const signed char *s) { return o << (const char *)s; }
template <> ostream &operator<<(ostream &o, const unsigned char *s) { return o << (const char *)s; }
template <> ostream &operator<<(ostream &o, _Setprecision p) { o.precision(p._M_n); return o; }
template <> ostream &operator<<(ostream &o, _Setw p) { o.width(p._M_n); return o; }
template <> ostream &operator<<(ostream &o, _Setfill<char> p) { o.fill(p._M_c); return o; }
template <> ostream &endl(ostream &o) { o.put('\n'); return o; }
template <> ostream &flush(ostream &o) { return o; }

// ---- formatted input
static bool vs_space(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
template <> istream::sentry::sentry(istream &in, bool noskip) : _M_ok(false) {
  if (!in.good()) { in.setstate(ios_base::failbit); return; }
  if (!noskip && (in.flags() & ios_base::skipws)) {
    int c = in.rdbuf()->sgetc(); while (c != -1 && vs_space(c)) c = in.rdbuf()->snextc();
    if (c == -1) { in.setstate(ios_base::eofbit | ios_base::failbit); return; }
  }
  _M_ok = true;
}
static bool vs_getint(istream &in, bool &neg, uint64_t &v, bool &ovf) {
  istream::sentry s(in); neg = false; v = 0; ovf = false; if (!s) return false;
  int c = in.rdbuf()->sgetc(); bool any = false;
  if (c == '-' || c == '+') { neg = c == '-'; c = in.rdbuf()->snextc(); }
  while (c != -1 && c >= '0' && c <= '9') { any = true; if (v > (UINT64_MAX - (c - '0')) / 10) ovf = true; v = v * 10 + (c - '0'); c = in.rdbuf()->snextc(); }
  if (c == -1) in.setstate(ios_base::eofbit);
  if (!any) { in.setstate(ios_base::failbit); return false; }
  return true;
}
template <class T> static istream &vs_xint(istream &in, T &v) {
  bool neg, ovf; uint64_t u; if (!vs_getint(in, neg, u, ovf)) { v = 0; return in; }
  const bool sg = T(-1) < T(0); uint64_t mx = (uint64_t)numeric_limits<T>::max();
  if (sg) { if (ovf || u > mx + (neg ? 1 : 0)) { v = neg ? numeric_limits<T>::min() : numeric_limits<T>::max(); in.setstate(ios_base::failbit); } else v = neg ? (T)(0 - u) : (T)u; }
  else { if (ovf || u > mx) { v = numeric_limits<T>::max(); in.setstate(ios_base::failbit); } else v = neg ? (T)(0 - u) : (T)u; }
  return in;
}
extern "C" double vs_parse_double(const char *buf, int *ok);
static istream &vs_xfp(istream &in, double &v) {
  istream::sentry s(in); v = 0; if (!s) return in;
  char b[128]; int n = 0; int c = in.rdbuf()->sgetc();
  while (c != -1 && n < 120 && ((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E')) { b[n++] = (char)c; c = in.rdbuf()->snextc(); }
  b[n] = 0; if (c == -1) in.setstate(ios_base::eofbit);
  int ok = 0; double d = n ? vs_parse_double(b, &ok) : 0; if (!ok) { in.setstate(ios_base::failbit); return in; } v = d; return in;
}
#define IX(T) template <> template <> istream &istream::_M_extract(T &v)
IX(unsigned short) { return vs_xint(*this, v); }
IX(unsigned int) { return vs_xint(*this, v); }
IX(long) { return vs_xint(*this, v); }
IX(unsigned long) { return vs_xint(*this, v); }
IX(long long) { return vs_xint(*this, v); }
IX(unsigned long long) { return vs_xint(*this, v); }
IX(bool) {
  if (flags() & boolalpha) {
    sentry s(*this); if (!s) return *this;
    const char *w; int c = rdbuf()->sgetc(); if (c == 't') w = "true"; else if (c == 'f') w = "false"; else { v = false; setstate(failbit); return *this; }
    for (const char *p = w; *p; p++) { if (c != *p) { v = false; setstate(failbit); return *this; } c = rdbuf()->snextc(); }
    if (c == -1) setstate(eofbit); v = w[0] == 't'; return *this;
  }
  int t = 0; vs_xint(*this, t); v = t != 0; if (t != 0 && t != 1) setstate(failbit); return *this;
}
IX(float) { double d; vs_xfp(*this, d); v = (float)d; return *this; }
IX(double) { vs_xfp(*this, v); return *this; }
IX(long double) { double d; vs_xfp(*this, d); v = d; return *this; }
template <> istream &istream::operator>>(short &v) { return vs_xint(*this, v); }
template <> istream &istream::operator>>(int &v) { return vs_xint(*this, v); }
template <> istream &operator>>(istream &in, char &c) { istream::sentry s(in); if (s) { int x = in.rdbuf()->sbumpc(); if (x == -1) in.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x; } return in; }
template <> istream &operator>>(istream &in, string &str) {
  istream::sentry s(in); if (!s) return in;
  str.clear(); int c = in.rdbuf()->sgetc(); while (c != -1 && !vs_space(c)) { str.push_back((char)c); c = in.rdbuf()->snextc(); }
  if (c == -1) in.setstate(ios_base::eofbit); if (str.empty()) in.setstate(ios_base::failbit); return in;
}
template <> istream &getline(istream &in, string &str, char d) {
  istream::sentry s(in, true); str.clear(); if (!s) return in; bool got = false;
  for (;;) { int c = in.rdbuf()->sbumpc(); if (c == -1) { in.setstate(ios_base::eofbit); break; } got = true; if (c == d) break; str.push_back((char)c); }
  if (!got) in.setstate(ios_base::failbit); return in;
}
template <> istream &getline(istream &in, string &str) { return getline(in, str, '\n'); }

template <> istream &ws(istream &in) { int c = in.rdbuf()->sgetc(); while (c != -1 && vs_space(c)) c = in.rdbuf()->snextc(); if (c == -1) in.setstate(ios_base::eofbit); return in; }
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;

ostream cout(nullptr), cerr(nullptr), clog(nullptr);
istream cin(nullptr);

// std::time / put_time formatting is environment
template <> ostreambuf_iterator<char> time_put<char>::put(ostreambuf_iterator<char> o, ios_base &, char, const tm *, const char *, const char *) const { return o; }
template <> locale::id time_put<char>::id{};
template <> const time_put<char> &use_facet(const locale &) { static char b[64]; return *reinterpret_cast<const time_put<char> *>(b); }
template <> ostream &operator<<(ostream &o, _Put_time<char> ) { return o; }
const char *__throw_dummy;
}
extern "C" struct tm *localtime_r(const time_t *, struct tm *r) { memset(r, 0, sizeof *r); return r; }
extern "C" struct tm *localtime(const time_t *) { static struct tm t; return &t; }
