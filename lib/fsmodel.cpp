// Model of std::filesystem and std::fstream on an in-memory file system (symbolic side only).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#define private public
#include <fstream>
#undef private
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <filesystem>
extern "C" { void vs_fail(const char *); }
struct vs_vfs { std::map<std::string, std::string> files; std::map<std::string, int> dirs; long clock = 1; std::map<std::string, long> mtime; };
vs_vfs &vs_fs() { static vs_vfs *p = new vs_vfs; return *p; }
static std::string norm(std::string s) { if (s == "/cwd" || s == "/cwd/") return "."; if (s.compare(0, 5, "/cwd/") == 0) s = s.substr(5); while (s.size() > 2 && s[0] == '.' && s[1] == '/') s = s.substr(2); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
// harness access
extern "C" int vs_file_exists(const char *n) { return vs_fs().files.count(norm(n)) ? 1 : 0; }
void vs_file_put(const std::string &n, const std::string &d) { vs_fs().files[norm(n)] = d; }
std::string vs_file_get(const std::string &n) { return vs_fs().files[norm(n)]; }
void vs_file_del(const std::string &n) { vs_fs().files.erase(norm(n)); }
// no more than n bytes per file can be written (n < 0: no limit)
static long vs_limit = -1; extern "C" void vs_disk_limit(long n) { vs_limit = n; }
void vs_dir_put(const std::string &n) { vs_fs().dirs[norm(n)] = 1; }

namespace std {
struct vs_open { string name, data; bool out; };
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(0), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() {}
bool __basic_file<char>::is_open() const throw() { return _M_cfile != 0; }
template <> basic_filebuf<char>::basic_filebuf() : basic_streambuf<char>(), _M_lock(), _M_file(&_M_lock), _M_mode(ios_base::openmode(0)), _M_buf(0), _M_buf_size(0), _M_buf_allocated(false), _M_reading(false), _M_writing(false), _M_pback(), _M_pback_cur_save(0), _M_pback_end_save(0), _M_pback_init(false), _M_codecvt(0), _M_ext_buf(0), _M_ext_buf_size(0), _M_ext_next(0), _M_ext_end(0) {}
template <> basic_filebuf<char> *basic_filebuf<char>::open(const char *n, ios_base::openmode m) {
  if (_M_file._M_cfile) return nullptr;
  string nm = norm(n); auto &fs = vs_fs(); auto it = fs.files.find(nm); bool ex = it != fs.files.end();
  if (nm.empty() || fs.dirs.count(nm)) return nullptr;
  auto sl = nm.rfind('/'); if (sl != string::npos && sl > 0 && !fs.dirs.count(nm.substr(0, sl))) return nullptr;
  bool out = (m & (ios_base::out | ios_base::app)) != 0;
  if (!out && !ex) return nullptr;
  auto *o = new vs_open; o->name = nm; o->out = out;
  if (ex && (!out || (m & ios_base::app) || (m & ios_base::in))) o->data = it->second;
  if (out) { fs.files[nm] = o->data; fs.mtime[nm] = ++fs.clock; } else setg(&o->data[0], &o->data[0], &o->data[0] + o->data.size());
  _M_mode = m; _M_file._M_cfile = (FILE *)o; return this;
}
static vs_open *vo(basic_filebuf<char> *b) { return (vs_open *)b->_M_file._M_cfile; }
static bool vs_store(vs_open *o) { // returns false if not all data can be written
  bool ok = vs_limit < 0 || (long)o->data.size() <= vs_limit; if (!ok) o->data.resize(vs_limit);
  if (vs_fs().files.count(o->name)) vs_fs().files[o->name] = o->data; return ok;
}
template <> int basic_filebuf<char>::sync() { auto *o = vo(this); return o && o->out && !vs_store(o) ? -1 : 0; }
template <> basic_filebuf<char> *basic_filebuf<char>::close() { auto *o = vo(this); if (!o) return nullptr; bool ok = !o->out || vs_store(o); setg(0, 0, 0); _M_file._M_cfile = 0; delete o; return ok ? this : nullptr; }
template <> int basic_filebuf<char>::overflow(int c) { auto *o = vo(this); if (!o || !o->out) return -1; if (c != -1) o->data.push_back((char)c); return c == -1 ? 0 : c; }
template <> streamsize basic_filebuf<char>::xsputn(const char *p, streamsize n) { auto *o = vo(this); if (!o || !o->out) return 0; o->data.append(p, n); return n; }
template <> int basic_filebuf<char>::underflow() { return gptr() && gptr() < egptr() ? (unsigned char)*gptr() : -1; }
template <> int basic_filebuf<char>::pbackfail(int c) { if (gptr() && gptr() > eback()) { gbump(-1); return c == -1 ? 0 : c; } return -1; }
template <> streamsize basic_filebuf<char>::showmanyc() { return egptr() - gptr(); }
template <> streamsize basic_filebuf<char>::xsgetn(char *p, streamsize n) { streamsize k = egptr() - gptr(); if (k > n) k = n; if (k > 0) { memcpy(p, gptr(), k); gbump(k); } return k < 0 ? 0 : k; }
template <> basic_streambuf<char> *basic_filebuf<char>::setbuf(char *, streamsize) { return this; }
template <> streampos basic_filebuf<char>::seekoff(streamoff off, ios_base::seekdir d, ios_base::openmode) {
  auto *o = vo(this); if (!o) return streampos(-1); streamoff p = off;
  if (d == ios_base::end) p += o->data.size(); else if (d == ios_base::cur) p += o->out ? (streamoff)o->data.size() : gptr() - eback();
  if (p < 0 || p > (streamoff)o->data.size()) return streampos(-1);
  if (!o->out) setg(&o->data[0], &o->data[0] + p, &o->data[0] + o->data.size()); return streampos(p);
}
template <> streampos basic_filebuf<char>::seekpos(streampos p, ios_base::openmode m) { return seekoff(streamoff(p), ios_base::beg, m); }
template <> void basic_filebuf<char>::imbue(const locale &) {}
template <> void basic_filebuf<char>::_M_destroy_internal_buffer() throw() {}
template class basic_filebuf<char>;
template class basic_ofstream<char>;
template class basic_ifstream<char>;
template class basic_fstream<char>;

namespace filesystem {
struct path::_List::_Impl { alignas(8) vector<path::_Cmpt> v; };
void path::_List::_Impl_deleter::operator()(_Impl *p) const noexcept { p = (_Impl *)((uintptr_t)p & ~(uintptr_t)3); if (p) delete p; }
static path::_List::_Impl *li(const path::_List &l) { return (path::_List::_Impl *)((uintptr_t)l._M_impl.get() & ~(uintptr_t)3); }
path::_List::_List() : _M_impl((_Impl *)(uintptr_t)3) {}
path::_List::_List(const _List &o) : _M_impl((_Impl *)(uintptr_t)3) { if (li(o)) { auto *p = new _Impl(*li(o)); _M_impl.reset(p); } else type(o.type()); }
path::_List &path::_List::operator=(const _List &o) { if (this != &o) { clear(); if (li(o)) { auto *p = new _Impl(*li(o)); _M_impl.release(); _M_impl.reset(p); } else type(o.type()); } return *this; }
void path::_List::type(_Type t) noexcept { clear(); auto v = (uintptr_t)t; _M_impl.release(); _M_impl.reset((_Impl *)v); }
void path::_List::clear() { _M_impl.reset((_Impl *)(uintptr_t)3); }
int path::_List::size() const noexcept { return li(*this) ? li(*this)->v.size() : 0; }
bool path::_List::empty() const noexcept { return size() == 0; }
path::_List::iterator path::_List::begin() noexcept { return li(*this)->v.data(); }
path::_List::iterator path::_List::end() noexcept { return li(*this)->v.data() + li(*this)->v.size(); }
path::_List::const_iterator path::_List::begin() const noexcept { return li(*this)->v.data(); }
path::_List::const_iterator path::_List::end() const noexcept { return li(*this)->v.data() + li(*this)->v.size(); }
path::_Cmpt &path::_List::front() noexcept { return li(*this)->v.front(); }
path::_Cmpt &path::_List::back() noexcept { return li(*this)->v.back(); }
const path::_Cmpt &path::_List::front() const noexcept { return li(*this)->v.front(); }
const path::_Cmpt &path::_List::back() const noexcept { return li(*this)->v.back(); }
void path::_M_split_cmpts() {
  _M_cmpts.clear(); const std::string &s = _M_pathname; if (s.find('/') == std::string::npos) return;
  if (s == "/") { _M_cmpts.type(_Type::_Root_dir); return; }
  auto *im = new _List::_Impl; im->v.reserve(16); size_t i = 0;
  if (s[0] == '/') { im->v.emplace_back(string_view("/"), _Type::_Root_dir, 0); while (i < s.size() && s[i] == '/') i++; }
  while (i < s.size()) { size_t j = i; while (j < s.size() && s[j] != '/') j++; im->v.emplace_back(string_view(s).substr(i, j - i), _Type::_Filename, i); if (j == s.size()) break; while (j < s.size() && s[j] == '/') j++; if (j == s.size()) im->v.emplace_back(string_view(), _Type::_Filename, j); i = j; }
  _M_cmpts._M_impl.release(); _M_cmpts._M_impl.reset(im);
}
path::path(basic_string_view<value_type> v, _Type t) : _M_pathname(v) { _M_cmpts.type(t); }
path::_Cmpt::_Cmpt(basic_string_view<value_type> v, _Type t, size_t pos) : path(std::string(v), t), _M_pos(pos) {}
path &path::operator/=(const path &p) { if (!p._M_pathname.empty() && p._M_pathname[0] == '/') return *this = p; std::string s = _M_pathname; if (!s.empty() && s.back() != '/') s += '/'; s += p._M_pathname; _M_pathname = s; _M_split_cmpts(); return *this; }
void path::_M_append(string_view v) { *this /= path(std::string(v)); }
void path::_M_concat(string_view v) { _M_pathname.append(v.data(), v.size()); _M_split_cmpts(); }
path &path::operator+=(const path &p) { _M_concat(p._M_pathname); return *this; }
path &path::operator=(const path &p) { if (this != &p) { _M_pathname = p._M_pathname; _M_cmpts = p._M_cmpts; } return *this; }
int path::compare(const path &p) const noexcept { return _M_pathname.compare(p._M_pathname); }
int path::compare(string_view v) const noexcept { return string_view(_M_pathname).compare(v); }
path &path::remove_filename() { auto p = _M_pathname.rfind('/'); _M_pathname = p == std::string::npos ? std::string() : _M_pathname.substr(0, p + 1); _M_split_cmpts(); return *this; }
path &path::replace_extension(const path &e) { auto p = _M_pathname.rfind('.'); auto s = _M_pathname.rfind('/'); std::string b = p == std::string::npos || (s != std::string::npos && p < s) ? _M_pathname : _M_pathname.substr(0, p); if (!e._M_pathname.empty()) { if (e._M_pathname[0] != '.') b += '.'; b += e._M_pathname; } _M_pathname = b; _M_split_cmpts(); return *this; }
path path::parent_path() const { auto p = _M_pathname.rfind('/'); return p == std::string::npos ? path() : path(_M_pathname.substr(0, p ? p : 1)); }
pair<const std::string *, size_t> path::_M_find_extension() const noexcept {
  const std::string *s = nullptr; if (_M_type() == _Type::_Filename) s = &_M_pathname; else if (_M_type() == _Type::_Multi && !_M_cmpts.empty()) { const auto &c = _M_cmpts.back(); if (c._M_type() == _Type::_Filename) s = &c._M_pathname; }
  if (s && s->size()) { if (*s == "." || *s == "..") return {s, std::string::npos}; auto p = s->rfind('.'); return {s, p == 0 ? std::string::npos : p}; } return {};
}
path path::lexically_normal() const { return *this; }
file_status status(const path &p) { auto n = norm(p.native()); auto &fs = vs_fs(); if (fs.files.count(n)) return file_status(file_type::regular, perms::all); if (n == "." || n == "/" || fs.dirs.count(n)) return file_status(file_type::directory, perms::all); return file_status(file_type::not_found, perms::unknown); }
file_status status(const path &p, error_code &ec) noexcept { ec.clear(); return status(p); }
file_status symlink_status(const path &p) { return status(p); }
bool create_directory(const path &p) { if (exists(p)) return false; vs_fs().dirs[norm(p.native())] = 1; return true; }
bool create_directories(const path &p) { return create_directory(p); }
bool remove(const path &p) { auto n = norm(p.native()); return vs_fs().files.erase(n) + vs_fs().dirs.erase(n) > 0; }
bool remove(const path &p, error_code &ec) noexcept { ec.clear(); return remove(p); }
void rename(const path &a, const path &b) { auto x = norm(a.native()), y = norm(b.native()); if (!vs_fs().files.count(x)) throw filesystem_error("rename", error_code()); vs_fs().files[y] = vs_fs().files[x]; vs_fs().files.erase(x); }
uintmax_t file_size(const path &p) { return vs_fs().files[norm(p.native())].size(); }
path current_path() { return path("/cwd"); }
path absolute(const path &p) { return p.is_absolute() ? p : path("/cwd") / p; }
path temp_directory_path() { return path("/tmp"); }
bool path::has_root_directory() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
bool path::has_parent_path() const noexcept { return _M_pathname.find('/') != std::string::npos; }
bool path::has_relative_path() const noexcept { for (char c : _M_pathname) if (c != '/') return true; return false; }
bool path::has_filename() const noexcept { return !_M_pathname.empty() && _M_pathname.back() != '/'; }
file_time_type last_write_time(const path &p) { return file_time_type(file_time_type::duration(vs_fs().mtime[norm(p.native())])); }
struct filesystem_error::_Impl {};
filesystem_error::filesystem_error(const std::string &w, error_code ec) : system_error(ec, w) {}
filesystem_error::filesystem_error(const std::string &w, const path &, error_code ec) : system_error(ec, w) {}
filesystem_error::~filesystem_error() {}
const char *filesystem_error::what() const noexcept { return system_error::what(); }
}
}
