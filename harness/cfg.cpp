// GParserBuilder, GOneTimeRefParameterT: configuration options, their defaults, and configuration files
#include "vs.hpp"
#include <string>
#include <vector>
#include <array>
#include "common/GParserBuilder.hpp"
using namespace Gem::Common; using PB = GParserBuilder; using std::string;
void vs_file_put(const string &, const string &); string vs_file_get(const string &); void vs_file_del(const string &); void vs_dir_put(const string &); extern "C" int vs_file_exists(const char *); extern "C" void vs_disk_limit(long);
static string dig(const char *n, int &v, int lo = 0, int hi = 9) { v = (int)sym_u8(n); VASSUME(v >= lo && v <= hi); return string(1, (char)('0' + v)); }
static string opt(const string &n, const string &v) { return "\"" + n + "\": { \"comment\": \"none\", \"value\": \"" + v + "\" }"; }
template <class T> static bool same(const std::vector<T> &a, const std::vector<T> &b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
// all kinds of options
struct Opts {
  int cs = -1, rs = -1, c0 = -1, n = 0, ord[9]; bool c1 = false, rb = false; string str = "-"; std::vector<int> cv, rv; std::vector<bool> bv; std::array<int, 2> ca{{-1, -1}}, ra{{-1, -1}}; double rd = -1.;
  int cnt[4] = {0, 0, 0, 0};
  void scalars(PB &g, int d0 = 11, int d1 = 12, double d2 = 0.25, bool d3 = true, const string &d4 = "a b", int d5 = 13, bool d6 = true) {
    g.registerFileParameter<int>("single", d0, [this](int x) { cs = x; cnt[0]++; ord[n++] = 0; }) << "A comment; with two parts" << std::endl << "and lines";
    g.registerFileParameter<int>("ref", rs, d1); g.registerFileParameter<double>("dref", rd, d2); g.registerFileParameter<bool>("bref", rb, d3, VAR_IS_SECONDARY, "b"); g.registerFileParameter<string>("str", str, d4);
    g.registerFileParameter<int, bool>("first", "second", d5, d6, [this](int a, bool b) { c0 = a; c1 = b; cnt[1]++; ord[n++] = 1; }, "comb") << "c1" << nextComment() << "c2";
  }
  void lists(PB &g, std::vector<int> dv = {21, 22}, std::vector<int> dr = {23}, std::vector<bool> db = {true, false}, std::array<int, 2> da = {{24, 25}}, std::array<int, 2> dar = {{26, 27}}) {
    g.registerFileParameter<int>("vec", dv, [this](std::vector<int> v) { cv = v; cnt[2]++; ord[n++] = 2; }); g.registerFileParameter<int>("vref", rv, dr); g.registerFileParameter<bool>("vbool", bv, db, VAR_IS_SECONDARY, "bools");
    g.registerFileParameter<int, 2>("arr", da, [this](std::array<int, 2> a) { ca = a; cnt[3]++; ord[n++] = 3; }) << "arr"; g.registerFileParameter<int, 2>("aref", ra, dar);
  }
};
static string join(const std::vector<string> &v) { string r = "{ "; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + v[i]; return r + " }"; }
// options in files replace defaults, missing ones do not
HARNESS h_scalar() {
  Opts o; PB g; o.scalars(g); VASSERT(g.numberOfFileOptions() == 6, "options are counted"); VASSERT(o.cs == -1 && o.rs == -1 && o.rd == -1., "nothing is assigned before parsing");
  bool p0 = sym_choice("p0", 2), p1 = sym_choice("p1", 2), p2 = sym_choice("p2", 2); unsigned q = sym_choice("comb", 4); int v0, v1, v2, v3; std::vector<string> f;
  string s0 = dig("v0", v0), s1 = dig("v1", v1), s2 = dig("v2", v2), s3 = dig("v3", v3); bool neg = p0 && p1;
  if (p1) f.push_back(opt("ref", s1)); if (q) { std::vector<string> c; if (q & 2) c.push_back(opt("second", "false")); if (q & 1) c.push_back(opt("first", s3)); f.push_back("\"comb\": " + join(c)); }
  if (p2) { f.push_back(opt("dref", "1" + s2 + ".5")); f.push_back(opt("bref", "false")); f.push_back(opt("str", "x, y=z")); } if (p0) f.push_back(opt("single", (neg ? "-" : "") + s0)); f.push_back(opt("unknown", "7"));
  vs_file_put("x.json", join(f)); VASSERT(g.parseConfigFile("x.json"), "valid files are accepted");
  VASSERT(o.cnt[0] == 1 && o.cnt[1] == 1 && o.n == 2 && o.ord[0] == 0 && o.ord[1] == 1, "each call-back is executed once, in the order of registration");
  VASSERT(o.cs == (p0 ? (neg ? -v0 : v0) : 11), "single options"); VASSERT(o.rs == (p1 ? v1 : 12), "references"); VASSERT(o.rd == (p2 ? 10 + v2 + 0.5 : 0.25) && o.rb == !p2 && o.str == (p2 ? "x, y=z" : "a b"), "fp numbers, booleans, and strings");
  VASSERT(o.c0 == ((q & 1) ? v3 : 13) && o.c1 == !(q & 2), "combined options"); vs_reach("done");
}
HARNESS h_list() {
  Opts o; PB g; o.lists(g); unsigned pv = sym_choice("pv", 4), pr = sym_choice("pr", 2), pa = sym_choice("pa", 4); int v[4]; string s[4]; for (int i = 0; i < 4; i++) s[i] = dig("v", v[i]); std::vector<string> f;
  auto items = [&](const string &n, const std::vector<string> &x) { string r = "\"" + n + "\": { \"value\": "; if (x.empty()) return r + "\"\" }"; std::vector<string> y; for (auto &z : x) y.push_back("\"item\": \"" + z + "\""); return r + join(y) + " }"; };
  std::vector<int> ev{21, 22}, er{23}; if (pv == 1) { f.push_back(items("vec", {})); ev = {}; } if (pv == 2) { f.push_back(items("vec", {s[0]})); ev = {v[0]}; } if (pv == 3) { f.push_back(items("vec", {s[0], "-" + s[1], s[2]})); ev = {v[0], -v[1], v[2]}; }
  if (pr) { f.push_back(items("vref", {s[3], s[2]})); er = {v[3], v[2]}; f.push_back(items("vbool", {"false", "true", "true"})); }
  std::vector<string> a; if (pa & 1) a.push_back(opt("0", s[0])); if (pa & 2) a.push_back(opt("1", s[1])); if (pa) { f.push_back("\"arr\": " + join(a)); f.push_back("\"aref\": " + join(a)); }
  f.push_back(opt("unknown", "1")); vs_file_put("x.json", join(f)); VASSERT(g.parseConfigFile("x.json"), "valid files are accepted");
  VASSERT(o.n == 2 && o.ord[0] == 2 && o.ord[1] == 3, "each call-back is executed once, in the order of registration"); VASSERT(same(o.cv, ev) && same(o.rv, er), "vectors"); VASSERT(same(o.bv, pr ? std::vector<bool>{false, true, true} : std::vector<bool>{true, false}), "boolean vectors");
  VASSERT((o.ca[0] == ((pa & 1) ? v[0] : 24)) & (o.ca[1] == ((pa & 2) ? v[1] : 25)) & (o.ra[0] == ((pa & 1) ? v[0] : 26)) & (o.ra[1] == ((pa & 2) ? v[1] : 27)), "arrays"); vs_reach("done");
}
// a missing file is created; its contents reproduce the defaults, whatever the defaults of the reader
static void def_run(const char *name, bool lists, int fresh) {
  int d[4]; for (int i = 0; i < 4; i++) d[i] = (int)sym_choice("d", 2) * 120 - 7; Opts o, r; bool b = d[0] > 0; double x = b ? 0.1 : 1e300;
  { PB g; lists ? o.lists(g, {d[0], d[1], 5}, {d[2]}, {b}, {{d[3], d[0]}}, {{d[1], d[2]}}) : o.scalars(g, d[0], d[1], x, b, b ? "q\"u\\o\nte" : "", d[2], b);
    if (fresh == 0) { VASSERT(g.parseConfigFile(name), "a missing file is created"); VASSERT(vs_file_exists(name), "the file exists"); VASSERT(lists ? o.n == 2 && o.cv.size() == 3 && o.cv[0] == d[0] && o.rv.size() == 1 && o.ra[1] == d[2] : o.n == 2 && o.cs == d[0] && o.rd == x && o.c0 == d[2], "defaults apply"); }
    else { g.writeConfigFile(name, fresh == 1 ? "" : "header; in two parts"); VASSERT(o.n == 0, "writing does not execute call-backs"); bool thr = false; string was = vs_file_get(name); try { g.writeConfigFile(name); } catch (const std::exception &) { thr = true; } VASSERT(thr && vs_file_get(name) == was, "existing files are not overwritten"); } }
  PB g; lists ? r.lists(g) : r.scalars(g); VASSERT(g.parseConfigFile(name), "written files are accepted");
  if (lists) { VASSERT(same(r.cv, std::vector<int>{d[0], d[1], 5}) && same(r.rv, std::vector<int>{d[2]}) && same(r.bv, std::vector<bool>{b}), "vectors survive"); VASSERT(r.ca[0] == d[3] && r.ca[1] == d[0] && r.ra[0] == d[1] && r.ra[1] == d[2], "arrays survive"); }
  else { VASSERT(r.cs == d[0] && r.rs == d[1] && r.rd == x && r.rb == b && r.c0 == d[2] && r.c1 == b, "values survive"); VASSERT(r.str == (b ? "q\"u\\o\nte" : ""), "strings survive"); }
  vs_reach("done");
}
HARNESS h_default_s() { vs_dir_put("dir"); def_run(sym_choice("dir", 2) ? "dir/x.json" : "x.json", false, sym_choice("how", 3)); }
HARNESS h_default_l() { vs_dir_put("dir"); def_run(sym_choice("dir", 2) ? "dir/x.json" : "x.json", true, sym_choice("how", 3)); }
// values read from a file are written again
HARNESS h_rewrite() {
  auto cd = [](int &x) { x = (int)sym_choice("d", 2) * 123; return std::to_string(x); }; Opts o, r; PB g; o.scalars(g); o.lists(g); unsigned nv = sym_choice("nv", 4); std::vector<string> it; int v[3]; for (unsigned i = 0; i < nv; i++) it.push_back("\"item\": \"" + cd(v[i]) + "\""); int s, a; std::vector<string> f{opt("single", cd(s)), "\"vec\": { \"value\": " + (nv ? join(it) : string("\"\"")) + " }", "\"vref\": { \"value\": { \"item\": \"3\", \"item\": \"4\" } }", "\"arr\": " + join({opt("1", cd(a))})};
  vs_file_put("x.json", join(f)); VASSERT(g.parseConfigFile("x.json"), "accepted"); g.writeConfigFile("y.json"); PB h; r.scalars(h, 1, 2); r.lists(h, {1}, {2, 3}); VASSERT(h.parseConfigFile("y.json"), "accepted");
  VASSERT(r.cs == s && r.rs == 12, "values survive"); VASSERT(same(r.cv, std::vector<int>(v, v + nv)), "vectors survive"); VASSERT(same(r.rv, std::vector<int>{3, 4}), "vectors survive"); VASSERT(r.ca[0] == 24 && r.ca[1] == a && r.ra[1] == 27, "arrays survive"); vs_reach("done");
}
// secondary options are only written upon request
HARNESS h_essential() {
  PB g; int x = 0; unsigned k = sym_choice("kind", 7); bool ess = sym_choice("essential", 2), com = sym_choice("comment", 2), all = sym_choice("all", 2); string c = com ? "text" : ""; int hit = 0; std::vector<int> rv; std::array<int, 1> ra; int dummy = 0;
  switch (k) { case 0: g.registerFileParameter<int>("o", 5, [&](int v) { hit = v; }, ess, c); break; case 1: g.registerFileParameter<int>("o", x, 5, ess, c); break;
    case 2: g.registerFileParameter<int, int>("o", "p", 5, 6, [&](int v, int) { hit = v; }, "o", ess, c, com ? "other" : ""); break; case 3: g.registerFileParameter<int>("o", std::vector<int>{5}, [&](std::vector<int> v) { hit = v[0]; }, ess, c); break;
    case 4: g.registerFileParameter<int>("o", rv, std::vector<int>{5}, ess, c); break; case 5: g.registerFileParameter<int, 1>("o", std::array<int, 1>{{5}}, [&](std::array<int, 1> v) { hit = v[0]; }, ess, c); break; default: g.registerFileParameter<int, 1>("o", ra, std::array<int, 1>{{5}}, ess, c); }
  g.registerFileParameter<int>("keep", dummy, 3); g.writeConfigFile("x.json", "head", all); string t = vs_file_get("x.json");
  VASSERT((t.find("\"o\"") != string::npos) == (all || ess), "secondary options are written if all options are requested"); VASSERT(t.find("\"keep\"") != string::npos && t.find("head") != string::npos, "options are essential by default"); VASSERT((t.find("text") != string::npos) == (com && (all || ess)), "comments are written"); VASSERT((t.find("other") != string::npos) == (k == 2 && com && (all || ess)), "each part of a pair has its own comment"); vs_reach(all || ess ? "written" : "left out");
}
// defaults can be changed before parsing
HARNESS h_reset() {
  Opts o; PB g; o.scalars(g); o.lists(g); g.resetFileParameterDefaults<int>("single", 31); g.resetFileParameterDefaults<int>("ref", 32); g.resetFileParameterDefaults<int, bool>("first", 33, false); g.resetFileParameterDefaults<int>("vec", std::vector<int>{34}); g.resetFileParameterDefaults<int, 2>("arr", std::array<int, 2>{{35, 36}}); g.resetFileParameterDefaults<int>("vref", std::vector<int>{37, 38}); g.resetFileParameterDefaults<int, 2>("aref", std::array<int, 2>{{39, 40}});
  bool create = sym_choice("create", 2); if (!create) vs_file_put("x.json", "{ \"other\": \"1\" }"); VASSERT(g.parseConfigFile("x.json"), "accepted");
  VASSERT(o.cs == 31 && o.rs == 32 && o.rd == 0.25 && o.c0 == 33 && !o.c1, "new defaults are used"); VASSERT(same(o.cv, std::vector<int>{34}) && same(o.rv, std::vector<int>{37, 38}) && o.ca[0] == 35 && o.ca[1] == 36 && o.ra[0] == 39 && o.ra[1] == 40, "new defaults are used for lists");
  Opts p; PB h; p.scalars(h); p.lists(h); int bad = 0; try { h.resetFileParameterDefaults<int>("nope", 1); } catch (const std::exception &) { bad++; } try { h.resetFileParameterDefaults<double>("single", 1.); } catch (const std::exception &) { bad++; } try { h.resetFileParameterDefaults<int>("single", std::vector<int>{1}); } catch (const std::exception &) { bad++; } try { h.resetFileParameterDefaults<int, 3>("arr", std::array<int, 3>{{1, 2, 3}}); } catch (const std::exception &) { bad++; } try { h.resetFileParameterDefaults<int, int>("first", 1, 1); } catch (const std::exception &) { bad++; }
  VASSERT(bad == 5, "unknown options and wrong types are refused"); if (create) { VASSERT(h.parseConfigFile("x.json"), "accepted"); VASSERT(p.cs == 31 && same(p.rv, std::vector<int>{37, 38}) && p.c0 == 33, "new defaults are written"); }
  vs_reach(create ? "created" : "missing");
}
// unusable files are reported and leave the options alone
HARNESS h_refuse() {
  Opts o; PB g; o.scalars(g); unsigned k = sym_choice("kind", 8); vs_dir_put("d.json"); string n = "x.json", t = "{ \"single\": { \"value\": \"5\" } }";
  switch (k) { case 0: n = "x.txt"; vs_file_put(n, t); break; case 1: n = "d.json"; break; case 2: n = "no/x.json"; break; case 3: n = "x.txt"; break; case 4: vs_file_put(n, ""); break; case 5: vs_file_put(n, t.substr(0, 8 + sym_choice("cut", 22))); break; case 6: n = "x"; vs_file_put(n, t); break; default: vs_file_put(n, t + "}"); }
  VASSERT(!g.parseConfigFile(n), "unusable files are reported"); VASSERT(o.n == 0 && o.rs == -1 && o.rd == -1., "options remain unchanged"); VASSERT(k != 2 && k != 3 || !vs_file_exists(n.c_str()), "nothing is created");
  if (k == 1 || k == 2 || k == 3) { int bad = 0; try { g.writeConfigFile(n); } catch (const std::exception &) { bad++; } VASSERT(bad == 1, "unusable targets are refused"); }
  vs_reach("done");
}
HARNESS h_fail() {
  Opts o; PB g, e; o.scalars(g); long m = (long)sym_choice("space", 3); vs_disk_limit(m * 40); bool thr = false; try { g.writeConfigFile("x.json"); } catch (const std::exception &) { thr = true; } VASSERT(thr, "incomplete files are reported"); vs_disk_limit(-1);
  thr = false; try { e.writeConfigFile("y.json"); } catch (const std::exception &) { thr = true; } VASSERT(thr && !vs_file_exists("y.json"), "without options nothing is written");
  std::vector<int> v; e.registerFileParameter<int>("v", v, std::vector<int>()); thr = false; try { e.writeConfigFile("y.json"); } catch (const std::exception &) { thr = true; } VASSERT(thr && !vs_file_exists("y.json"), "lists without default values are refused");
  thr = false; PB h; try { h.registerFileParameter<int>("v", 1, std::function<void(int)>()); } catch (const std::exception &) { thr = true; } VASSERT(thr, "empty call-backs are refused"); vs_reach("done");
}
HARNESS h_dup() {
  PB g; Opts o; o.scalars(g); o.lists(g); size_t n = g.numberOfFileOptions(); int x = 0, bad = 0; std::vector<int> v; std::array<int, 1> a; const char *nm[] = {"single", "ref", "first", "vec", "vref", "arr", "aref"}; string s = nm[sym_choice("name", 7)];
  try { g.registerFileParameter<int>(s, 1, [](int) {}); } catch (const std::exception &) { bad++; } try { g.registerFileParameter<int>(s, x, 1); } catch (const std::exception &) { bad++; } try { g.registerFileParameter<int, int>(s, "q", 1, 1, [](int, int) {}, "l"); } catch (const std::exception &) { bad++; }
  try { g.registerFileParameter<int>(s, std::vector<int>{1}, [](std::vector<int>) {}); } catch (const std::exception &) { bad++; } try { g.registerFileParameter<int>(s, v, std::vector<int>{1}); } catch (const std::exception &) { bad++; } try { g.registerFileParameter<int, 1>(s, std::array<int, 1>{{1}}, [](std::array<int, 1>) {}); } catch (const std::exception &) { bad++; } try { g.registerFileParameter<int, 1>(s, a, std::array<int, 1>{{1}}); } catch (const std::exception &) { bad++; }
  VASSERT(bad == 7 && g.numberOfFileOptions() == n, "options cannot be registered twice"); vs_reach("done");
}
// configureFromFile
struct Conf { int a = -1; int b = -1; void addConfigurationOptions(PB &g) { g.registerFileParameter<int>("a", a, 5); g.registerFileParameter<int>("b", 6, [this](int x) { b = x; }); } };
HARNESS h_object() {
  Conf c; int v; bool dir = sym_choice("dir", 2), ex = sym_choice("exists", 2); vs_dir_put("dir"); string n = dir ? "dir/x.json" : "x.json"; string t = dig("v", v); if (ex) vs_file_put(n, "{ " + opt("b", t) + " }");
  try { configureFromFile(c, n); } catch (const std::exception &e) { VASSERT(false, e.what()); } VASSERT(c.a == 5 && c.b == (ex ? v : 6) && vs_file_exists(n.c_str()), "objects are configured from files"); int bad = 0; try { configureFromFile(c, "dir"); } catch (const std::exception &) { bad++; } try { configureFromFile(c, "no/x.json"); } catch (const std::exception &) { bad++; } VASSERT(bad == 2, "unusable files are refused"); vs_reach("done");
}
// options that may be set only once
HARNESS h_once() {
  int a = sym_i32("a"), b = sym_i32("b"), c = sym_i32("c"), d = sym_i32("d"); GOneTimeRefParameterT<int> p(d); VASSERT(p.value() == d && !p.parmSet(), "default"); unsigned k = sym_choice("how", 3);
  if (k == 0) p.reference() = a; else if (k == 1) p = a; else p.setValue(a); VASSERT(p.value() == a && p.parmSet(), "the first value is used"); p.reference() = b; VASSERT(p.value() == a && (int)p == a, "later references do not change the value");
  auto q = p; VASSERT(q.value() == a && q.parmSet(), "copies"); p.reset(); VASSERT(!p.parmSet() && p.value() == a, "reset"); p.reference() = c; VASSERT(p.value() == c && q.value() == a, "values can be set again after a reset"); q = p; VASSERT(q.value() == c && q.parmSet(), "assignment");
  int x = -1; PB g; GOneTimeRefParameterT<int> r(3); r = a; g.registerFileParameter<int>("o", r.reference(), 4); g.registerFileParameter<int>("x", x, 4); vs_file_put("x.json", "{ " + opt("o", "9") + " }"); VASSERT(g.parseConfigFile("x.json") && r.value() == a && x == 4, "values set before are not replaced by configuration files"); vs_reach("done");
}
