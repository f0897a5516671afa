// Texts: lists of numbers, pairs, durations, fragments, enumerations
#include "vs.hpp"
#include <sstream>
#include <limits>
#include "common/GCommonHelperFunctions.hpp"
#include "common/GCommonHelperFunctionsT.hpp"
#include "common/GCommonEnums.hpp"
#include "courtier/GCourtierEnums.hpp"
#include "geneva/GOptimizationEnums.hpp"
#include "hap/GHapEnums.hpp"
using std::string; using namespace Gem::Common; using U = unsigned; using u64 = std::uint64_t; typedef std::vector<U> UV;
static string chars(unsigned n, const char *set = nullptr) { // n symbolic characters, from a set or any of ASCII
  string s; for (unsigned i = 0; i < n; i++) { uint8_t c = sym_u8("c"); bool in = set == nullptr && (c >= 1) & (c < 128); if (set) { in = false; for (const char *p = set; *p; p++) in = in | (c == (uint8_t)*p); } vs_assume(in); s.push_back((char)c); } return s;
}
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); } static bool dg(char c) { return c >= '0' && c <= '9'; }
struct Rd { const string &s; size_t p = 0; explicit Rd(const string &x) : s(x) {} void skip() { while (p < s.size() && ws(s[p])) p++; } bool lit(char c) { skip(); if (p < s.size() && s[p] == c) { p++; return true; } return false; } bool num(U &v) { skip(); if (p >= s.size() || !dg(s[p])) return false; u64 x = 0; while (p < s.size() && dg(s[p])) { x = x * 10 + (s[p] - '0'); if (x > 0xffffffffull) return false; p++; } v = (U)x; return true; } bool end() { skip(); return p == s.size(); } };
static bool refU(const string &s, char sep, UV &v) { Rd r(s); U x; if (!r.num(x)) return false; v.push_back(x); while (!r.end()) { if (!r.lit(sep) || !r.num(x)) return false; v.push_back(x); } return true; }
template <class F> static bool refused(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static void uints(const string &s, char sep) { UV e, v; bool ok = refU(s, sep, e), ref = refused([&] { v = sep == ',' ? stringToUIntVec(s) : stringToUIntVec(s, sep); }); VASSERT(ref == !ok, "exactly the lists of numbers are accepted"); if (ok) { VASSERT(v.size() == e.size(), "number of entries"); for (size_t i = 0; i < e.size(); i++) VASSERT(v[i] == e[i], "values in order"); } vs_reach(ok ? "list" : "refused"); }
HARNESS h_uints() { uints(chars(sym_choice("length", 4)), ','); }
HARNESS h_uints_long() { uints(chars(5, "0 9,x"), ','); }
HARNESS h_uints_sep() { uints(chars(sym_choice("length", 4)), ':'); }
HARNESS h_uints_limit() { string s = "42949672"; s += chars(2, "0123456789"); s += sym_choice("more", 2) ? "" : ",7"; uints(s, ','); }
HARNESS h_tuples() {
  string s = chars(sym_choice("length", 2), "(1 "); s += "("; s += chars(2, "1 ,x"); s += ","; s += chars(1, "2 )"); s += ")"; if (sym_choice("two", 2)) { s += chars(1, ", x"); s += "(3, 4)"; } s += chars(sym_choice("tail", 2), ", )");
  std::vector<std::pair<U, U>> e; bool ok = true; { Rd r(s); for (;;) { U a, b; if (!(r.lit('(') && r.num(a) && r.lit(',') && r.num(b) && r.lit(')'))) { ok = false; break; } e.emplace_back(a, b); if (r.end()) break; if (!r.lit(',')) { ok = false; break; } } }
  std::vector<std::tuple<U, U>> v; bool ref = refused([&] { v = stringToUIntTupleVec(s); }); VASSERT(ref == !ok, "exactly the lists of pairs are accepted"); if (ok) { VASSERT(v.size() == e.size(), "number of entries"); for (size_t i = 0; i < e.size(); i++) VASSERT(std::get<0>(v[i]) == e[i].first && std::get<1>(v[i]) == e[i].second, "values in order"); } vs_reach(ok ? "list" : "refused");
}
HARNESS h_doubles() {
  unsigned n = 1 + sym_choice("numbers", 2); string s; double e[2]; bool ok = true; for (unsigned i = 0; i < n; i++) { if (i) s += sym_choice("blanks", 2) ? " , " : ","; unsigned k = sym_choice("form", 7), a = sym_choice("a", 10); double h = a; string d(1, (char)('0' + a)); switch (k) { case 0: s += d; break; case 1: s += "-" + d; h = -h; break; case 2: s += d + ".5"; h += 0.5; break; case 3: s += "1" + d + ".25"; h += 10.25; break; case 4: s += d + "e2"; h *= 100.; break; case 5: s += "x"; ok = false; break; default: ok = false; } e[i] = h; }
  if (ok && sym_choice("rest", 2)) { s += ";"; ok = false; } std::vector<double> v; bool ref = refused([&] { v = stringToDoubleVec(s); }); VASSERT(ref == !ok, "exactly the lists of numbers are accepted"); if (ok) { VASSERT(v.size() == n, "number of entries"); for (unsigned i = 0; i < n; i++) VASSERT(v[i] == e[i], "values in order"); } vs_reach(ok ? "list" : "refused");
}
HARNESS h_doubles_precise() { // numbers of up to 16 digits are exact as double precision values, but not as single precision ones
  string s = "4503599"; s += chars(1, "0123456789"); s += "27370"; s += chars(1, "0123456789"); double e = 0; for (char c : s) e = 10. * e + (c - '0'); bool neg = sym_choice("negative", 2); std::vector<double> v; bool r = refused([&] { v = stringToDoubleVec((neg ? "-" : "") + s + ", 16777217"); });
  VASSERT(!r && v.size() == 2 && v[0] == (neg ? -e : e) && v[1] == 16777217., "values keep their precision"); vs_reach("precise");
}
HARNESS h_duration() {
  unsigned n = sym_choice("fields", 5); string s; U f[4]; for (unsigned i = 0; i < n; i++) { if (i) s += ":"; static const char *t[6] = {"0", "1", "09", "59", "61", "1000"}; string d = t[sym_choice("number", 6)]; f[i] = 0; for (char c : d) f[i] = f[i] * 10 + (c - '0'); s += d; } bool bad = n == 0 || n == 4; if (!bad && sym_choice("other", 2)) { s += sym_choice("kind", 2) ? "x" : ":"; bad = true; }
  std::chrono::duration<double> d{}; bool ref = refused([&] { d = duration_from_string(s); }); VASSERT(ref == bad, "exactly texts of the form h:m:s, m:s or s are accepted"); if (!bad) { U want = n == 1 ? f[0] : n == 2 ? 60 * f[0] + f[1] : 3600 * f[0] + 60 * f[1] + f[2]; VASSERT(d.count() == (double)want, "duration"); } vs_reach(bad ? "refused" : "duration");
}
static std::vector<string> refSplit(const string &s, char sep) { std::vector<string> r; string c; auto flush = [&] { size_t a = 0, b = c.size(); while (a < b && ws(c[a])) a++; while (b > a && ws(c[b - 1])) b--; if (b > a) r.push_back(c.substr(a, b - a)); c.clear(); }; for (char x : s) if (x == sep) flush(); else c.push_back(x); flush(); return r; }
static void split(const string &s, char sep) { auto e = refSplit(s, sep), v = splitString(s, string(1, sep).c_str()); VASSERT(v.size() == e.size(), "number of fragments"); for (size_t i = 0; i < e.size(); i++) VASSERT(v[i] == e[i], "fragments without surrounding blanks, in order"); vs_reach(e.empty() ? "empty" : "fragments"); }
HARNESS h_split() { split(chars(sym_choice("length", 4)), ','); }
HARNESS h_split_long() { split(chars(5, "a ,"), sym_choice("separator", 2) ? ',' : 'a'); }
HARNESS h_split_types() {
  unsigned n = sym_choice("items", 3); string s, t; int v[2][2]; for (unsigned i = 0; i < n; i++) { if (i) { s += ","; t += " "; } for (int j = 0; j < 2; j++) { bool neg = sym_choice("negative", 2); string d(1, "05"[sym_choice("digit", 2)]); v[i][j] = neg ? -(d[0] - '0') : d[0] - '0'; string x = (neg ? "-" : "") + d; if (j == 0) s += x; t += x + (j ? "" : "/"); } }
  auto a = splitStringT<int>(s, ","); auto b = splitStringT<int, int>(t, " ", "/"); VASSERT(a.size() == n && b.size() == n, "number of items"); for (unsigned i = 0; i < n; i++) VASSERT(a[i] == v[i][0] && std::get<0>(b[i]) == v[i][0] && std::get<1>(b[i]) == v[i][1], "values in order"); VASSERT(refused([&] { splitStringT<int, int>(t, "/", "/"); }), "identical separators are refused"); VASSERT(refused([&] { splitStringT<int>("1,x", ","); }), "other texts are refused"); vs_reach("done");
}
template <class E> static void rt() { // every value can be written and read back
  ENUMBASETYPE k = (ENUMBASETYPE)sym_choice("value", 11); E e = static_cast<E>(k), f = static_cast<E>(k ? 0 : 1); std::ostringstream o; o << e; string t = o.str(); VASSERT(!t.empty(), "text"); std::istringstream i(t + " 7"); i >> f; VASSERT(f == e, "enumerations survive their textual form"); int rest = 0; i >> rest; VASSERT(rest == 7, "nothing else is read"); E g = boost::lexical_cast<E>(t); VASSERT(g == e, "conversion from text"); VASSERT(boost::lexical_cast<string>(e) == t, "conversion to text"); vs_reach("done");
}
HARNESS h_enum() {
  using namespace Gem::Courtier; using namespace Gem::Geneva;
  switch (sym_choice("type", 26)) { case 0: rt<parameter_source>(); break; case 1: rt<sortOrder>(); break; case 2: rt<dimensions>(); break; case 3: rt<logType>(); break; case 4: rt<triboolStates>(); break; case 5: rt<serializationMode>(); break; case 6: rt<expectation>(); break; case 7: rt<sortOrder>(); break; case 8: rt<networked_consumer_payload_command>(); break; case 9: rt<beast_ping_state>(); break; case 10: rt<submissionReturnMode>(); break; case 11: rt<processingStatus>(); break; case 12: rt<consumerType>(); break; case 13: rt<maxMode>(); break; case 14: rt<activityMode>(); break; case 15: rt<validityCheckCombinerPolicy>(); break; case 16: rt<evaluationPolicy>(); break; case 17: rt<execMode>(); break; case 18: rt<duplicationScheme>(); break; case 19: rt<infoMode>(); break; case 20: rt<adaptorId>(); break; case 21: rt<sortingMode>(); break; case 22: rt<sortingModeMP>(); break; case 23: rt<updateRule>(); break; case 24: rt<adaptionMode>(); break; default: rt<Gem::Hap::RANDFLAVOURS>(); }
}
