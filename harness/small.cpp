// C19 tokenize, C20 geo_lat_lon: executable specification against the real code
#include "h.h"
#include <list>
#include <limits>
#include <cmath>
#include <vital/util/tokenize.h>
#include <vital/types/geo_lat_lon.h>
using namespace kwiver::vital;

static std::string list(const std::vector<std::string> &v) { std::string r = "["; for (auto &s : v) r += vh::q(s) + " "; return r + "]"; }
static std::vector<std::string> pieces(const std::string &s, const std::string &d, bool trim) {
  std::vector<std::string> r; std::string cur;
  for (size_t i = 0; i <= s.size(); ++i) {
    if (i == s.size() || d.find(s[i]) != std::string::npos) { if (!trim || !cur.empty()) r.push_back(cur); cur.clear(); } else cur += s[i]; }
  return r;
}
static void c19() {
  int N = vh::g_thorough ? 1000000 : 60000;
  for (int n = 0; n < N; ++n) {
    std::string s, d; 
    switch (vh::ri(0, 3)) { case 0: s = vh::rs("a, ;", 0, 12); break; case 1: s = vh::rs(" ,", 0, 6); break; case 2: s = vh::rs("ab", 0, 5); break; default: for (long k = vh::ri(0, 20); k > 0; --k) s += (char)(vh::coin() ? vh::ri(0, 255) : ' '); }
    switch (vh::ri(0, 5)) { case 0: d = " "; break; case 1: d = ""; break; case 2: d = ", ;"; break; case 3: d = std::string(1, 0); break; default: d = vh::rs(", ;ab", 0, 3); }
    bool trim = vh::coin(); std::vector<std::string> t, want; for (long k = vh::ri(0, 2); k > 0; --k) t.push_back(vh::rs("x ", 0, 2));
    CASE("tokenize(" << vh::q(s) << ", " << list(t) << ", " << vh::q(d) << ", " << trim << ")");
    want = t; for (auto &x : pieces(s, d, trim)) want.push_back(x);
    std::string s0 = s, d0 = d; std::vector<std::string> t0 = t; std::list<std::string> l(t.begin(), t.end());
    tokenize(s, t, d, trim);
    EXPECT(t == want, "got " << list(t) << " expected " << list(want));
    EXPECT(s == s0 && d == d0, "the arguments changed");
    tokenize(s, l, d, trim); EXPECT(std::vector<std::string>(l.begin(), l.end()) == want, "other container: different tokens");
    if (!trim && !d.empty() && t0.empty()) { size_t p = 0; for (size_t i = 0; i < t.size(); ++i) { EXPECT(s.compare(p, t[i].size(), t[i]) == 0, "the pieces do not give the text back"); p += t[i].size() + 1; } EXPECT(p == s.size() + 1, "the pieces do not cover the text"); }
    if (d == " ") { std::vector<std::string> u = t0; if (trim) tokenize(s, u, d, true); else tokenize(s, u); EXPECT(u == want, "default arguments"); }
  }
}

static double num() {
  static const double s[] = { 0, -0.0, 90, -90, 180, -180, 360, -360, 444, 443.9999, 91, -91, 90.000001, -90.000001, 180.5, 360.0001, -180.0001, 1e300, -1e300, 5e-324 };
  switch (vh::ri(0, 5)) { case 0: return vh::rd(-500, 500); case 1: return vh::rd(-95, 95); case 2: { double x = s[vh::rnd() % 20]; return std::nextafter(x, vh::coin() ? 1e308 : -1e308); }
  case 3: return vh::ri(0, 20) ? s[vh::rnd() % 20] : (vh::coin() ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity() * (vh::coin() ? 1 : -1)); default: return s[vh::rnd() % 20]; } }
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }
static void agree(const geo_lat_lon &g, double la, double lo) {
  EXPECT(same(g.get_latitude(), la) && same(g.get_longitude(), lo), "stored " << g.get_latitude() << " / " << g.get_longitude());
  bool v = la >= -90 && la <= 90 && lo >= -180 && lo <= 360;
  EXPECT(g.is_valid() == v, "is_valid() is " << g.is_valid());
  EXPECT(g.is_empty() == (la == 444 && lo == 444), "is_empty() is " << g.is_empty());
}
static void c20() {
  int N = vh::g_thorough ? 2000000 : 200000; geo_lat_lon e; vh::begin("default"); agree(e, 444, 444); EXPECT(geo_lat_lon::INVALID == 444.0, "INVALID");
  for (int n = 0; n < N; ++n) {
    double a = num(), b = num(), c = num(), d = num(); if (vh::ri(0, 2) == 0) c = a; if (vh::ri(0, 2) == 0) d = b;
    CASE("(" << a << "," << b << ") and (" << c << "," << d << ")");
    geo_lat_lon x(a, b), y; agree(x, a, b);
    EXPECT(&y.set_latitude(c) == &y, "returns the object"); agree(y, c, 444);
    EXPECT(&y.set_longitude(d) == &y, "returns the object"); agree(y, c, d);
    bool eq = a == c && b == d;
    EXPECT((x == y) == eq && (y == x) == eq && (x != y) == !eq && (y != x) == !eq, "equality " << (x == y) << (x != y));
    geo_lat_lon z(x); agree(z, a, b); z = y; agree(z, c, d); z.set_longitude(b); agree(z, c, b); z.set_latitude(a); agree(z, a, b); agree(y, c, d);
    if (n % 200 == 0) { std::ostringstream o; o.precision(5); o << x; EXPECT(o.precision() == 5, "printing changed the stream"); double p = 0, q = 0; if (a == a && b == b && std::fabs(a) < 1e200 && std::fabs(b) < 1e200) { EXPECT(sscanf(o.str().c_str(), "[ %lf / %lf ]", &p, &q) == 2 && same(p, a) && same(q, b), "printed as " << o.str()); } }
  }
}
static void body(const std::string &p) { if (p == "C19") c19(); else c20(); }
HARNESS_MAIN(body)
