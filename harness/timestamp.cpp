// C09 timestamp: executable specification against the real class
#include "h.h"
#include <vital/types/timestamp.h>
using namespace kwiver::vital;
struct M { bool vt, vf; long long t, f; int d; };
static std::string show(const M &m) { std::ostringstream o; o << "(time " << (m.vt ? "valid " : "invalid ") << m.t << ", frame " << (m.vf ? "valid " : "invalid ") << m.f << ", domain " << m.d << ")"; return o.str(); }
static long long big() { switch (vh::ri(0, 11)) { case 0: return 0; case 1: return -1; case 2: return (long long)(vh::rnd() >> 1); case 3: return -(long long)(vh::rnd() >> 2);
  case 4: return 4294967296ll + vh::ri(-2, 2); case 5: return 2147483648ll + vh::ri(-2, 2); case 6: return 9223372036854775807ll - vh::ri(0, 1); default: return vh::ri(-3, 3); } }
static void agree(const timestamp &s, const M &m) {
  EXPECT(s.has_valid_time() == m.vt && s.has_valid_frame() == m.vf && s.is_valid() == (m.vt && m.vf), "validity of " << show(m));
  EXPECT(s.get_time_usec() == m.t, "get_time_usec " << s.get_time_usec() << " of " << show(m));
  EXPECT((long long)s.get_frame() == m.f, "get_frame " << s.get_frame() << " of " << show(m));
  EXPECT(s.get_time_domain_index() == m.d, "domain");
  double w = (double)m.t * 1e-6; EXPECT(s.get_time_seconds() >= w - 1e-9 * std::abs(w) && s.get_time_seconds() <= w + 1e-9 * std::abs(w), "get_time_seconds " << s.get_time_seconds());
}
static timestamp make(M &m) {
  timestamp s; m.vt = m.vf = false; m.t = m.f = 0; m.d = 0; agree(s, m);
  if (vh::ri(0, 3) == 0) { m.t = big(); m.f = big(); m.vt = m.vf = true; s = timestamp((timestamp::time_t)m.t, (timestamp::frame_t)m.f); agree(s, m); }
  for (int k = (int)vh::ri(0, 5); k > 0; --k) {
    timestamp *r = 0;
    switch (vh::ri(0, 5)) {
    case 0: m.t = big(); m.vt = true; r = &s.set_time_usec(m.t); break;
    case 1: m.f = big(); m.vf = true; r = &s.set_frame(m.f); break;
    case 2: if (vh::ri(0, 2) == 0) { m.vt = m.vf = false; r = &s.set_invalid(); } else r = &s; break;
    case 3: m.d = (int)vh::ri(0, 1) ? (int)vh::ri(-1, 1) : (int)vh::rnd(); r = &s.set_time_domain_index(m.d); break;
    case 4: { double q = vh::ri(-4000000, 4000000) * 0.25; m.t = (long long)(q * 1e6); m.vt = true; r = &s.set_time_seconds(q); break; }
    default: m.d = 0; r = &s.set_time_domain_index(0);
    }
    EXPECT(r == &s, "setter does not return the object");
    agree(s, m);
  }
  return s;
}
static void rel(const timestamp &a, const M &x, const timestamp &b, const M &y) {
  bool byt = x.vt && y.vt, byf = x.vf && y.vf, cmp = x.d == y.d && (byt || byf);
  long long p = byt ? x.t : x.f, q = byt ? y.t : y.f;
  EXPECT((a == b) == (cmp && p == q), "operator== is " << (a == b));
  EXPECT((a != b) == (cmp && p != q), "operator!= is " << (a != b));
  EXPECT((a < b) == (cmp && p < q), "operator< is " << (a < b));
  EXPECT((a > b) == (cmp && p > q), "operator> is " << (a > b));
}
static void body(const std::string &) {
  int N = vh::g_thorough ? 600000 : 60000;
  for (int n = 0; n < N; ++n) {
    vh::begin("sequence of setters, case " + std::to_string(n));
    M x, y; timestamp a = make(x), b = make(y);
    if (vh::ri(0, 3) == 0 && x.vf && y.vf) { y.f = x.f; b.set_frame(x.f); }
    if (vh::ri(0, 3) == 0 && x.vt && y.vt) { y.t = x.t < 9223372036854775807ll ? x.t + vh::ri(0, 1) : x.t; b.set_time_usec(y.t); }
    CASE(show(x) << " compared with " << show(y));
    rel(a, x, b, y); rel(b, y, a, x); rel(a, x, a, x); agree(a, x); agree(b, y);
    if (n % 50 == 0) {
      std::string p = a.pretty_print();
      EXPECT(p.find("nan") == std::string::npos && p.size() > 3, p);
      std::ostringstream o; o << a; EXPECT(o.str() == p, "operator<<");
      EXPECT(x.vf ? p.find("f: " + std::to_string(x.f)) != std::string::npos : p.find("<inv>") != std::string::npos, "frame is not in " << p);
      EXPECT(x.vt || p.find("<inv>") != std::string::npos, "invalid time is not in " << p);
    }
  }
}
HARNESS_MAIN(body)
