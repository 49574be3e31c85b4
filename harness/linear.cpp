// executable oracle of C15: rotations and similarities as maps on points
#include "linear.h"
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <iomanip>
using namespace kwiver::vital;
using namespace la;

template <class T> struct Run {
  typedef rotation_<T> R; typedef similarity_<T> S;
  typedef Eigen::Matrix<T, 3, 1> P; typedef Eigen::Matrix<T, 3, 3> M;
  static double tol() { return sizeof(T) == 8 ? 1e-9 : 2e-3; }
  static P p(V3 v) { return P(T(v.x), T(v.y), T(v.z)); }
  static V3 up(V3 v) { return v3(T(v.x), T(v.y), T(v.z)); }
  // the map of a rotation, read off its quaternion
  static M3 map(const R &r) { Eigen::Quaternion<T> q = r.quaternion(); return quat(q.w(), q.x(), q.y(), q.z()); }
  static bool unit(const R &r) { Eigen::Quaternion<T> q = r.quaternion(); return std::fabs(q.w()*q.w() + q.x()*q.x() + q.y()*q.y() + q.z()*q.z() - 1) < tol(); }
  static R make(V3 k, double a) { return R(Eigen::Quaternion<T>(T(std::cos(a / 2)), T(std::sin(a / 2) * k.x), T(std::sin(a / 2) * k.y), T(std::sin(a / 2) * k.z))); }
  // all ways to read a rotation agree with the map m
  static void reads(const R &r, const M3 &m, const char *what) {
    EXPECT(unit(r), what << ": quaternion is not unit");
    EXPECT(diff(map(r), m) < tol(), what << ": quaternion stands for " << str(map(r)) << ", expected " << str(m));
    EXPECT(diff(fromm(M(r)), m) < tol(), what << ": matrix is " << str(fromm(M(r))) << ", expected " << str(m));
    V3 x = up(vec());
    EXPECT(diff(from(P(r * p(x))), mul(m, x)) < 40 * tol(), what << ": point " << str(x) << " maps to " << str(from(P(r * p(x)))) << ", expected " << str(mul(m, x)));
    V3 k = from(r.axis()); double a = r.angle();
    EXPECT(std::fabs(len(k) - 1) < tol(), what << ": axis has length " << len(k));
    EXPECT(a >= -M_PI - tol() && a <= M_PI + tol(), what << ": angle " << a << " exceeds half a turn");
    EXPECT(diff(turn(k, a), m) < tol() * 10, what << ": axis " << str(k) << " and angle " << a << " stand for " << str(turn(k, a)) << ", expected " << str(m));
    V3 rv = from(r.rodrigues()); double n = len(rv);
    EXPECT(diff(n > 0 ? turn((1 / n) * rv, n) : ident(), m) < tol() * 10, what << ": Rodrigues vector " << str(rv) << " does not stand for " << str(m));
    EXPECT(diff(map(R(r.rodrigues())), m) < tol() * 10, what << ": rebuilt from its Rodrigues vector");
    EXPECT(diff(map(R(r.angle(), r.axis())), m) < tol() * 10, what << ": rebuilt from angle and axis");
    EXPECT(diff(map(R(M(r))), m) < tol() * 10, what << ": rebuilt from its matrix");
    T y, pt, ro; r.get_yaw_pitch_roll(y, pt, ro);
    if (std::hypot(m.a[1][2], m.a[2][2]) > 1e-2) EXPECT(diff(map(R(y, pt, ro)), m) < tol() * 100, what << ": rebuilt from yaw, pitch and roll " << y << " " << pt << " " << ro << " gives " << str(map(R(y, pt, ro))) << ", expected " << str(m));
  }
  static M3 ypr(double y, double p, double r) { M3 ned = {{{0,1,0},{1,0,0},{0,0,-1}}}; return mul(turn(v3(1,0,0), -r), mul(turn(v3(0,1,0), -p), mul(turn(v3(0,0,1), -y), ned))); }
  static R pick(M3 &m) {
    V3 k = axis(); double a = ang(); m = turn(k, a);
    double s = 1, h = a / 2;
    switch (vh::ri(0, 5)) {
      case 0: m = ident(); return R();
      case 1: { R r(Eigen::Quaternion<T>(T(std::cos(h)), T(std::sin(h)*k.x), T(std::sin(h)*k.y), T(std::sin(h)*k.z))); return r; }
      case 2: s = -1; { R r(Eigen::Quaternion<T>(T(s*std::cos(h)), T(s*std::sin(h)*k.x), T(s*std::sin(h)*k.y), T(s*std::sin(h)*k.z))); return r; }
      case 3: { double f = vh::rd(0.1, 5); return R(T(a), p(f * k)); }
      case 4: { M e; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e(i, j) = T(m.a[i][j]); return R(e); }
      default: { return R(p(a * k)); }
    }
  }
  static void rotations(int n) {
    for (int it = 0; it < n; ++it) {
      M3 ma, mb; uint64_t s0 = vh::g_s; R a = pick(ma), b = pick(mb);
      CASE((sizeof(T) == 8 ? "double" : "float") << " rotations " << str(ma) << " and " << str(mb) << " state " << s0);
      reads(a, ma, "rotation"); reads(b, mb, "rotation");
      reads(a * b, mul(ma, mb), "composition"); reads(a.inverse(), tr(ma), "inverse");
      reads(a * a.inverse(), ident(), "rotation after its inverse");
      Eigen::Quaternion<T> q = a.quaternion();
      reads(R(Eigen::Matrix<T, 4, 1>(q.coeffs())), ma, "from coefficients");
      R c(a); EXPECT(c == a && !(c != a), "copy differs");
      R d(Eigen::Quaternion<T>(q.w(), q.x(), q.y(), q.z())); EXPECT(d == a && !(d != a), "same quaternion differs");
      for (int k = 0; k < 4; ++k) { T v[4] = {q.w(), q.x(), q.y(), q.z()}; v[k] += T(0.25); R e(Eigen::Quaternion<T>(v[0], v[1], v[2], v[3])); EXPECT(!(e == a) && e != a && !(a == e), "rotations with different quaternion compare equal (coefficient " << k << ")"); }
      c = b; EXPECT(c == b, "assignment");
      double y = ang(), pi = ang(), ro = ang();
      vh::begin((vh::Case() << "yaw " << T(y) << " pitch " << T(pi) << " roll " << T(ro)).str());
      reads(R(T(y), T(pi), T(ro)), ypr(T(y), T(pi), T(ro)), "yaw, pitch, roll");
      vh::begin((vh::Case() << "text form of " << str(ma)).str());
      std::stringstream ss; ss << std::setprecision(17) << a; R f; ss >> f;
      EXPECT(diff(map(f), ma) < tol(), "read back as " << str(map(f)));
      // interpolation
      double fr = vh::ri(0, 3) ? vh::rd(0, 1) : vh::ri(0, 1);
      vh::begin((vh::Case() << "interpolation of " << str(ma) << " and " << str(mb) << " at " << T(fr)).str());
      M3 rel = mul(tr(ma), mb); double ca = (rel.a[0][0] + rel.a[1][1] + rel.a[2][2] - 1) / 2; ca = std::max(-1.0, std::min(1.0, ca)); double full = std::acos(ca);
      V3 ax = v3(rel.a[2][1] - rel.a[1][2], rel.a[0][2] - rel.a[2][0], rel.a[1][0] - rel.a[0][1]); double al = len(ax);
      M3 g = map(interpolate_rotation(a, b, T(0))); EXPECT(diff(g, ma) < 10 * tol(), "at 0: " << str(g));
      g = map(interpolate_rotation(a, b, T(1))); EXPECT(diff(g, mb) < 10 * tol(), "at 1: " << str(g));
      if (al > 0.05) { g = map(interpolate_rotation(a, b, T(fr))); M3 w = mul(ma, turn((1 / al) * ax, full * T(fr))); EXPECT(diff(g, w) < 100 * tol(), "gives " << str(g) << ", expected " << str(w)); }
      if (al > 0.05 && it % 4 == 0) {
        size_t cnt = vh::ri(0, 6), pre = vh::ri(0, 2); std::vector<R> l; for (size_t k = 0; k < pre; ++k) l.push_back(b);
        interpolated_rotations(a, b, cnt, l);
        EXPECT(l.size() == pre + cnt, "list of " << l.size() << " for " << cnt << " after " << pre);
        for (size_t k = 0; k < pre; ++k) EXPECT(l[k] == b, "earlier element changed");
        for (size_t k = 0; k < cnt; ++k) { M3 w = mul(ma, turn((1 / al) * ax, full * (k + 1) / (cnt + 1))); EXPECT(diff(map(l[pre + k]), w) < 100 * tol(), "element " << k << " of " << cnt << " is " << str(map(l[pre + k])) << ", expected " << str(w)); }
      }
    }
  }
  struct Sim { double s; M3 m; V3 t; V3 at(V3 x) const { return s * mul(m, x) + t; } };
  static S pickS(Sim &w) {
    R r = pick(w.m); w.s = vh::ri(0, 3) ? vh::rd(0.2, 5) : vh::ri(1, 3); w.t = up(vec()); w.s = T(w.s);
    if (vh::ri(0, 5) == 0) { w.s = 1; w.m = ident(); w.t = v3(0, 0, 0); return S(); }
    if (vh::ri(0, 2)) return S(T(w.s), r, p(w.t));
    Eigen::Matrix<T, 4, 4> e; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) e(i, j) = i == 3 ? T(j == 3) : j == 3 ? T(i == 0 ? w.t.x : i == 1 ? w.t.y : w.t.z) : T(w.s * w.m.a[i][j]);
    return S(e);
  }
  static void check(const S &s, const Sim &w, const char *what) {
    double t = tol() * 100 * (1 + std::fabs(w.s));
    for (int k = 0; k < 3; ++k) {
      V3 x = up(vec());
      EXPECT(diff(from(P(s * p(x))), w.at(x)) < t, what << ": point " << str(x) << " maps to " << str(from(P(s * p(x)))) << ", expected " << str(w.at(x)));
      Eigen::Matrix<T, 4, 4> m(s); Eigen::Matrix<T, 4, 1> h = m * Eigen::Matrix<T, 4, 1>(T(x.x), T(x.y), T(x.z), T(1));
      EXPECT(diff(v3(h(0), h(1), h(2)), w.at(x)) < t && h(3) == T(1), what << ": matrix form maps " << str(x) << " to " << str(v3(h(0), h(1), h(2))) << " over " << h(3) << ", expected " << str(w.at(x)));
      EXPECT(m(3, 0) == 0 && m(3, 1) == 0 && m(3, 2) == 0 && m(3, 3) == 1, what << ": last row of the matrix form");
    }
    EXPECT(std::fabs(s.scale() - w.s) < t && diff(from(s.translation()), w.t) < t && diff(map(s.rotation()), w.m) < 10 * tol(), what << ": parts");
  }
  static Sim comp(const Sim &a, const Sim &b) { Sim r; r.s = a.s * b.s; r.m = mul(a.m, b.m); r.t = a.at(b.t); return r; }
  static Sim invs(const Sim &a) { Sim r; r.s = 1 / a.s; r.m = tr(a.m); r.t = (-1 / a.s) * mul(r.m, a.t); return r; }
  static void similarities(int n) {
    for (int it = 0; it < n; ++it) {
      uint64_t s0 = vh::g_s; Sim wa, wb, wc; S a = pickS(wa), b = pickS(wb);
      CASE((sizeof(T) == 8 ? "double" : "float") << " similarities " << wa.s << " " << str(wa.m) << " " << str(wa.t) << " and " << wb.s << " " << str(wb.m) << " " << str(wb.t) << " state " << s0);
      check(a, wa, "similarity"); check(b, wb, "similarity");
      check(a * b, comp(wa, wb), "composition"); check(a.inverse(), invs(wa), "inverse");
      S i = a * a.inverse(); Sim id; id.s = 1; id.m = ident(); id.t = v3(0, 0, 0); check(i, id, "composition with the inverse");
      check(S(Eigen::Matrix<T, 4, 4>(a)), wa, "rebuilt from its matrix");
      double ns = -vh::rd(0.3, 3); S neg(T(ns), a.rotation(), a.translation()); Sim wn = wa; wn.s = T(ns); check(neg, wn, "negative scale"); check(neg.inverse(), invs(wn), "inverse with negative scale");
      S c(a); EXPECT(c == a && !(c != a), "copy differs");
      EXPECT(S(a.scale(), a.rotation(), a.translation()) == a, "same parts differ");
      S d1(a.scale() + 1, a.rotation(), a.translation()), d2(a.scale(), make(axis(), 1), a.translation()), d3(a.scale(), a.rotation(), a.translation() + P(0, 0, 1));
      EXPECT(d1 != a && !(d1 == a), "different scale compares equal"); EXPECT(d2 != a && !(d2 == a), "different rotation compares equal"); EXPECT(d3 != a && !(d3 == a), "different translation compares equal");
      std::stringstream ss; ss << std::setprecision(17) << a; S f; ss >> f; check(f, wa, "read back");
      c = b; check(c, wb, "assigned");
    }
  }
};

static void body(const std::string &) {
  int n = vh::g_thorough ? 20000 : 900;
  Run<double>::rotations(n); Run<float>::rotations(n / 2);
  Run<double>::similarities(n); Run<float>::similarities(n / 2);
  for (int it = 0; it < n; ++it) {
    M3 m; rotation_<double> a = Run<double>::pick(m); CASE("precision conversion of " << str(m));
    rotation_<float> f(a); EXPECT(diff(Run<float>::map(f), m) < 1e-5, "double to float"); rotation_<double> g(f); EXPECT(diff(Run<double>::map(g), m) < 1e-5, "float to double");
    EXPECT(g.quaternion().x() == f.quaternion().x() && g.quaternion().y() == f.quaternion().y() && g.quaternion().z() == f.quaternion().z() && g.quaternion().w() == f.quaternion().w(), "not exact");
    Run<double>::Sim w; similarity_<double> s = Run<double>::pickS(w); similarity_<float> sf(s); Run<float>::Sim wf; wf.s = w.s; wf.m = w.m; wf.t = w.t; Run<float>::check(sf, wf, "double to float");
    similarity_<double> sd(sf); EXPECT(sd.scale() == sf.scale() && sd.translation()[0] == sf.translation()[0] && sd.translation()[1] == sf.translation()[1] && sd.translation()[2] == sf.translation()[2] && sd.rotation() == rotation_<double>(sf.rotation()), "float to double");
  }
}
HARNESS_MAIN(body)
