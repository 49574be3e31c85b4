// C17: cameras and calibrations against a pinhole model of the oracle's own
#include "linear.h"
#include <iostream>
#include <vital/types/camera.h>
#include <vital/types/camera_intrinsics.h>
using namespace kwiver::vital;
using namespace la;

struct P2 { double x, y; };
struct K5 { double f, px, py, a, s; std::vector<double> d; };
static double nz() { for (;;) { double v = num(); if (std::fabs(v) > 1e-2) return v; } }
static vector_3d ev(V3 v) { return vector_3d(v.x, v.y, v.z); }
static P2 distorted(const std::vector<double> &d, P2 p) {
  size_t n = d.size(); double r2 = p.x * p.x + p.y * p.y, s = 1, q = 1, ox = 0, oy = 0;
  if (n > 0) s += d[0] * r2;
  if (n > 1) s += d[1] * r2 * r2;
  if (n > 4) s += d[4] * r2 * r2 * r2;
  if (n > 7) q += d[5] * r2 + d[6] * r2 * r2 + d[7] * r2 * r2 * r2;
  if (n > 3) { ox = 2 * d[2] * p.x * p.y + d[3] * (r2 + 2 * p.x * p.x); oy = 2 * d[3] * p.x * p.y + d[2] * (r2 + 2 * p.y * p.y); }
  P2 r = {p.x * s / q + ox, p.y * s / q + oy}; return r; }
static P2 pix(const K5 &k, P2 p) { P2 d = distorted(k.d, p); P2 r = {k.f * d.x + k.s * d.y + k.px, k.f / k.a * d.y + k.py}; return r; }
static K5 rk() {
  K5 k; k.f = vh::coin() ? vh::rd(0.5, 2000) : nz(); k.px = num() * 100; k.py = num() * 100; k.a = vh::coin() ? 1 : vh::coin() ? vh::rd(0.5, 2) : nz(); k.s = vh::coin() ? 0 : num();
  static const int ns[] = {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; int n = ns[vh::ri(0, 11)]; for (int i = 0; i < n; ++i) k.d.push_back(vh::ri(0, 4) == 0 ? 0 : i == 2 || i == 3 ? vh::rd(-0.03, 0.03) : vh::rd(-0.08, 0.08)); return k; }
static simple_camera_intrinsics mk(const K5 &k) { Eigen::VectorXd d(k.d.size()); for (size_t i = 0; i < k.d.size(); ++i) d[i] = k.d[i]; return simple_camera_intrinsics(k.f, vector_2d(k.px, k.py), k.a, k.s, d); }
static std::string str(const K5 &k) { vh::Case c; c << "calibration f=" << k.f << " pp=(" << k.px << "," << k.py << ") aspect=" << k.a << " skew=" << k.s << " d=["; for (double v : k.d) c << v << ","; c << "]"; return c.str(); }
static bool same(const camera_intrinsics &c, const K5 &k, bool exact = true) {
  double e = exact ? 0 : 1e-12; std::vector<double> d = c.dist_coeffs(); vector_2d p = c.principal_point();
  return std::fabs(c.focal_length() - k.f) <= e * std::fabs(k.f) && std::fabs(c.aspect_ratio() - k.a) <= e * std::fabs(k.a) && std::fabs(c.skew() - k.s) <= e * std::fabs(k.s) && p[0] == k.px && p[1] == k.py && d == k.d; }
static bool near(P2 a, const vector_2d &b, double tol) { double s = std::max(1.0, std::max(std::fabs(a.x), std::fabs(a.y))); return std::fabs(a.x - b[0]) <= tol * s && std::fabs(a.y - b[1]) <= tol * s; }
static bool ok_lens(const K5 &k, P2 p) { if (k.d.size() <= 7) return true; double r2 = p.x * p.x + p.y * p.y; return std::fabs(1 + k.d[5] * r2 + k.d[6] * r2 * r2 + k.d[7] * r2 * r2 * r2) > 0.05; }

static void lens() {
  K5 k = rk(), k2 = rk(); simple_camera_intrinsics c = mk(k); camera_intrinsics const &b = c; P2 p = {vh::rd(-1.2, 1.2), vh::rd(-1.2, 1.2)}; if (vh::ri(0, 9) == 0) p.x = 0; if (vh::ri(0, 9) == 0) p.y = 0;
  CASE(str(k) << " point (" << p.x << "," << p.y << ")");
  EXPECT(same(b, k), "the accessors do not return the given values");
  EXPECT(c.get_focal_length() == k.f && c.get_aspect_ratio() == k.a && c.get_skew() == k.s && c.get_principal_point()[0] == k.px && c.get_principal_point()[1] == k.py && c.get_dist_coeffs().size() == (long)k.d.size(), "the references do not refer to the given values");
  Eigen::Matrix3d m = b.as_matrix(); M3 e = {{{k.f, k.s, k.px}, {0, k.f / k.a, k.py}, {0, 0, 1}}};
  EXPECT(diff(fromm(m), e) <= 1e-12 * std::fabs(k.f / k.a), "calibration matrix is " << la::str(fromm(m)));
  Eigen::VectorXd d(k.d.size()); for (size_t i = 0; i < k.d.size(); ++i) d[i] = k.d[i];
  EXPECT(same(simple_camera_intrinsics(m, d), k, false), "constructed from its own matrix");
  { simple_camera_intrinsics dflt; K5 u = {1, 0, 0, 1, 0, {}}; EXPECT(same(dflt, u), "default values"); }
  camera_intrinsics_sptr cl = b.clone(); EXPECT(cl && cl.get() != &b && same(*cl, k), "clone"); EXPECT(same(simple_camera_intrinsics(b), k), "copy of the base");
  { simple_camera_intrinsics w = c; w.set_focal_length(k2.f); w.set_principal_point(vector_2d(k2.px, k2.py)); w.set_aspect_ratio(k2.a); w.set_skew(k2.s); Eigen::VectorXd d2(k2.d.size()); for (size_t i = 0; i < k2.d.size(); ++i) d2[i] = k2.d[i]; w.set_dist_coeffs(d2);
    EXPECT(same(w, k2), "after setting " << str(k2)); EXPECT(same(b, k) && same(*cl, k), "setting the values of a copy changed the original"); }
  if (ok_lens(k, p)) {
    P2 q = distorted(k.d, p); vector_2d dp = b.distort(vector_2d(p.x, p.y)); EXPECT(near(q, dp, 1e-11), "distorted to (" << dp[0] << "," << dp[1] << ") expected (" << q.x << "," << q.y << ")");
    P2 u = pix(k, p); vector_2d up = b.map(vector_2d(p.x, p.y)); EXPECT(near(u, up, 1e-10), "mapped to (" << up[0] << "," << up[1] << ") expected (" << u.x << "," << u.y << ")");
    double z = nz(); vector_2d hp = b.map(vector_3d(p.x * z, p.y * z, z)); EXPECT(near(u, hp, 1e-9), "homogeneous point with third coordinate " << z << " mapped to (" << hp[0] << "," << hp[1] << ") expected (" << u.x << "," << u.y << ")"); }
  P2 s = {p.x / 2.5, p.y / 2.5}; P2 t = distorted(k.d, s); vector_2d w = b.undistort(vector_2d(t.x, t.y)); EXPECT(near(s, w, k.d.empty() ? 0 : 1e-10), "undistorting (" << t.x << "," << t.y << ") gives (" << w[0] << "," << w[1] << ") expected (" << s.x << "," << s.y << ")");
  if (vh::ri(0, 3) == 0)
  {
    // stronger lenses: undone as well wherever Newton's method with the exact derivative needs four of its five steps
    std::vector<double> d; int n = vh::coin() ? 8 : vh::ri(1, 9); for (int i = 0; i < n; ++i) d.push_back(i == 2 || i == 3 ? vh::rd(-0.05, 0.05) : i == 7 && vh::coin() ? vh::rd(0.2, 1.5) : vh::rd(-0.1, 0.3));
    P2 x = {vh::rd(-0.6, 0.6), vh::rd(-0.6, 0.6)}, y = distorted(d, x), g = y; bool conv = false;
    for (int i = 0; i < 4 && !conv; ++i) {
      P2 v = distorted(d, g), dx, dy; double h = 1e-6; P2 gx = {g.x + h, g.y}, gX = {g.x - h, g.y}, gy = {g.x, g.y + h}, gY = {g.x, g.y - h};
      P2 a = distorted(d, gx), A = distorted(d, gX), b = distorted(d, gy), B = distorted(d, gY);
      double ja = (a.x - A.x) / (2 * h), jb = (b.x - B.x) / (2 * h), jc = (a.y - A.y) / (2 * h), jd = (b.y - B.y) / (2 * h), det = ja * jd - jb * jc, ex = v.x - y.x, ey = v.y - y.y;
      if (!(std::fabs(det) > 0.05)) break;
      g.x -= (jd * ex - jb * ey) / det; g.y -= (ja * ey - jc * ex) / det;
      conv = std::fabs(g.x - x.x) < 1e-10 && std::fabs(g.y - x.y) < 1e-10;
    }
    if (conv) { K5 kk = k; kk.d = d; simple_camera_intrinsics ci = mk(kk); vector_2d w2 = ci.undistort(vector_2d(y.x, y.y)); EXPECT(near(x, w2, 1e-9), "lens " << str(kk) << " undistorting (" << y.x << "," << y.y << ") gives (" << w2[0] << "," << w2[1] << ") expected (" << x.x << "," << x.y << ")"); }
  }
  P2 tp = pix(k, s); double cond = 1 + std::max(std::fabs(k.px), std::fabs(k.py)) / std::fabs(k.f) * (1 + std::fabs(k.a)) + std::fabs(k.a) * (std::fabs(k.s / k.f) + 1); vector_2d un = b.unmap(vector_2d(tp.x, tp.y));
  EXPECT(near(s, un, 1e-9 * cond), "unmapping the image (" << tp.x << "," << tp.y << ") gives (" << un[0] << "," << un[1] << ") expected (" << s.x << "," << s.y << ")");
}
static bool cveq(const covariance_3d &a, const covariance_3d &b) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (a(i, j) != b(i, j)) return false; return true; }
static M3 rmat() { switch (vh::ri(0, 5)) { case 0: return ident(); default: return turn(axis(), ang()); } }
static void camera_case() {
  K5 k = rk(); if (vh::ri(0, 2)) k.d.clear(); M3 R = rmat(); V3 c = vec(), pt = vec(); simple_camera_intrinsics ki = mk(k); camera_intrinsics_sptr kp = ki.clone(); Eigen::Matrix3d er; for (int i = 0; i < 9; ++i) er(i / 3, i % 3) = R.a[i / 3][i % 3]; rotation_d rot(er);
  CASE(str(k) << " center " << la::str(c) << " rotation " << la::str(R) << " point " << la::str(pt));
  simple_camera cam(ev(c), rot, kp); camera const &b = cam;
  EXPECT(diff(from(b.center()), c) == 0 && diff(from(cam.get_center()), c) == 0, "center"); EXPECT(diff(fromm(Eigen::Matrix3d(b.rotation())), R) < 1e-9 && diff(fromm(Eigen::Matrix3d(cam.get_rotation())), R) < 1e-9, "rotation");
  EXPECT(b.intrinsics() == kp && cam.get_intrinsics() == kp, "calibration handle");
  V3 t = -1.0 * mul(R, c); double sc = 1 + len(c) + len(pt);
  EXPECT(diff(from(b.translation()), t) < 1e-9 * sc, "translation " << la::str(from(b.translation())) << " expected " << la::str(t));
  V3 q = mul(R, pt - c); EXPECT(std::fabs(b.depth(ev(pt)) - q.z) < 1e-9 * sc, "depth " << b.depth(ev(pt)) << " expected " << q.z);
  Eigen::Matrix<double, 3, 4> m = b.as_matrix(); M3 K = {{{k.f, k.s, k.px}, {0, k.f / k.a, k.py}, {0, 0, 1}}}; M3 KR = mul(K, R); V3 kt = mul(K, t); double ks = 1 + std::fabs(k.f) + std::fabs(k.f / k.a) + std::fabs(k.px) + std::fabs(k.py) + std::fabs(k.s); bool good = true;
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) good = good && std::fabs(m(i, j) - KR.a[i][j]) < 1e-9 * ks; good = good && std::fabs(m(i, 3) - (i == 0 ? kt.x : i == 1 ? kt.y : kt.z)) < 1e-9 * ks * sc; }
  EXPECT(good, "camera matrix " << la::str(fromm(m.block<3, 3>(0, 0))));
  if (std::fabs(q.z) > 0.02 * sc) { P2 im = {q.x / q.z, q.y / q.z}; if (ok_lens(k, im)) { P2 e = pix(k, im); vector_2d g = b.project(ev(pt)); double amp = 1e-7 * ks * (1 + std::fabs(im.x) + std::fabs(im.y)); if (!k.d.empty()) { double r = 1 + im.x * im.x + im.y * im.y; amp *= r * r * r * 100; }
      EXPECT(std::fabs(g[0] - e.x) <= amp && std::fabs(g[1] - e.y) <= amp, "projected to (" << g[0] << "," << g[1] << ") expected (" << e.x << "," << e.y << ")"); } }
  // copies
  camera_sptr cl = b.clone(); EXPECT(cl && cl.get() != &b && diff(from(cl->center()), c) == 0 && cl->intrinsics() == kp && diff(fromm(Eigen::Matrix3d(cl->rotation())), R) < 1e-9, "clone");
  Eigen::Matrix3d cm = Eigen::Matrix3d::Identity() * 3; cm(0, 1) = cm(1, 0) = 0.5; covariance_3d cov(cm); cam.set_center_covar(cov); EXPECT(cveq(cam.center_covar(), cov) && cveq(cam.get_center_covar(), cov), "covariance of the center");
  { simple_camera w(b); EXPECT(diff(from(w.center()), c) == 0 && w.intrinsics() == kp && cveq(w.center_covar(), cov) && w.rotation() == b.rotation(), "copy of the base");
    camera_sptr c2 = b.clone(); EXPECT(cveq(c2->center_covar(), cov), "covariance of the clone");
    V3 n = vec(); w.set_center(ev(n)); EXPECT(diff(from(w.center()), n) == 0 && diff(from(b.center()), c) == 0, "set_center"); M3 R2 = rmat(); for (int i = 0; i < 9; ++i) er(i / 3, i % 3) = R2.a[i / 3][i % 3]; w.set_rotation(rotation_d(er)); EXPECT(diff(fromm(Eigen::Matrix3d(w.rotation())), R2) < 1e-9 && diff(from(w.center()), n) == 0, "set_rotation");
    V3 tr = vec(); w.set_translation(ev(tr)); EXPECT(diff(from(w.translation()), tr) < 1e-9 * (1 + len(tr)), "translation after set_translation " << la::str(tr) << " is " << la::str(from(w.translation()))); EXPECT(diff(from(w.center()), -1.0 * mul(la::tr(R2), tr)) < 1e-9 * (1 + len(tr)), "center after set_translation");
    w.set_intrinsics(camera_intrinsics_sptr()); K5 u = {1, 0, 0, 1, 0, {}}; EXPECT(w.intrinsics() && same(*w.intrinsics(), u), "no calibration is not replaced by the default one"); camera_intrinsics_sptr k2 = mk(k).clone(); w.set_intrinsics(k2); EXPECT(w.intrinsics() == k2, "set_intrinsics"); }
  { simple_camera v(ev(c), rot, ki); EXPECT(v.intrinsics() && v.intrinsics().get() != &ki && same(*v.intrinsics(), k), "calibration is not copied"); simple_camera n(ev(c), rot); K5 u = {1, 0, 0, 1, 0, {}}; EXPECT(n.intrinsics() && same(*n.intrinsics(), u), "default calibration"); simple_camera z; EXPECT(diff(from(z.center()), v3(0, 0, 0)) == 0 && diff(fromm(Eigen::Matrix3d(z.rotation())), ident()) == 0 && z.intrinsics() && same(*z.intrinsics(), u), "default camera"); }
  // look at
  V3 up = vh::coin() ? v3(0, 0, 1) : vec(); V3 d = pt - c; double sn = len(cross(up, d)); if (len(up) > 0.1 && len(d) > 0.1 && sn > 0.05 * len(up) * len(d)) {
    if (vh::coin() && up.x == 0 && up.y == 0 && up.z == 1) cam.look_at(ev(pt)); else cam.look_at(ev(pt), ev(up)); M3 L = fromm(Eigen::Matrix3d(cam.rotation())); V3 a = mul(L, d), u = mul(L, up);
    EXPECT(std::fabs(det(L) - 1) < 1e-9 && diff(mul(L, la::tr(L)), ident()) < 1e-9, "not a rotation after look_at"); EXPECT(diff(from(cam.center()), c) == 0, "look_at moved the camera");
    EXPECT(std::fabs(a.x) < 1e-8 * len(d) && std::fabs(a.y) < 1e-8 * len(d) && std::fabs(a.z - len(d)) < 1e-8 * len(d), "look_at " << la::str(pt) << " up " << la::str(up) << " puts the point to " << la::str(a));
    EXPECT(std::fabs(u.x) < 1e-8 * len(up) && u.y < 0, "look_at " << la::str(pt) << " up " << la::str(up) << ": up appears as " << la::str(u)); }
}
static void body(const std::string &) { std::cerr.rdbuf(0); int K = vh::g_thorough ? 600000 : 25000; for (int n = 0; n < K; ++n) { lens(); camera_case(); } }
HARNESS_MAIN(body)
