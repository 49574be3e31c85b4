// C25: essential and fundamental matrices against matrix arithmetic of the oracle's own
#include "linear.h"
#include <iostream>
#include <vital/types/essential_matrix.h>
#include <vital/types/fundamental_matrix.h>
using namespace kwiver::vital;
using namespace la;

template <class T> Eigen::Matrix<T, 3, 3> em(const M3 &m) { Eigen::Matrix<T, 3, 3> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = static_cast<T>(m.a[i][j]); return r; }
template <class T> Eigen::Matrix<T, 3, 1> ev(V3 v) { return Eigen::Matrix<T, 3, 1>(static_cast<T>(v.x), static_cast<T>(v.y), static_cast<T>(v.z)); }
template <class M> M3 back(const M &m) { return fromm(m.template cast<double>()); }
static M3 tx(V3 t) { M3 r = {{{0, -t.z, t.y}, {t.z, 0, -t.x}, {-t.y, t.x, 0}}}; return r; }
static M3 scaled(const M3 &m, double s) { M3 r = m; for (int i = 0; i < 9; ++i) r.a[i / 3][i % 3] *= s; return r; }
static double norm(const M3 &m) { double d = 0; for (int i = 0; i < 9; ++i) d += m.a[i / 3][i % 3] * m.a[i / 3][i % 3]; return std::sqrt(d); }
static M3 unitm(const M3 &m) { return scaled(m, 1 / norm(m)); }
static M3 rotm(const rotation_d &r) { return fromm(Eigen::Matrix3d(r)); }
static M3 rr() { switch (vh::ri(0, 5)) { case 0: return ident(); default: return turn(axis(), ang()); } }
static double either(const M3 &a, const M3 &b) { return std::min(diff(a, b), diff(a, scaled(b, -1))); }

template <class T> void essential() {
  double eps = sizeof(T) == 8 ? 1e-9 : 2e-4; M3 R = rr(); V3 t = vh::ri(0, 3) ? vec() : axis(); if (len(t) < 1e-2) t = v3(0, 0, vh::coin() ? 1 : -2); double s = vh::coin() ? 1 : (vh::coin() ? -1 : 1) * vh::rd(0.1, 20);
  CASE((sizeof(T) == 8 ? "double" : "float") << " essential matrix, rotation " << str(R) << " translation " << str(t) << " scale " << s);
  rotation_<T> rot(em<T>(R)); essential_matrix_<T> E(rot, ev<T>(t)); essential_matrix const &b = E; V3 u = (1 / len(t)) * t; M3 e = mul(tx(u), R);
  EXPECT(diff(fromm(b.matrix()), e) < eps && diff(back(E.compute_matrix()), e) < eps, "matrix " << str(fromm(b.matrix())) << " expected " << str(e));
  EXPECT(diff(rotm(b.rotation()), R) < eps && diff(rotm(rotation_d(static_cast<rotation_d>(E.get_rotation()))), R) < eps, "rotation"); EXPECT(diff(from(b.translation()), u) < eps && diff(from(E.get_translation().template cast<double>()), u) < eps, "translation " << str(from(b.translation())));
  M3 tw = mul(turn(u, M_PI), R); EXPECT(diff(rotm(b.twisted_rotation()), tw) < eps && diff(rotm(b.essential_matrix::twisted_rotation()), tw) < eps, "twisted rotation " << str(rotm(b.twisted_rotation())) << " expected " << str(tw));
  { V3 x = vec(), y = mul(R, x) + vh::rd(-5, 5) * t; EXPECT(std::fabs(dot(y, mul(fromm(b.matrix()), x))) < eps * (1 + len(x)) * (1 + len(y)), "corresponding directions " << str(x) << " " << str(y)); }
  essential_matrix_sptr k = b.clone(); EXPECT(k && k.get() != &b && diff(fromm(k->matrix()), fromm(b.matrix())) == 0, "clone"); essential_matrix_<T> g(b), g2(E); EXPECT(diff(fromm(g.matrix()), fromm(b.matrix())) < eps && diff(fromm(g2.matrix()), fromm(b.matrix())) == 0, "copy");
  essential_matrix_<T> D(em<T>(scaled(e, s))); M3 d = fromm(static_cast<essential_matrix const &>(D).matrix()); EXPECT(either(d, e) < eps * 10, "built from " << str(scaled(e, s)) << " gives " << str(d));
  M3 dr = rotm(D.rotation()); EXPECT(std::fabs(det(dr) - 1) < eps * 10 && diff(mul(dr, tr(dr)), ident()) < eps * 10 && std::fabs(len(from(D.translation())) - 1) < eps * 10, "not a rotation and a unit vector"); EXPECT(std::min(diff(dr, R), diff(dr, tw)) < eps * 100, "rotation " << str(dr) << " is neither " << str(R) << " nor " << str(tw));
  V3 dt = from(D.translation()); EXPECT(std::min(len(dt - u), len(dt + u)) < eps * 10, "translation " << str(dt));
  // any matrix: the closest essential matrix shares the singular directions
  M3 m; for (int i = 0; i < 9; ++i) m.a[i / 3][i % 3] = static_cast<T>(num()); essential_matrix_<T> A(em<T>(m)); M3 a = fromm(static_cast<essential_matrix const &>(A).matrix()), p = mul(tr(a), m), q = mul(m, tr(a)); double ns = norm(m) + 1;
  EXPECT(diff(p, tr(p)) < eps * 10 * ns && diff(q, tr(q)) < eps * 10 * ns && std::fabs(norm(a) - std::sqrt(2.)) < eps * 10, "built from " << str(m) << " gives " << str(a));
}
template <class T> void fundamental() {
  double eps = sizeof(T) == 8 ? 1e-9 : 2e-4; M3 R = rr(); V3 t = axis(); M3 e = mul(tx(t), R), K1 = {{{vh::rd(0.5, 3), 0.1, num() / 5}, {0, vh::rd(0.5, 3), num() / 5}, {0, 0, 1}}}, K2 = K1; K2.a[0][0] = vh::rd(0.5, 3); K2.a[1][2] = num() / 5; M3 f = mul(mul(inv(tr(K2)), e), inv(K1));
  M3 m; for (int i = 0; i < 9; ++i) m.a[i / 3][i % 3] = static_cast<T>(num()); if (norm(m) < 0.1) m = ident();
  if (vh::ri(0, 3) == 0) { M3 a = rr(), b = rr(), d = {{{1, 0, 0}, {0, 0, 0}, {0, 0, 0}}}; for (int i = 1; i < 3; ++i) d.a[i][i] = vh::coin() ? 0 : std::pow(10., -vh::rd(0, 12)); m = scaled(mul(mul(a, d), tr(b)), std::pow(10., vh::rd(-3, 3))); for (int i = 0; i < 9; ++i) m.a[i / 3][i % 3] = static_cast<T>(m.a[i / 3][i % 3]); }
  CASE((sizeof(T) == 8 ? "double" : "float") << " fundamental matrix from " << str(f) << " and " << str(m));
  fundamental_matrix_<T> F(em<T>(f)); fundamental_matrix const &b = F; M3 g = fromm(b.matrix()); EXPECT(diff(g, unitm(f)) < eps * 10, "a singular matrix becomes " << str(g) << " expected " << str(unitm(f)));
  { V3 x = vec(), y = mul(R, x) + vh::rd(-5, 5) * t; x = mul(K1, x); y = mul(K2, y); EXPECT(std::fabs(dot(y, mul(g, x))) < eps * 10 * (1 + len(x)) * (1 + len(y)), "corresponding image points"); }
  fundamental_matrix_sptr k = b.clone(); EXPECT(k && k.get() != &b && diff(fromm(k->matrix()), g) == 0, "clone"); fundamental_matrix_<T> c(b), c2(F); EXPECT(diff(fromm(c.matrix()), g) < eps && diff(fromm(c2.matrix()), g) == 0, "copy");
  fundamental_matrix_<T> A(em<T>(m)); M3 a = fromm(static_cast<fundamental_matrix const &>(A).matrix()), p = mul(tr(a), m), q = mul(m, tr(a)); double ns = norm(m) + 1;
  EXPECT(std::fabs(det(a)) < eps * 10 && std::fabs(norm(a) - 1) < eps * 10 && diff(p, tr(p)) < eps * 10 * ns && diff(q, tr(q)) < eps * 10 * ns, "built from " << str(m) << " gives " << str(a) << " determinant " << det(a));
}
static void body(const std::string &) { std::cerr.rdbuf(0); int K = vh::g_thorough ? 400000 : 20000; for (int n = 0; n < K; ++n) { essential<double>(); essential<float>(); fundamental<double>(); fundamental<float>(); } }
HARNESS_MAIN(body)
