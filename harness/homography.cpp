// C16: homographies against matrix arithmetic of the oracle's own
#include "linear.h"
#include <iostream>
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/exceptions/math.h>
using namespace kwiver::vital;
using namespace la;

template <class T> struct P { static double eps() { return sizeof(T) == 8 ? 1e-12 : 1e-5; } static double tol() { return sizeof(T) == 8 ? 1e-11 : 1e-3; } };
static M3 rm() {
  M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = num();
  switch (vh::ri(0, 11)) { case 0: return ident(); case 1: for (int j = 0; j < 3; ++j) m.a[2][j] = m.a[0][j] * 2; break; case 2: m.a[2][2] = 0; break; case 3: m.a[2][0] = m.a[2][1] = 0; m.a[2][2] = 1; break; case 4: m.a[2][2] = vh::coin() ? 1e-13 : 1e-7; break;
    case 5: for (int i = 0; i < 9; ++i) m.a[i / 3][i % 3] = vh::ri(-2, 2); break; case 6: { double s = vh::coin() ? 1e-3 : 1e3; for (int i = 0; i < 9; ++i) m.a[i / 3][i % 3] *= s; } break; case 7: m = turn(axis(), ang()); break; case 8: m.a[2][0] = m.a[2][1] = m.a[2][2] = 0; break; default:; }
  return m; }
template <class T> Eigen::Matrix<T, 3, 3> em(const M3 &m) { Eigen::Matrix<T, 3, 3> r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = static_cast<T>(m.a[i][j]); return r; }
template <class M> M3 back(const M &m) { return fromm(m.template cast<double>()); }
static double big(const M3 &m) { double d = 0; for (int i = 0; i < 9; ++i) d = std::max(d, std::fabs(m.a[i / 3][i % 3])); return d; }

// mapping by m must agree with the dehomogenized product
template <class FN> void check_map(const char *what, const M3 &m, double x, double y, double eps, double tol, FN f) {
  V3 h = mul(m, v3(x, y, 1)); double s = std::fabs(m.a[2][0] * x) + std::fabs(m.a[2][1] * y) + std::fabs(m.a[2][2]), err = s * tol;
  bool sure_inf = std::fabs(h.z) + (s == 0 ? 0 : s * tol * 1e-3) <= eps, sure_fin = std::fabs(h.z) - err > eps; bool thrown = false; double u = 0, v = 0;
  try { Eigen::Matrix<double, 2, 1> r = f(x, y); u = r[0]; v = r[1]; } catch (point_maps_to_infinity const &) { thrown = true; }
  if (sure_inf) EXPECT(thrown, what << ": the point goes to infinity (third coordinate " << h.z << ") and no error was raised");
  if (sure_fin) EXPECT(!thrown, what << ": error for a finite image (third coordinate " << h.z << ")");
  if (!thrown && std::fabs(h.z) > 1000 * err) { double sx = (std::fabs(m.a[0][0] * x) + std::fabs(m.a[0][1] * y) + std::fabs(m.a[0][2])) / std::fabs(h.z), sy = (std::fabs(m.a[1][0] * x) + std::fabs(m.a[1][1] * y) + std::fabs(m.a[1][2])) / std::fabs(h.z), k = s / std::fabs(h.z) + 1;
    EXPECT(std::fabs(u - h.x / h.z) <= tol * k * (sx + 1) && std::fabs(v - h.y / h.z) <= tol * k * (sy + 1), what << ": got (" << u << "," << v << ") expected (" << h.x / h.z << "," << h.y / h.z << ")"); }
}
template <class T> void one() {
  M3 a = back(em<T>(rm())), b = back(em<T>(rm())); double x = static_cast<T>(num()), y = static_cast<T>(num()); if (vh::ri(0, 5) == 0 && a.a[2][0] != 0) x = static_cast<T>(-(a.a[2][1] * y + a.a[2][2]) / a.a[2][0]);
  CASE((sizeof(T) == 8 ? "double " : "float ") << str(a) << " " << str(b) << " point (" << x << "," << y << ")");
  homography_<T> A(em<T>(a)), B(em<T>(b)), I; homography const &base = A;
  EXPECT(diff(back(I.get_matrix()), ident()) == 0, "default is not the identity"); EXPECT(diff(back(A.get_matrix()), a) == 0 && diff(fromm(base.matrix()), a) == 0, "stored matrix");
  check_map("map", a, x, y, 1e-12, 1e-11, [&](double p, double q) { return base.map(Eigen::Vector2d(p, q)); });
  check_map("map_point", a, x, y, P<T>::eps(), P<T>::tol(), [&](double p, double q) { return Eigen::Matrix<double, 2, 1>(A.map_point(Eigen::Matrix<T, 2, 1>(static_cast<T>(p), static_cast<T>(q))).template cast<double>()); });
  homography_<T> C = A * B; EXPECT(diff(back(C.get_matrix()), mul(a, b)) <= P<T>::tol() * (1 + 3 * big(a) * big(b)), "product is " << str(back(C.get_matrix())));
  homography_sptr k = A.clone(); EXPECT(k && k.get() != &base && diff(fromm(k->matrix()), a) == 0, "clone");
  { homography_<T> G(base), G2(A); EXPECT(diff(back(G.get_matrix()), a) == 0 && diff(back(G2.get_matrix()), a) == 0, "copy"); G.get_matrix()(1, 2) += 1; EXPECT(diff(back(A.get_matrix()), a) == 0 && diff(fromm(k->matrix()), a) == 0, "a copy shares its matrix"); A.get_matrix()(0, 1) += 1; EXPECT(diff(fromm(k->matrix()), a) == 0, "the clone shares its matrix"); A.get_matrix()(0, 1) = static_cast<T>(a.a[0][1]); }
  homography_sptr n = base.normalize(); M3 nm = fromm(n->matrix()); double s = a.a[2][2];
  if (std::fabs(s) > 1.01 * P<T>::eps()) { EXPECT(nm.a[2][2] == 1, "normalized matrix has " << nm.a[2][2] << " in its last place"); for (int i = 0; i < 9; ++i) EXPECT(std::fabs(nm.a[i / 3][i % 3] * s - a.a[i / 3][i % 3]) <= P<T>::tol() * std::fabs(a.a[i / 3][i % 3]), "normalized " << str(nm)); }
  else if (std::fabs(s) < 0.99 * P<T>::eps()) EXPECT(diff(nm, a) == 0, "normalized without a scale " << str(nm));
  EXPECT(diff(back(A.get_matrix()), a) == 0, "normalize changed the object");
  double d = det(a), bg = big(a), derr = 100 * bg * bg * bg * (sizeof(T) == 8 ? 1e-16 : 1e-7); bool thrown = false; homography_sptr v; try { v = base.inverse(); } catch (non_invertible_matrix const &) { thrown = true; }
  if (std::fabs(d) + derr <= P<T>::eps()) EXPECT(thrown, "singular matrix inverted"); if (std::fabs(d) - derr > P<T>::eps()) EXPECT(!thrown, "error for an invertible matrix of determinant " << d);
  if (v && std::fabs(d) > 1000 * derr) { M3 w = fromm(v->matrix()); EXPECT(diff(mul(w, a), ident()) <= P<T>::tol() * (1 + 30 * big(w) * bg) && diff(mul(a, w), ident()) <= P<T>::tol() * (1 + 30 * big(w) * bg), "inverse is " << str(w)); }
}
static frame_id_t fid() { switch (vh::ri(0, 4)) { case 0: return (frame_id_t) vh::rnd(); case 1: return vh::ri(-3, 3); default: return vh::ri(0, 4); } }
static void frames() {
  M3 a = rm(), b = rm(); frame_id_t p = fid(), q = fid(), r = vh::coin() ? q : fid(), s = fid(); CASE("frames " << p << " <- " << q << " and " << r << " <- " << s << " " << str(a) << " " << str(b));
  f2f_homography A(em<double>(a), q, p), B(homography_sptr(new homography_<double>(em<double>(b))), s, r); EXPECT(A.from_id() == q && A.to_id() == p && B.from_id() == s && B.to_id() == r, "frames"); EXPECT(diff(fromm(A.homography()->matrix()), a) == 0 && diff(fromm(B.homography()->matrix()), b) == 0, "matrices");
  bool thrown = false; try { f2f_homography C = A * B; EXPECT(C.from_id() == s && C.to_id() == p, "frames of the composition " << C.from_id() << " -> " << C.to_id()); EXPECT(diff(fromm(C.homography()->matrix()), mul(a, b)) <= 1e-11 * (1 + 3 * big(a) * big(b)), "matrix of the composition"); } catch (invalid_matrix_operation const &) { thrown = true; }
  EXPECT(thrown == (q != r), (thrown ? "composition refused" : "composition of frames that do not meet")); EXPECT(A.from_id() == q && A.to_id() == p && diff(fromm(A.homography()->matrix()), a) == 0, "composition changed an operand");
  if (std::fabs(det(a)) > 1e-3) { f2f_homography V = A.inverse(); EXPECT(V.from_id() == p && V.to_id() == q, "frames of the inverse"); M3 w = fromm(V.homography()->matrix()); EXPECT(diff(mul(w, a), ident()) <= 1e-11 * (1 + 30 * big(w) * big(a)), "inverse"); }
  if (big(a) > 0 && det(a) == 0 && a.a[2][0] == 0 && a.a[2][1] == 0 && a.a[2][2] == 0) { bool t = false; try { A.inverse(); } catch (non_invertible_matrix const &) { t = true; } EXPECT(t, "singular matrix inverted"); }
  f2f_homography K(A); EXPECT(K.from_id() == q && K.to_id() == p && diff(fromm(K.homography()->matrix()), a) == 0 && K.homography() != A.homography(), "copy");
  f2f_homography I(p); EXPECT(I.from_id() == p && I.to_id() == p && diff(fromm(I.homography()->matrix()), ident()) == 0, "identity");
  homography_sptr hs(new homography_<float>(em<float>(b))); M3 bf = fromm(hs->matrix()); f2w_homography W(hs, q), W2(W), W0(s); f2f_homography X(hs, p, q); dynamic_cast<homography_<float> &>(*hs).get_matrix()(0, 0) += 1;
  EXPECT(W.frame_id() == q && W2.frame_id() == q && W0.frame_id() == s, "frame to world: frames"); EXPECT(diff(fromm(W.homography()->matrix()), bf) == 0 && diff(fromm(W2.homography()->matrix()), bf) == 0 && diff(fromm(W0.homography()->matrix()), ident()) == 0 && diff(fromm(X.homography()->matrix()), bf) == 0, "stored homographies follow the original"); EXPECT(W.homography() != W2.homography(), "copies share their homography");
}
static void body(const std::string &) { std::cerr.rdbuf(0); int K = vh::g_thorough ? 400000 : 25000; for (int n = 0; n < K; ++n) { one<double>(); one<float>(); frames(); } }
HARNESS_MAIN(body)
