// small linear algebra of the oracle's own, independent of Eigen's
#ifndef VERIF_LINEAR_H
#define VERIF_LINEAR_H
#include "h.h"
#include <cmath>
namespace la {
struct V3 { double x, y, z; };
struct M3 { double a[3][3]; };
inline V3 v3(double x, double y, double z) { V3 r = {x, y, z}; return r; }
inline V3 operator+(V3 a, V3 b) { return v3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V3 operator-(V3 a, V3 b) { return v3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V3 operator*(double s, V3 a) { return v3(s * a.x, s * a.y, s * a.z); }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return v3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline double len(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 mul(const M3 &m, V3 v) { return v3(m.a[0][0]*v.x + m.a[0][1]*v.y + m.a[0][2]*v.z, m.a[1][0]*v.x + m.a[1][1]*v.y + m.a[1][2]*v.z, m.a[2][0]*v.x + m.a[2][1]*v.y + m.a[2][2]*v.z); }
inline M3 mul(const M3 &p, const M3 &q) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.a[i][j] = 0; for (int k = 0; k < 3; ++k) r.a[i][j] += p.a[i][k] * q.a[k][j]; } return r; }
inline M3 tr(const M3 &p) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = p.a[j][i]; return r; }
inline double diff(V3 a, V3 b) { return std::max(std::fabs(a.x - b.x), std::max(std::fabs(a.y - b.y), std::fabs(a.z - b.z))); }
inline double diff(const M3 &p, const M3 &q) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = std::max(d, std::fabs(p.a[i][j] - q.a[i][j])); return d; }
// turn about the unit axis k by a
inline M3 turn(V3 k, double a) {
  double c = std::cos(a), s = std::sin(a), t = 1 - c;
  M3 r = {{{c + t*k.x*k.x, t*k.x*k.y - s*k.z, t*k.x*k.z + s*k.y}, {t*k.x*k.y + s*k.z, c + t*k.y*k.y, t*k.y*k.z - s*k.x}, {t*k.x*k.z - s*k.y, t*k.y*k.z + s*k.x, c + t*k.z*k.z}}};
  return r; }
inline M3 ident() { M3 r = {{{1,0,0},{0,1,0},{0,0,1}}}; return r; }
// unit quaternion w, x, y, z
inline M3 quat(double w, double x, double y, double z) {
  M3 r = {{{1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y)}, {2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x)}, {2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y)}}}; return r; }
inline double det(const M3 &m) { return dot(v3(m.a[0][0], m.a[0][1], m.a[0][2]), cross(v3(m.a[1][0], m.a[1][1], m.a[1][2]), v3(m.a[2][0], m.a[2][1], m.a[2][2]))); }
inline M3 inv(const M3 &m) {
  double d = det(m); M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
    r.a[i][j] = (m.a[a][c] * m.a[b][e] - m.a[a][e] * m.a[b][c]) / d; }
  return r; }
template <class V> V3 from(const V &v) { return v3(v[0], v[1], v[2]); }
template <class M> M3 fromm(const M &m) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = m(i, j); return r; }
inline std::string str(V3 v) { vh::Case c; c << "(" << v.x << "," << v.y << "," << v.z << ")"; return c.str(); }
inline std::string str(const M3 &m) { vh::Case c; for (int i = 0; i < 3; ++i) c << "[" << m.a[i][0] << "," << m.a[i][1] << "," << m.a[i][2] << "]"; return c.str(); }
// a number that is zero, small integer or generic
inline double num() { long k = vh::ri(0, 9); return k == 0 ? 0 : k < 4 ? vh::ri(-3, 3) : vh::rd(-10, 10); }
inline V3 vec() { return v3(num(), num(), num()); }
inline V3 axis() { for (;;) { V3 v = vec(); double l = len(v); if (l > 1e-3) return (1 / l) * v; } }
inline double ang() { switch (vh::ri(0, 9)) { case 0: return 0; case 1: return M_PI; case 2: return -M_PI; case 3: return M_PI / 2; case 4: return vh::rd(-1e-3, 1e-3); case 5: return vh::rd(-9, 9); default: return vh::rd(-M_PI, M_PI); } }
}
#endif
