// C14 covariance, C26 features, landmarks, descriptors, colors and sets
#include "h.h"
#include <cmath>
#include <algorithm>
#include <iostream>
#include <vital/types/covariance.h>
#include <vital/types/feature.h>
#include <vital/types/feature_set.h>
#include <vital/types/landmark.h>
#include <vital/types/landmark_map.h>
#include <vital/types/descriptor.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/color.h>
using namespace kwiver::vital;

template <class T> T num() { static const double s[] = { 0, -0.0, 1, -1, 3, 1e-12, 1e30, -1e30, 0.1, 1e-30 }; return static_cast<T>(vh::coin() ? vh::rd(-100, 100) : s[vh::rnd() % 10]); }
template <class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
template <class T> bool near(T a, double b) { return same<T>(a, static_cast<T>(b)) || std::fabs(a - b) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(b); }
static std::ostringstream &fmt(std::ostringstream &o) { o.precision(17); return o; }

// ---- C14
template <unsigned N, class T> void cov_fill(covariance_<N, T> &c, T a[N][N]) { for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j <= i; ++j) { a[i][j] = a[j][i] = num<T>(); if (vh::coin()) c(i, j) = a[i][j]; else c(j, i) = a[i][j]; } }
template <unsigned N, class T> void cov_is(const covariance_<N, T> &c, T a[N][N], const char *what) {
  covariance_<N, T> &w = const_cast<covariance_<N, T> &>(c); Eigen::Matrix<T, N, N> m = c.operator Eigen::Matrix<T, N, N>();
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) {
    EXPECT(same<T>(c(i, j), a[i][j]), what << ": element (" << i << "," << j << ") is " << c(i, j) << ", expected " << a[i][j]);
    EXPECT(same<T>(m(i, j), a[i][j]), what << ": matrix element (" << i << "," << j << ") is " << m(i, j));
    EXPECT(&w(i, j) == &w(j, i), what << ": (" << i << "," << j << ") and (" << j << "," << i << ") are different places");
    EXPECT(&w(i, j) >= w.data() && &w(i, j) < w.data() + N * (N + 1) / 2, what << ": (" << i << "," << j << ") lies outside the data");
    for (unsigned k = 0; k < N; ++k) for (unsigned l = 0; l < N; ++l) EXPECT((&w(i, j) == &w(k, l)) == ((i == k && j == l) || (i == l && j == k)), what << ": place of (" << i << "," << j << ") and (" << k << "," << l << ")"); }
}
template <unsigned N, class T, class O> void cov_one() {
  typedef covariance_<N, T> C; T a[N][N]; C c; cov_fill<N, T>(c, a);
  { vh::Case k; k << "covariance_<" << N << ", " << (sizeof(T) == 8 ? "double" : "float") << ">"; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j <= i; ++j) k << " " << a[i][j]; vh::begin(k.str()); }
  cov_is<N, T>(c, a, "set");
  C d(c); cov_is<N, T>(d, a, "copy"); C e; e = c; cov_is<N, T>(e, a, "assigned"); e = e; cov_is<N, T>(e, a, "self assigned");
  covariance_<N, O> o(c); O b[N][N]; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) b[i][j] = static_cast<O>(a[i][j]); cov_is<N, O>(o, b, "other precision");
  C back(o); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) EXPECT(same<T>(back(i, j), static_cast<T>(b[i][j])), "converted back (" << i << "," << j << ")");
  unsigned p = vh::ri(0, N - 1), q = vh::ri(0, N - 1); T v = num<T>(); d(p, q) = v; cov_is<N, T>(c, a, "original after a change of the copy"); T a2[N][N]; memcpy(a2, a, sizeof a); a2[p][q] = a2[q][p] = v; cov_is<N, T>(d, a2, "changed copy");
  Eigen::Matrix<T, N, N> m; for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) m(i, j) = num<T>();
  C f(m); const Eigen::Matrix<T, N, N> fm = f.operator Eigen::Matrix<T, N, N>();
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) { double w = (double(m(i, j)) + double(m(j, i))) / 2; double s = std::fabs(m(i, j)) + std::fabs(m(j, i)); EXPECT(std::fabs(fm(i, j) - w) <= 4 * std::numeric_limits<T>::epsilon() * s, "from matrix: (" << i << "," << j << ") is " << fm(i, j) << ", symmetric part " << w); EXPECT(same<T>(fm(i, j), f(j, i)), "from matrix: not symmetric"); }
  C s(v); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) EXPECT(same<T>(s(i, j), i == j ? v : T(0)), "from scalar " << v << ": (" << i << "," << j << ") is " << s(i, j));
}
static void c14() {
  int K = vh::g_thorough ? 60000 : 4000;
  for (int n = 0; n < K; ++n) { cov_one<2, double, float>(); cov_one<2, float, double>(); cov_one<3, double, float>(); cov_one<3, float, double>(); cov_one<4, double, float>(); cov_one<4, float, double>(); }
}

// ---- C26
static rgb_color color() { return rgb_color((unsigned char) vh::ri(0, 255), (unsigned char) vh::ri(0, 255), (unsigned char) vh::ri(0, 255)); }
static bool eqc(rgb_color a, rgb_color b) { return a.r == b.r && a.g == b.g && a.b == b.b; }
template <int N, class A, class B> bool eqv(const A &a, const B &b) { for (int i = 0; i < N; ++i) if (!(a[i] == b[i])) return false; return true; }
template <int N, class A, class B> bool eqm(const A &a, const B &b) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (!(a(i, j) == b(i, j))) return false; return true; }

template <class T> struct F { Eigen::Matrix<T, 2, 1> loc; T mag, scale, angle; covariance_<2, T> cov; rgb_color col; };
template <class T> F<T> rf() { F<T> f; f.loc << num<T>(), num<T>(); f.mag = num<T>(); f.scale = num<T>(); f.angle = num<T>(); T a[2][2]; cov_fill<2, T>(f.cov, a); f.col = color(); return f; }
template <class T> void is(const feature_<T> &x, const F<T> &f, const char *w) {
  EXPECT((eqv<2>(x.get_loc(), f.loc)), w << ": location " << x.get_loc().transpose()); EXPECT(x.get_magnitude() == f.mag, w << ": magnitude " << x.get_magnitude()); EXPECT(x.get_scale() == f.scale, w << ": scale " << x.get_scale());
  EXPECT(x.get_angle() == f.angle, w << ": angle " << x.get_angle()); EXPECT((eqm<2>(x.get_covar(), f.cov)), w << ": covariance"); EXPECT(eqc(x.get_color(), f.col), w << ": color " << x.get_color());
  const feature &b = x; EXPECT((eqv<2>(b.loc(), f.loc)), w << ": loc() " << b.loc().transpose()); EXPECT(b.magnitude() == double(f.mag) && b.scale() == double(f.scale) && b.angle() == double(f.angle), w << ": double precision values");
  covariance_2d c = b.covar(); EXPECT((eqm<2>(c, f.cov)), w << ": covar()"); EXPECT(eqc(b.color(), f.col), w << ": color()"); EXPECT(b.data_type() == typeid(T) && feature_<T>::static_data_type() == typeid(T), w << ": type");
}
template <class T, class O> void feat() {
  F<T> f = rf<T>(), g = rf<T>(), z; CASE("feature_<" << (sizeof(T) == 8 ? "double" : "float") << "> " << f.loc.transpose() << " " << f.mag << " " << f.scale << " " << f.angle << " " << f.col << " " << f.cov(0, 0) << " " << f.cov(0, 1) << " " << f.cov(1, 1));
  feature_<T> d; EXPECT(d.get_loc()[0] == 0 && d.get_loc()[1] == 0 && d.get_magnitude() == 0 && d.get_scale() == 1 && d.get_angle() == 0 && eqc(d.get_color(), rgb_color(255, 255, 255)), "default feature");
  feature_<T> x(f.loc, f.mag, f.scale, f.angle, f.col); x.set_covar(f.cov); is<T>(x, f, "constructed");
  feature_<T> y(x); is<T>(y, f, "copy"); feature_<T> w; w = x; is<T>(w, f, "assigned");
  z = f; for (int k = 0; k < 4; ++k) switch (vh::ri(0, 5)) { case 0: y.set_loc(g.loc); z.loc = g.loc; break; case 1: y.set_magnitude(g.mag); z.mag = g.mag; break; case 2: y.set_scale(g.scale); z.scale = g.scale; break; case 3: y.set_angle(g.angle); z.angle = g.angle; break; case 4: y.set_covar(g.cov); z.cov = g.cov; break; default: y.set_color(g.col); z.col = g.col; }
  is<T>(y, z, "after setters"); is<T>(x, f, "original after changes of the copy");
  feature_<T> v(static_cast<const feature &>(x)); is<T>(v, f, "from the base class, same precision");
  feature_<O> o(static_cast<const feature &>(x)); F<O> h; h.loc = f.loc.template cast<O>(); h.mag = static_cast<O>(f.mag); h.scale = static_cast<O>(f.scale); h.angle = static_cast<O>(f.angle); h.cov = covariance_<2, O>(f.cov); h.col = f.col; is<O>(o, h, "other precision");
  feature_<T> p(f.loc); EXPECT(eqv<2>(p.get_loc(), f.loc) && p.get_magnitude() == 0 && p.get_scale() == 1 && p.get_angle() == 0 && eqc(p.get_color(), rgb_color()), "feature from its location");
}

template <class T> struct L { Eigen::Matrix<T, 3, 1> loc, normal; T scale; covariance_<3, T> cov; rgb_color col; unsigned obs; };
template <class T> L<T> rl() { L<T> f; f.loc << num<T>(), num<T>(), num<T>(); f.normal << num<T>(), num<T>(), num<T>(); f.scale = num<T>(); T a[3][3]; cov_fill<3, T>(f.cov, a); f.col = color(); f.obs = vh::coin() ? vh::ri(0, 50) : (unsigned) vh::rnd(); return f; }
template <class T> void isl(const landmark_<T> &x, const L<T> &f, const char *w) {
  EXPECT((eqv<3>(x.get_loc(), f.loc)), w << ": location " << x.get_loc().transpose()); EXPECT((eqv<3>(x.get_normal(), f.normal)), w << ": normal " << x.get_normal().transpose()); EXPECT(x.get_scale() == f.scale, w << ": scale " << x.get_scale());
  EXPECT((eqm<3>(x.get_covar(), f.cov)), w << ": covariance"); EXPECT(eqc(x.get_color(), f.col), w << ": color " << x.get_color()); EXPECT(x.get_observations() == f.obs, w << ": observations " << x.get_observations());
  const landmark &b = x; EXPECT((eqv<3>(b.loc(), f.loc)) && (eqv<3>(b.normal(), f.normal)) && b.scale() == double(f.scale), w << ": double precision values"); covariance_3d c = b.covar(); EXPECT((eqm<3>(c, f.cov)), w << ": covar()"); EXPECT(eqc(b.color(), f.col) && b.observations() == f.obs, w << ": color or observations");
  EXPECT(landmark_<T>::data_type() == typeid(T), w << ": type");
}
template <class T, class O> void land() {
  L<T> f = rl<T>(), g = rl<T>(), z; CASE("landmark_<" << (sizeof(T) == 8 ? "double" : "float") << "> " << f.loc.transpose() << " / " << f.normal.transpose() << " " << f.scale << " " << f.col << " " << f.obs);
  landmark_<T> d; EXPECT(d.get_loc().isZero(0) && d.get_normal().isZero(0) && d.get_scale() == 1 && d.get_observations() == 0 && eqc(d.get_color(), rgb_color(255, 255, 255)), "default landmark");
  landmark_<T> q(f.loc, f.scale); EXPECT(eqv<3>(q.get_loc(), f.loc) && q.get_scale() == f.scale && q.get_normal().isZero(0) && q.get_observations() == 0, "constructed"); landmark_<T> q1(f.loc); EXPECT(eqv<3>(q1.get_loc(), f.loc) && q1.get_scale() == 1, "from its location");
  landmark_<T> x(f.loc, f.scale); x.set_normal(f.normal); x.set_covar(f.cov); x.set_color(f.col); x.set_observations(f.obs); isl<T>(x, f, "constructed and set");
  landmark_<T> y(x); isl<T>(y, f, "copy"); landmark_<T> w; w = x; isl<T>(w, f, "assigned");
  landmark_sptr k = x.clone(); landmark_<T> *kp = dynamic_cast<landmark_<T> *>(k.get()); EXPECT(kp && kp != &x, "clone is no landmark of the same type"); isl<T>(*kp, f, "clone");
  z = f; for (int n = 0; n < 4; ++n) switch (vh::ri(0, 5)) { case 0: y.set_loc(g.loc); kp->set_loc(g.loc); z.loc = g.loc; break; case 1: y.set_normal(g.normal); kp->set_normal(g.normal); z.normal = g.normal; break; case 2: y.set_scale(g.scale); kp->set_scale(g.scale); z.scale = g.scale; break;
    case 3: y.set_observations(g.obs); kp->set_observations(g.obs); z.obs = g.obs; break; case 4: y.set_covar(g.cov); kp->set_covar(g.cov); z.cov = g.cov; break; default: y.set_color(g.col); kp->set_color(g.col); z.col = g.col; }
  isl<T>(y, z, "after setters"); isl<T>(*kp, z, "clone after setters"); isl<T>(x, f, "original after changes of the copies");
  landmark_<T> v(static_cast<const landmark &>(x)); isl<T>(v, f, "from the base class, same precision");
  landmark_<O> o(static_cast<const landmark &>(x)); L<O> h; h.loc = f.loc.template cast<O>(); h.normal = f.normal.template cast<O>(); h.scale = static_cast<O>(f.scale); h.cov = covariance_<3, O>(f.cov); h.col = f.col; h.obs = f.obs; isl<O>(o, h, "other precision");
}

template <class T> T elem() { return sizeof(T) == 1 ? static_cast<T>(vh::ri(0, 255)) : static_cast<T>(num<double>()); }
template <class T> void has(const descriptor_array_of<T> &d, const std::vector<T> &v, const char *w) {
  EXPECT(d.size() == v.size(), w << ": size " << d.size()); EXPECT(d.num_bytes() == v.size() * sizeof(T), w << ": num_bytes " << d.num_bytes());
  for (size_t i = 0; i < v.size(); ++i) EXPECT(same<T>(d.raw_data()[i], v[i]), w << ": element " << i);
  std::vector<double> a = d.as_double(); EXPECT(a.size() == v.size(), w << ": as_double has " << a.size()); for (size_t i = 0; i < v.size(); ++i) EXPECT(same<double>(a[i], double(v[i])), w << ": as_double element " << i << " is " << a[i]);
  std::vector<byte> b = d.as_bytes(); EXPECT(b.size() == v.size() * sizeof(T), w << ": as_bytes has " << b.size()); EXPECT(v.empty() || memcmp(b.data(), v.data(), b.size()) == 0, w << ": bytes");
}
template <class T> void fill(descriptor_array_of<T> &d, std::vector<T> &v) { v.resize(d.size()); for (size_t i = 0; i < v.size(); ++i) d.raw_data()[i] = v[i] = elem<T>(); }
template <class T, unsigned N> void fixed() {
  CASE("descriptor_fixed<" << sizeof(T) << " byte elements, " << N << ">"); descriptor_fixed<T, N> a; std::vector<T> v, w; fill<T>(a, v); EXPECT(a.size() == N, "size"); has<T>(a, v, "fixed");
  descriptor_fixed<T, N> b(a); has<T>(b, v, "copy"); fill<T>(b, w); has<T>(b, w, "changed copy"); has<T>(a, v, "original"); a = b; has<T>(a, w, "assigned"); fill<T>(a, v); has<T>(b, w, "source of the assignment after a change");
}
template <class T> void dynamic() {
  size_t n = vh::ri(0, 5) ? vh::ri(0, 40) : vh::ri(0, 3000), k = vh::ri(0, 40); CASE("descriptor_dynamic<" << sizeof(T) << " byte elements> of " << n << " and " << k);
  descriptor_dynamic<T> a(n); EXPECT(a.size() == n, "size"); std::vector<T> v, w; fill<T>(a, v); has<T>(a, v, "dynamic");
  { descriptor_dynamic<T> b(a); has<T>(b, v, "copy"); fill<T>(b, w); has<T>(b, w, "changed copy"); has<T>(a, v, "original"); }
  has<T>(a, v, "after the end of the copy"); { descriptor_dynamic<T> c(k); fill<T>(c, w); a = c; has<T>(a, w, "assigned"); std::vector<T> u; fill<T>(c, u); has<T>(a, w, "after a change of the source"); c = c; has<T>(c, u, "self assigned"); } has<T>(a, w, "after the end of the source");
}
template <class P> std::vector<P> ptrs(std::vector<P> const &pool) { std::vector<P> r; for (long k = vh::ri(0, 6); k > 0; --k) r.push_back(vh::ri(0, 6) ? pool[vh::rnd() % pool.size()] : P()); return r; }
static void c26() {
  int K = vh::g_thorough ? 60000 : 6000;
  for (int n = 0; n < K; ++n) { feat<double, float>(); feat<float, double>(); land<double, float>(); land<float, double>(); fixed<double, 4>(); fixed<float, 7>(); fixed<byte, 128>(); dynamic<double>(); dynamic<float>(); dynamic<byte>(); 
    rgb_color a = color(), b = vh::coin() ? a : color(); if (vh::coin()) { switch (vh::ri(0, 3)) { case 0: b.r = a.r; b.g = a.g; break; case 1: b.r = a.r; b.b = a.b; break; case 2: b.g = a.g; b.b = a.b; break; default:; } }
    CASE("colors " << a << " and " << b); EXPECT((a == b) == eqc(a, b) && (a != b) == !eqc(a, b), "equality"); rgb_color c(a); EXPECT(eqc(c, a), "copy");
    std::vector<feature_sptr> fp; std::vector<descriptor_sptr> dp; for (int i = 0; i < 4; ++i) { fp.push_back(feature_sptr(new feature_d)); dp.push_back(descriptor_sptr(new descriptor_fixed<float, 7>)); }
    std::vector<feature_sptr> fv = ptrs(fp); std::vector<descriptor_sptr> dv = ptrs(dp); simple_feature_set fs(fv); simple_descriptor_set ds(dv); CASE("sets of " << fv.size() << " and " << dv.size());
    EXPECT(fs.size() == fv.size() && fs.features() == fv, "feature set"); EXPECT(ds.size() == dv.size() && ds.descriptors() == dv, "descriptor set");
    std::vector<feature_sptr> fw = fs.features(); fw.push_back(fp[0]); EXPECT(fs.features() == fv, "feature set after a change of the listing"); EXPECT(simple_feature_set().size() == 0 && simple_descriptor_set().size() == 0 && simple_landmark_map().size() == 0 && simple_landmark_map().landmarks().empty(), "empty sets");
    landmark_map::map_landmark_t lm; for (long k = vh::ri(0, 6); k > 0; --k) lm[vh::ri(-5, 50)] = landmark_sptr(new landmark_f); simple_landmark_map ls(lm); EXPECT(ls.size() == lm.size() && ls.landmarks() == lm, "landmark map");
  }
}
static void body(const std::string &p) { std::cerr.rdbuf(0); if (p == "C14") c14(); else c26(); }
HARNESS_MAIN(body)
