// Symbolic rotations, vectors and poses for real-mode harnesses.
#pragma once
#include <Eigen/Dense>
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "sx.h"
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using V6 = Eigen::Matrix<double, 6, 1>;
constexpr double PI = 3.14159265358979323846;
constexpr double EPS = 1e-9;

inline V3 vec(const char *x, const char *y, const char *z, double m = 1e6) {
  V3 v;
  v(0) = sx_real(x, -m, m);
  v(1) = sx_real(y, -m, m);
  v(2) = sx_real(z, -m, m);
  return v;
}
struct Rot {
  double h;     // half the rotation angle
  double s, c;  // its sine and cosine
  V3 u;         // unit axis
  Eigen::Quaterniond q() const { return Eigen::Quaterniond{c, s * u(0), s * u(1), s * u(2)}; }
  double angle() const { return 2. * h; }
  // Rodrigues' formula, the defining property of a rotation about u
  V3 apply(const V3 &v) const {
    const double S = 2. * s * c, C1 = 2. * s * s;
    return v + S * u.cross(v) + C1 * (u * u.dot(v) - v);
  }
  M3 matrix() const {
    M3 m;
    m.col(0) = apply(V3{1., 0., 0.});
    m.col(1) = apply(V3{0., 1., 0.});
    m.col(2) = apply(V3{0., 0., 1.});
    return m;
  }
};
// rotation angles 2*lo .. 2*hi
inline Rot rot(const char *h, const char *u, double lo, double hi) {
  Rot r;
  r.h = sx_trig(h, lo, hi, &r.s, &r.c);
  sx_unit3(u, r.u.data());
  return r;
}
template <typename A, typename B>
void near(const A &a, const B &b, const char *msg, double eps = EPS) {
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) sx_near(a(i, j), b(i, j), eps, msg);
}
inline void near(const resim::transforms::SO3 &a, const resim::transforms::SO3 &b, const char *msg, double eps = EPS) {
  near(a.rotation_matrix(), b.rotation_matrix(), msg, eps);
}
inline void near(const resim::transforms::SE3 &a, const resim::transforms::SE3 &b, const char *msg, double eps = EPS) {
  near(a.rotation(), b.rotation(), msg, eps);
  near(a.translation(), b.translation(), msg, eps);
}
using M4 = Eigen::Matrix4d;
inline M3 hat3(const V3 &w) {
  M3 m;
  m(0, 0) = m(1, 1) = m(2, 2) = 0.;
  m(0, 1) = -w(2);
  m(1, 0) = w(2);
  m(0, 2) = w(1);
  m(2, 0) = -w(1);
  m(1, 2) = -w(0);
  m(2, 1) = w(0);
  return m;
}
inline M4 hat(const V6 &x) {
  M4 m = M4::Zero();
  m.block<3, 3>(0, 0) = hat3(V3{x(0), x(1), x(2)});
  for (int i = 0; i < 3; i++) m(i, 3) = x(3 + i);
  return m;
}
inline M3 hat(const V3 &w) { return hat3(w); }
inline M4 mat(const resim::transforms::SE3 &g) {
  M4 m = M4::Zero();
  m.block<3, 3>(0, 0) = g.rotation().rotation_matrix();
  for (int i = 0; i < 3; i++) m(i, 3) = g.translation()(i);
  m(3, 3) = 1.;
  return m;
}
inline M3 mat(const resim::transforms::SO3 &g) { return g.rotation_matrix(); }
inline V6 join(const V3 &a, const V3 &b) {
  V6 v;
  for (int i = 0; i < 3; i++) {
    v(i) = a(i);
    v(3 + i) = b(i);
  }
  return v;
}
