// Symbolic group elements and matrix 2-jets shared by the curve harnesses.
#pragma once
#include "geo.h"
#include "resim/curves/two_jet.hh"
template <typename G>
struct Sym;
template <>
struct Sym<resim::transforms::SO3> {
  using G = resim::transforms::SO3;
  static G g(const char *h, const char *u, const char *const *) {
    const Rot r = rot(h, u, -PI, PI);
    return G{r.q()};
  }
  static V3 t(const char *const *n, double m = 1e3) { return vec(n[0], n[1], n[2], m); }
  static V3 zero() { return V3::Zero(); }
};
template <>
struct Sym<resim::transforms::SE3> {
  using G = resim::transforms::SE3;
  static G g(const char *h, const char *u, const char *const *n) {
    const Rot r = rot(h, u, -PI, PI);
    return G{resim::transforms::SO3{r.q()}, vec(n[0], n[1], n[2], 1e3)};
  }
  static V6 t(const char *const *n, double m = 1e3) { return join(vec(n[0], n[1], n[2], m), vec(n[3], n[4], n[5], m)); }
  static V6 zero() { return V6::Zero(); }
};
inline const char *const AX[6] = {"ax0", "ax1", "ax2", "ax3", "ax4", "ax5"};
inline const char *const AD[6] = {"ad0", "ad1", "ad2", "ad3", "ad4", "ad5"};
inline const char *const AE[6] = {"ae0", "ae1", "ae2", "ae3", "ae4", "ae5"};
inline const char *const BX[6] = {"bx0", "bx1", "bx2", "bx3", "bx4", "bx5"};
inline const char *const BD[6] = {"bd0", "bd1", "bd2", "bd3", "bd4", "bd5"};
inline const char *const BE[6] = {"be0", "be1", "be2", "be3", "be4", "be5"};
// The 2-jet of a matrix curve: value, first and second derivative.
template <typename M>
struct Jet {
  M v, d, dd;
};
template <typename G>
auto jet(const resim::curves::TwoJetL<G> &x) {
  using M = decltype(mat(x.frame_from_ref()));
  const M a = mat(x.frame_from_ref()), d = hat(x.d_frame_from_ref()), e = hat(x.d2_frame_from_ref());
  const M v = a, d1 = d * a, d2 = (e + d * d) * a;
  return Jet<M>{v, d1, d2};
}
template <typename G>
auto jet(const resim::curves::TwoJetR<G> &x) {
  using M = decltype(mat(x.ref_from_frame()));
  const M a = mat(x.ref_from_frame()), d = hat(x.d_ref_from_frame()), e = hat(x.d2_ref_from_frame());
  const M v = a, d1 = a * d, d2 = a * (e + d * d);
  return Jet<M>{v, d1, d2};
}
template <typename M>
Jet<M> times(const Jet<M> &a, const Jet<M> &b) {
  Jet<M> r;
  r.v = a.v * b.v;
  r.d = a.d * b.v + a.v * b.d;
  r.dd = a.dd * b.v + 2. * a.d * b.d + a.v * b.dd;
  return r;
}
template <typename M>
void same(const Jet<M> &a, const Jet<M> &b, const char *m0, const char *m1, const char *m2, double eps = 1e-6) {
  near(a.v, b.v, m0, eps);
  near(a.d, b.d, m1, eps);
  near(a.dd, b.dd, m2, eps);
}
template <typename M>
Jet<M> one() {
  Jet<M> r;
  r.v = M::Identity();
  r.d = M::Zero();
  r.dd = M::Zero();
  return r;
}
