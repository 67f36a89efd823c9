#include "jets.h"
#include "resim/assert/assert.hh"
#include "resim/curves/t_curve_segment.hh"
using namespace resim::transforms;
using namespace resim::curves;
namespace {
// A segment starts at its origin and ends at its destination, with their derivatives.
template <typename G>
void ends() {
  const G orig = Sym<G>::g("ah", "au", AX);
  // destination relative to the origin, up to a half turn (where the log is unique)
  const Rot r = rot("bh", "bu", 1e-3, PI / 2. - 1e-3);
  G rel;
  if constexpr (std::is_same_v<G, SE3>)
    rel = SE3{SO3{r.q()}, vec(BX[0], BX[1], BX[2], 1e3)};
  else
    rel = SO3{r.q()};
  const auto ad = Sym<G>::t(AD), ae = Sym<G>::t(AE), bd = Sym<G>::t(BD), be = Sym<G>::t(BE);
  const G dest = rel * orig;
  const TCurveSegment<G> s{TwoJetL<G>{orig, ad, ae}, TwoJetL<G>{dest, bd, be}};
  const TwoJetL<G> p = s.point_at(0.), q = s.point_at(1.);
  near(p.frame_from_ref(), orig, "a segment does not start at its origin");
  near(p.d_frame_from_ref(), ad, "a segment does not start with the velocity of its origin");
  near(p.d2_frame_from_ref(), ae, "a segment does not start with the acceleration of its origin");
  near(q.frame_from_ref(), dest, "a segment does not end at its destination", 1e-7);
  near(q.d_frame_from_ref(), bd, "a segment does not end with the velocity of its destination");
  near(q.d2_frame_from_ref(), be, "a segment does not end with the acceleration of its destination");
  near(s.orig().frame_from_ref(), orig, "the origin is not the one given");
  near(s.dest().frame_from_ref(), dest, "the destination is not the one given");
  sx_reach("end");
}
}  // namespace
SX_ENTRY so3_ends() { ends<SO3>(); }
SX_ENTRY se3_ends() { ends<SE3>(); }
// Without rotation a segment is the Hermite quintic in each coordinate.
SX_ENTRY straight() {
  const V3 x0 = vec("ax0", "ax1", "ax2", 1e3), x1 = vec("bx0", "bx1", "bx2", 1e3), v0 = vec("ad0", "ad1", "ad2", 1e3), v1 = vec("bd0", "bd1", "bd2", 1e3),
           a0 = vec("ae0", "ae1", "ae2", 1e3), a1 = vec("be0", "be1", "be2", 1e3), z{0., 0., 0.};
  const double t = sx_real("t", 0., 1.);
  const TCurveSegment<SE3> s{TwoJetL<SE3>{SE3{x0}, join(z, v0), join(z, a0)}, TwoJetL<SE3>{SE3{x1}, join(z, v1), join(z, a1)}};
  const TwoJetL<SE3> p = s.point_at(t);
  near(p.frame_from_ref().rotation(), SO3::identity(), "a translating segment rotates");
  for (int i = 0; i < 3; i++) {
    // Newton form of the quintic through (x0, v0, a0) and (x1, v1, a1)
    const double c0 = x0(i), c1 = v0(i), c2 = a0(i) / 2., A = x1(i) - c0 - c1 - c2, B = v1(i) - c1 - 2. * c2, C = a1(i) - 2. * c2;
    const double c3 = 10. * A - 4. * B + C / 2., c4 = -15. * A + 7. * B - C, c5 = 6. * A - 3. * B + C / 2.;
    sx_near(p.frame_from_ref().translation()(i), c0 + t * (c1 + t * (c2 + t * (c3 + t * (c4 + t * c5)))), EPS, "a translating segment is not the Hermite quintic");
    sx_near(p.d_frame_from_ref()(3 + i), c1 + t * (2. * c2 + t * (3. * c3 + t * (4. * c4 + t * 5. * c5))), EPS, "the velocity is not the derivative of the position");
    sx_near(p.d2_frame_from_ref()(3 + i), 2. * c2 + t * (6. * c3 + t * (12. * c4 + t * 20. * c5)), EPS, "the acceleration is not the derivative of the velocity");
    sx_near(p.d_frame_from_ref()(i), 0., EPS, "a translating segment turns");
    sx_near(p.d2_frame_from_ref()(i), 0., EPS, "a translating segment turns");
  }
  sx_reach("end");
}
namespace {
// value, first and second derivative of the five polynomials at t
struct C3 {
  double a, da, d2a;
};
C3 poly(int k, double t) {
  const double s = 1. - t;
  if (k == 0) return {t * t * t * (1. + 3. * s + 6. * s * s), 30. * t * t * s * s, 60. * t * s * (s - t)};
  if (k == 1) return {t * s * s * s * (1. + 3. * t), s * s * (1. + 2. * t - 15. * t * t), 12. * t * s * (-3. * s + 2. * t)};
  if (k == 2) return {-(t * t * t * s * (1. + 3. * s)), t * t * (1. + 2. * s - 15. * s * s), -12. * t * s * (-3. * t + 2. * s)};
  if (k == 3) return {0.5 * t * t * s * s * s, 0.5 * t * s * s * (2. * s - 3. * t), s * (s * s - 6. * t * s + 3. * t * t)};
  return {0.5 * t * t * t * s * s, 0.5 * t * t * s * (3. * s - 2. * t), t * (t * t - 6. * t * s + 3. * s * s)};
}
// d/dt of exp(a(t) x): the generator commutes with the exponential
template <typename G, typename V>
auto factor(const C3 &c, const V &x) {
  const G e = G::exp(V(c.a * x));
  using M = decltype(mat(e));
  const M v = mat(e), h = hat(x);
  Jet<M> r;
  r.v = v;
  r.d = c.da * (h * v);
  r.dd = c.d2a * (h * v) + c.da * c.da * (h * (h * v));
  return r;
}
// The Lie spline: point(t) = exp(a4 y4) exp(a3 y3) exp(a2 y2) exp(a1 y1) exp(a0 y0) orig, with
// its true derivatives, when two of the five generators are active.
template <typename G>
void pair(const int k, const int l, const double t, const G &orig) {
  const auto z = Sym<G>::zero();
  using V = std::remove_cv_t<decltype(z)>;
  V x = z, y = z;
  // turning about two different axes, any amount
  const int ax = sx_choose("axes", 2);
  x(ax) = sx_real("wx", 0.5, 1.5);
  y(2) = sx_real("wy", 0.5, 1.5);
  if constexpr (std::is_same_v<G, SE3>) {
    const V3 p = vec("px", "py", "pz", 1.), q = vec("qx", "qy", "qz", 1.);
    for (int i = 0; i < 3; i++) {
      x(3 + i) = p(i);
      y(3 + i) = q(i);
    }
  }
  V g[5] = {z, z, z, z, z};
  g[l] = y;
  g[k] = x;
  G dest = orig;
  if (k == 0) {
    const G rel = G::exp(x);
    dest = rel * orig;
    g[0] = (dest * orig.inverse()).log();
    x = g[0];
  }
  const TCurveSegment<G> s{TwoJetL<G>{orig, g[1], g[3]}, TwoJetL<G>{dest, g[2], g[4]}};
  const TwoJetL<G> p = s.point_at(t);
  auto e = times(factor<G>(poly(l, t), y), factor<G>(poly(k, t), x));
  using M = decltype(e.v);
  Jet<M> o = one<M>();
  o.v = mat(orig);
  same(jet(p), times(e, o), "a point of a segment is not on the Lie spline", "the velocity is not the derivative of the pose",
       "the acceleration is not the second derivative of the pose", 1e-7);
  sx_reach("end");
}
template <typename G>
void pairs() {
  static const int K[10] = {1, 1, 1, 2, 2, 3, 0, 0, 0, 0}, L[10] = {2, 3, 4, 3, 4, 4, 1, 2, 3, 4};
  const int i = sx_choose("pair", 10);
  const double ts[3] = {0.375, 0.5, 0.75};
  pair<G>(K[i], L[i], ts[sx_tier() > 0 ? sx_choose("at", 3) : 0], G::identity());
}
}  // namespace
SX_ENTRY so3_pairs() { pairs<SO3>(); }
SX_ENTRY se3_pairs() { pairs<SE3>(); }
// each generator alone, at every time and from every origin
namespace {
template <typename G>
void single() {
  const G orig = Sym<G>::g("ah", "au", AX);
  const int k = 1 + sx_choose("k", 4);
  const double t = sx_real("t", 0., 1.);
  const auto x = Sym<G>::t(AD, 1e3);
  const auto z = Sym<G>::zero();
  using V = std::remove_cv_t<decltype(z)>;
  V g[5] = {z, z, z, z, z};
  g[k] = x;
  const TCurveSegment<G> s{TwoJetL<G>{orig, g[1], g[3]}, TwoJetL<G>{orig, g[2], g[4]}};
  const TwoJetL<G> p = s.point_at(t);
  const C3 c = poly(k, t);
  near(p.d_frame_from_ref(), V(c.da * x), "the velocity is not the derivative of the pose");
  near(p.d2_frame_from_ref(), V(c.d2a * x), "the acceleration is not the second derivative of the pose");
  near(p.frame_from_ref(), G::exp(V(c.a * x)) * orig, "a point of a segment is not on the Lie spline");
  sx_reach("end");
}
}  // namespace
SX_ENTRY so3_single() { single<SO3>(); }
SX_ENTRY se3_single() { single<SE3>(); }
// all five generators at once
namespace {
template <typename G>
void all() {
  const auto z = Sym<G>::zero();
  using V = std::remove_cv_t<decltype(z)>;
  const char *const N[5] = {"w0", "w1", "w2", "w3", "w4"};
  V g[5] = {z, z, z, z, z};
  for (int k = 0; k < 5; k++) {
    g[k](k % 3) = sx_real(N[k], 0.5, 1.5);
    if constexpr (std::is_same_v<G, SE3>) g[k](3 + (k + 1) % 3) = 0.25 * (k + 1);
  }
  const double t = sx_choose("at", 2) ? 0.625 : 0.375;
  const G dest = G::exp(g[0]);
  g[0] = dest.log();
  const TCurveSegment<G> s{TwoJetL<G>{G::identity(), g[1], g[3]}, TwoJetL<G>{dest, g[2], g[4]}};
  const TwoJetL<G> p = s.point_at(t);
  auto e = factor<G>(poly(0, t), g[0]);
  for (int k = 1; k < 5; k++) e = times(factor<G>(poly(k, t), g[k]), e);
  same(jet(p), e, "a point of a segment is not on the Lie spline", "the velocity is not the derivative of the pose",
       "the acceleration is not the second derivative of the pose", 1e-7);
  sx_reach("end");
}
}  // namespace
SX_ENTRY so3_all() { all<SO3>(); }
SX_ENTRY se3_all() { all<SE3>(); }
// small relative motions
namespace {
template <typename G>
void tiny() {
  const double sizes[4] = {1e-2, 1e-3, 1e-5, 1e-8};
  const double e = sizes[sx_choose("size", 4)];
  auto x = Sym<G>::zero();
  x(0) = e * 0.5, x(1) = -e, x(2) = e * 0.25;
  if constexpr (std::is_same_v<G, SE3>) {
    const V3 t = vec(BX[0], BX[1], BX[2], 1.);
    for (int i = 0; i < 3; i++) x(3 + i) = e * t(i);
  }
  const auto ad = Sym<G>::t(AD, 10.), z = Sym<G>::zero();
  const G dest = G::exp(x);
  const TCurveSegment<G> s{TwoJetL<G>{G::identity(), z, z}, TwoJetL<G>{dest, z, z}}, r{TwoJetL<G>{G::identity(), ad, z}, TwoJetL<G>{dest, z, ad}};
  const double t = 0.375, tol = 1e-4 * e;
  const TwoJetL<G> p = s.point_at(t), q = r.point_at(1.);
  const C3 c = poly(0, t);
  using V = std::remove_cv_t<decltype(x)>;
  near(p.frame_from_ref(), G::exp(V(c.a * x)), "a point of a segment is not on the Lie spline", tol);
  near(p.d_frame_from_ref(), V(c.da * x), "the velocity is not the derivative of the pose", tol);
  near(p.d2_frame_from_ref(), V(c.d2a * x), "the acceleration is not the second derivative of the pose", tol);
  near(q.frame_from_ref(), dest, "a segment does not end at its destination", tol);
  near(q.d2_frame_from_ref(), ad, "a segment does not end with the acceleration of its destination", 1e-7);
  sx_reach("end");
}
}  // namespace
SX_ENTRY so3_tiny() { tiny<SO3>(); }
SX_ENTRY se3_tiny() { tiny<SE3>(); }
