#include "geo.h"
#include "resim/transforms/liegroup_exp_diff.hh"
using namespace resim::transforms;
namespace {
}  // namespace
// Distances are Euclidean distances of the translations.
SX_ENTRY distance() {
  const V3 p = vec("px", "py", "pz"), q = vec("qx", "qy", "qz");
  const Rot r = rot("h", "u", -PI, PI);
  const SE3 a{SO3{r.q()}, p}, b{q};
  const double d = se3_distance(a, b), e = se3_inverse_distance(a, b);
  const double sq = (p(0) - q(0)) * (p(0) - q(0)) + (p(1) - q(1)) * (p(1) - q(1)) + (p(2) - q(2)) * (p(2) - q(2));
  sx_assert(d >= 0. and e >= 0., "a distance is negative");
  sx_near(d * d, sq, EPS, "the distance is not the distance of the origins");
  sx_near(e * e, sq, EPS, "the inverse distance is not the distance of the origins");
  sx_near(se3_distance(b, a), d, EPS, "distance is not symmetric");
  sx_near(se3_inverse_distance(b, a), e, EPS, "inverse distance is not symmetric");
  sx_reach("end");
}
// Arc length is the length of the translation part of the logarithm.
SX_ENTRY arc_length() {
  const Rot r = rot("h", "u", 0.00101, 1.5);
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const SE3 g = SE3::exp(join(r.u * (2. * r.h), t));
  const double l = g.arc_length();
  const V6 x = g.log();
  sx_assert(l >= 0., "an arc length is negative");
  sx_near(l * l, x(3) * x(3) + x(4) * x(4) + x(5) * x(5), EPS, "the arc length is not the length of the motion");
  const double s = SE3{t}.arc_length();
  sx_near(s * s, t(0) * t(0) + t(1) * t(1) + t(2) * t(2), EPS, "the arc length of a straight motion is not its length");
  sx_reach("end");
}
// The differential of exp: w x (J v) = R v - v and w . (J v) = w . v, which determines J.
SX_ENTRY exp_diff() {
  const Rot r = rot("h", "u", 0.00101, PI);
  const V3 v = vec("vx", "vy", "vz", 1e3), w = r.u * (2. * r.h);
  const V3 j = SO3::exp_diff(w) * v;
  near(w.cross(j), r.apply(v) - v, "the differential of exp is wrong");
  sx_near(w.dot(j), w.dot(v), EPS, "the differential of exp is wrong along the axis");
  sx_reach("end");
}
SX_ENTRY exp_diff_small() {
  const Rot r = rot("h", "u", 0., 0.001 - 1e-9);
  const V3 v = vec("vx", "vy", "vz", 1e3), w = r.u * (2. * r.h);
  const double x = 4. * r.h * r.h;
  near(SO3::exp_diff(w) * v, v + (0.5 - x / 24.) * w.cross(v) + (1. / 6. - x / 120.) * w.cross(w.cross(v)),
       "the differential of exp is wrong for small angles");
  sx_reach("end");
}
// The coefficients themselves: sin t / t, (1 - cos t) / t^2, (t - sin t) / t^3.
SX_ENTRY coefficients() {
  double s, c;
  const double t = sx_trig("t", 0.00201, 12., &s, &c);
  const ExpDiffCoeffs k = derivative_of_exp_so3(t * t);
  sx_near(k.a * t, s, EPS, "the first coefficient is not sin t / t");
  sx_near(k.b * t * t, 1. - c, EPS, "the second coefficient is not (1 - cos t) / t^2");
  sx_near(k.c * t * t * t, t - s, EPS, "the third coefficient is not (t - sin t) / t^3");
  sx_reach("end");
}
SX_ENTRY coefficients_small() {
  const double x = sx_real("x", 0., 3.99e-6);
  const ExpDiffCoeffs k = derivative_of_exp_so3(x);
  // alternating series: the error is below the first term left out (x^3 / 5040 < 1e-19)
  sx_near(k.a, 1. - x / 6. + x * x / 120., 1e-15, "the first coefficient is wrong for small angles");
  sx_near(k.b, 0.5 - x / 24. + x * x / 720., 1e-15, "the second coefficient is wrong for small angles");
  sx_near(k.c, 1. / 6. - x / 120. + x * x / 5040., 1e-15, "the third coefficient is wrong for small angles");
  sx_reach("end");
}
// Approximate equality accepts the same transform and rejects a visibly different one.
SX_ENTRY approx_so3() {
  const Rot r = rot("h", "u", -PI, PI);
  const SO3 a{r.q()};
  sx_assert(a.is_approx(a) and a.is_approx_transform(a), "a rotation is not approximately itself");
  const V3 w = vec("wx", "wy", "wz", 1.);
  const V3 d = (w - r.apply(w));
  const SO3 i = SO3::identity();
  // |R - I|_F^2 = 8 sin^2 h
  if (r.s * r.s > 1e-6) sx_assert(not a.is_approx(i) and not i.is_approx_transform(a), "a rotation is approximately the identity");
  (void)d;
  sx_reach("end");
}
SX_ENTRY approx_se3() {
  const Rot r = rot("h", "u", -PI, PI);
  const V3 t = vec("tx", "ty", "tz", 1e3), d = vec("dx", "dy", "dz", 1.);
  const SE3 a{SO3{r.q()}, t}, b{SO3{r.q()}, t + d};
  sx_assert(a.is_approx(a) and a.is_approx_transform(a), "a pose is not approximately itself");
  if (d.dot(d) > 1e-6) sx_assert(not a.is_approx(b) and not b.is_approx_transform(a), "poses at different places are approximately equal");
  if (r.s * r.s > 1e-6) {
    const SE3 e{t};
    sx_assert(not a.is_approx(e) and not e.is_approx_transform(a), "poses with different rotations are approximately equal");
  }
  sx_reach("end");
}
