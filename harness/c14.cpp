#include "geo.h"
#include "resim/transforms/liegroup_exp_diff.hh"
using namespace resim::transforms;
// Thresholds are those of mathematics, not of the code: "small" angles are compared with
// the Taylor series (remainder below the tolerance), all others with the closed form.
namespace {
}  // namespace
// exp of an angle-times-axis vector is the rotation by that angle about that axis.
SX_ENTRY so3_exp() {
  const Rot r = rot("h", "u", 0., 2. * PI);
  near(SO3::exp(r.u * (2. * r.h)).rotation_matrix(), r.matrix(), "the exponential is not the rotation by the vector");
  const V3 z{0., 0., 0.};
  near(SO3::exp(z), SO3::identity(), "the exponential of zero is not the identity");
  near(SO3::identity().log(), z, "the logarithm of the identity is not zero");
  sx_reach("end");
}
// log inverts exp for angles below a half turn
SX_ENTRY so3_log_exp() {
  const Rot r = rot("h", "u", 1e-6, PI / 2. - 1e-6);
  const V3 x = r.u * (2. * r.h);
  near(SO3::exp(x).log(), x, "log does not invert exp");
  sx_reach("end");
}
// exp inverts log for every rotation, and log has at most a half turn
SX_ENTRY so3_exp_log() {
  const Rot r = rot("h", "u", 1e-6, PI - 1e-6);
  const SO3 g{r.q()};
  const V3 x = g.log();
  near(SO3::exp(x), g, "exp does not invert log");
  sx_assert(x.squaredNorm() <= PI * PI + 1e-6, "the logarithm is longer than a half turn");
  sx_reach("end");
}
// Large and moderate angles: translation of exp is V(w) t with the exact closed form,
//   w x p = R t - t  and  w.p = w.t  (these determine p)
SX_ENTRY se3_exp() {
  const Rot r = rot("h", "u", 0.00101, PI);
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const V3 w = r.u * (2. * r.h);
  const SE3 g = SE3::exp(join(w, t));
  near(g.rotation().rotation_matrix(), r.matrix(), "the rotation of the exponential is wrong");
  near(w.cross(g.translation()), r.apply(t) - t, "the translation of the exponential is wrong");
  sx_near(w.dot(g.translation()), w.dot(t), EPS, "the translation of the exponential is wrong along the axis");
  sx_reach("end");
}
// Small angles: p = t + w x t / 2 + w x (w x t) / 6 + w x (w x (w x t)) / 24 + ...
SX_ENTRY se3_exp_small() {
  const Rot r = rot("h", "u", 0., 0.001 - 1e-9);
  const double th = 2. * r.h;
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const V3 w = r.u * th;
  const SE3 g = SE3::exp(join(w, t));
  const double x = th * th;
  // V = I + b [w] + c [w]^2, b = 1/2 - x/24 + O(x^2/720), c = 1/6 - x/120 + O(x^2/5040)
  const V3 wt = w.cross(t), p = t + (0.5 - x / 24.) * wt + (1. / 6. - x / 120.) * w.cross(wt);
  near(g.translation(), p, "the translation of a small exponential is wrong");
  near(g.rotation().rotation_matrix(), r.matrix(), "the rotation of a small exponential is wrong");
  sx_reach("end");
}
SX_ENTRY se3_exp_zero() {
  const V3 t = vec("tx", "ty", "tz", 1e3), z{0., 0., 0.};
  const SE3 g = SE3::exp(join(z, t));
  near(g.translation(), t, "the exponential of a translation is not that translation");
  near(g.rotation(), SO3::identity(), "the exponential of a translation rotates");
  near(SE3{t}.log(), join(z, t), "the logarithm of a translation is not that translation");
  sx_reach("end");
}
// log inverts exp
SX_ENTRY se3_log_exp() {
  const Rot r = rot("h", "u", 0.00101, 1.5);
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const V6 x = join(r.u * (2. * r.h), t);
  near(SE3::exp(x).log(), x, "log does not invert exp");
  sx_reach("end");
}
SX_ENTRY se3_log_exp_half_turn() {
  const Rot r = rot("h", "u", 1.5, PI / 2. - 1e-4);
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const V6 x = join(r.u * (2. * r.h), t);
  near(SE3::exp(x).log(), x, "log does not invert exp near a half turn");
  sx_reach("end");
}
SX_ENTRY se3_log_exp_small() {
  const Rot r = rot("h", "u", 1e-6, 0.001 - 1e-9);
  const double th = 2. * r.h;
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const V6 x = join(r.u * th, t);
  near(SE3::exp(x).log(), x, "log does not invert exp for small angles");
  sx_reach("end");
}
SX_ENTRY se3_exp_log() {
  const Rot r = rot("h", "u", 0.00101, PI - 0.00101);
  const SE3 g{SO3{r.q()}, vec("tx", "ty", "tz", 1e3)};
  near(SE3::exp(g.log()), g, "exp does not invert log");
  sx_reach("end");
}
