#include "geo.h"
#include "resim/transforms/cross_matrix.hh"
using namespace resim::transforms;
namespace {
V6 tangent(const char *const n[6], double m = 1e3) {
  V6 v;
  for (int i = 0; i < 6; i++) v(i) = sx_real(n[i], -m, m);
  return v;
}
const char *const NX[6] = {"x0", "x1", "x2", "x3", "x4", "x5"};
const char *const NY[6] = {"y0", "y1", "y2", "y3", "y4", "y5"};
}  // namespace
SX_ENTRY cross() {
  const V3 a = vec("ax", "ay", "az"), b = vec("bx", "by", "bz");
  near(cross_matrix(a) * b, V3{a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)},
       "the cross matrix does not multiply like the cross product");
  sx_reach("end");
}
SX_ENTRY so3() {
  const Rot r = rot("h", "u", -PI, PI);
  const SO3 g{r.q()};
  const V3 x = vec("x0", "x1", "x2"), y = vec("y0", "y1", "y2");
  near(hat(V3(g.adjoint() * x)), r.matrix() * hat(x) * r.matrix().transpose(), "the adjoint is not conjugation");
  near(g.adjoint_times(x), g.adjoint() * x, "adjoint_times is not multiplication by the adjoint");
  near(hat(V3(SO3::adjoint(x) * y)), hat(x) * hat(y) - hat(y) * hat(x), "the algebra adjoint is not the commutator");
  near(SO3::adjoint_times(x, y), SO3::adjoint(x) * y, "adjoint_times of the algebra is not multiplication by the adjoint");
  near(g.inverse().adjoint() * g.adjoint(), M3::Identity(), "the adjoint of the inverse is not the inverse adjoint");
  sx_reach("end");
}
SX_ENTRY se3() {
  const Rot r = rot("h", "u", -PI, PI);
  const SE3 g{SO3{r.q()}, vec("tx", "ty", "tz")};
  const V6 x = tangent(NX);
  near(hat(V6(g.adjoint() * x)), mat(g) * hat(x) * mat(g.inverse()), "the adjoint is not conjugation", 1e-7);
  near(g.adjoint_times(x), g.adjoint() * x, "adjoint_times is not multiplication by the adjoint", 1e-7);
  near(g.inverse().adjoint() * g.adjoint(), SE3::TangentMapping::Identity(), "the adjoint of the inverse is not the inverse adjoint", 1e-7);
  sx_reach("end");
}
SX_ENTRY se3_algebra() {
  const V6 x = tangent(NX), y = tangent(NY);
  near(hat(V6(SE3::adjoint(x) * y)), hat(x) * hat(y) - hat(y) * hat(x), "the algebra adjoint is not the commutator");
  near(SE3::adjoint_times(x, y), SE3::adjoint(x) * y, "adjoint_times of the algebra is not multiplication by the adjoint");
  const V6 z = SE3::tangent_vector_from_parts(V3{x(0), x(1), x(2)}, V3{x(3), x(4), x(5)});
  near(z, x, "rotation and translation parts are swapped");
  V3 a = SE3::tangent_vector_rotation_part(x), b = SE3::tangent_vector_translation_part(x);
  near(a, V3{x(0), x(1), x(2)}, "the rotation part is not the first half");
  near(b, V3{x(3), x(4), x(5)}, "the translation part is not the second half");
  V6 m = x;
  SE3::tangent_vector_rotation_part(m) = V3{y(0), y(1), y(2)};
  SE3::tangent_vector_translation_part(m) = V3{y(3), y(4), y(5)};
  near(m, y, "writing the parts of a tangent vector fails");
  sx_reach("end");
}
SX_ENTRY se3_product() {
  const Rot r = rot("h", "u", -PI, PI), q = rot("k", "w", -PI, PI);
  const SE3 a{SO3{r.q()}, vec("ax", "ay", "az")}, b{SO3{q.q()}, vec("bx", "by", "bz")};
  near((a * b).adjoint(), a.adjoint() * b.adjoint(), "the adjoint of a product is not the product of adjoints", 1e-7);
  sx_reach("end");
}
// g exp(x) g^-1 = exp(Ad_g x)
SX_ENTRY so3_exp() {
  const Rot r = rot("h", "u", -PI, PI);
  const Rot q = rot("k", "w", 0., PI);
  const SO3 g{r.q()};
  const V3 x = q.u * (2. * q.h);
  near(g * SO3::exp(x) * g.inverse(), SO3::exp(g.adjoint_times(x)), "conjugating an exponential is not the exponential of the adjoint");
  sx_reach("end");
}
