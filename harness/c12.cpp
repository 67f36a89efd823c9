#include "geo.h"
using namespace resim::transforms;
namespace {
M3 anyMatrix(const char *n[9]) {
  M3 m;
  for (int i = 0; i < 9; i++) m(i / 3, i % 3) = sx_real(n[i], -1., 1.);
  return m;
}
const char *NA[9] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8"};
const char *NB[9] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8"};
const char *NC[9] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"};
}  // namespace
// All constructors give the right-handed rotation about the axis by the angle.
SX_ENTRY so3_constructors() {
  const Rot r = rot("h", "u", -PI, PI);
  const V3 v = vec("vx", "vy", "vz");
  const SO3 a{r.q()}, b{2. * r.h, r.u}, c{Eigen::AngleAxisd{2. * r.h, r.u}}, d{r.matrix()};
  near(a * v, r.apply(v), "a rotation built from a quaternion is not that rotation");
  near(b * v, r.apply(v), "a rotation built from angle and axis is not that rotation");
  near(c * v, r.apply(v), "a rotation built from an angle-axis is not that rotation");
  near(d * v, r.apply(v), "a rotation built from a matrix is not that rotation");
  near(b.rotate(v), b * v, "rotating and applying differ");
  near(a.rotation_matrix(), r.matrix(), "the rotation matrix is not the one of the rotation");
  near(SO3::identity() * v, v, "the identity moves vectors");
  near(SO3{} * v, v, "the default rotation is not the identity");
  sx_reach("end");
}
// quaternion() is a unit quaternion of the same rotation
SX_ENTRY so3_quaternion() {
  const Rot r = rot("h", "u", 0., PI / 2.);
  const SO3 a{r.q()};
  const Eigen::Quaterniond q = a.quaternion();
  sx_near(q.squaredNorm(), 1., EPS, "the quaternion of a rotation is not a unit quaternion");
  near(q.toRotationMatrix(), r.matrix(), "the quaternion of a rotation is another rotation");
  sx_reach("end");
}
SX_ENTRY so3_group() {
  const Rot r = rot("h", "u", -PI, PI);
  const V3 v = vec("vx", "vy", "vz"), w = vec("wx", "wy", "wz");
  const SO3 a{r.q()}, i = a.inverse();
  near(a * i, SO3::identity(), "a rotation times its inverse is not the identity");
  near(i * a, SO3::identity(), "an inverse times its rotation is not the identity");
  near(i.inverse(), a, "inverting twice changes a rotation");
  near(i * (a * v), v, "the inverse does not undo a rotation");
  near(a * SO3::identity(), a, "the identity is not neutral");
  near(SO3::identity() * a, a, "the identity is not neutral");
  sx_near((a * v).dot(a * w), v.dot(w), 1e-6, "a rotation changes lengths or angles");
  near((a * v).cross(a * w), a * v.cross(w), "a rotation reflects", 1e-6);
  sx_reach("end");
}
SX_ENTRY so3_compose() {
  const M3 ma = anyMatrix(NA), mb = anyMatrix(NB), mc = anyMatrix(NC);
  const SO3 a{ma}, b{mb}, c{mc};
  const V3 v = vec("vx", "vy", "vz");
  near((a * b) * v, a * (b * v), "composition is not application after application");
  near((a * b) * c, a * (b * c), "composition is not associative");
  near((a * b).inverse(), b.inverse() * a.inverse(), "the inverse of a product is not the reversed product of inverses");
  sx_reach("end");
}
SX_ENTRY se3_action() {
  const Rot r = rot("h", "u", -PI, PI);
  const V3 v = vec("vx", "vy", "vz"), t = vec("tx", "ty", "tz");
  const SE3 g{SO3{r.q()}, t};
  near(g * v, r.apply(v) + t, "a pose does not rotate, then translate");
  near(g.rotate(v), r.apply(v), "rotating by a pose translates");
  near(SE3{SO3{r.q()}} * v, r.apply(v), "a pose without translation translates");
  near(SE3{t} * v, v + t, "a pose without rotation does not just translate");
  near(SE3::identity() * v, v, "the identity moves points");
  near(SE3{} * v, v, "the default pose is not the identity");
  near(g.translation(), t, "the translation is not the one given");
  near(g.rotation().rotation_matrix(), r.matrix(), "the rotation is not the one given");
  sx_reach("end");
}
SX_ENTRY se3_group() {
  const Rot r = rot("h", "u", -PI, PI);
  const V3 v = vec("vx", "vy", "vz"), t = vec("tx", "ty", "tz");
  const SE3 g{SO3{r.q()}, t}, i = g.inverse();
  near(g * i, SE3::identity(), "a pose times its inverse is not the identity");
  near(i * g, SE3::identity(), "an inverse times its pose is not the identity");
  near(i.inverse(), g, "inverting twice changes a pose");
  near(i * (g * v), v, "the inverse does not undo a pose");
  near(g * SE3::identity(), g, "the identity is not neutral");
  near(SE3::identity() * g, g, "the identity is not neutral");
  sx_reach("end");
}
SX_ENTRY se3_compose() {
  const SE3 a{SO3{anyMatrix(NA)}, vec("ax", "ay", "az")}, b{SO3{anyMatrix(NB)}, vec("bx", "by", "bz")},
      c{SO3{anyMatrix(NC)}, vec("cx", "cy", "cz")};
  const V3 v = vec("vx", "vy", "vz");
  near((a * b) * v, a * (b * v), "composition is not application after application");
  near((a * b).rotate(v), a.rotate(b.rotate(v)), "rotation parts do not compose");
  near((a * b) * c, a * (b * c), "composition is not associative");
  sx_reach("end");
}
SX_ENTRY se3_product_inverse() {
  const Rot r = rot("h", "u", -PI, PI);
  const SE3 a{SO3{r.q()}, vec("ax", "ay", "az")}, b{SO3{anyMatrix(NB)}, vec("bx", "by", "bz")};
  near((a * b).inverse(), b.inverse() * a.inverse(), "the inverse of a product is not the reversed product of inverses");
  near(a.inverse() * (a * b), b, "the inverse does not cancel");
  sx_reach("end");
}
