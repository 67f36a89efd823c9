#include "geo.h"
using namespace resim::transforms;
namespace {
// rotation about r.u by an angle with sine S and cosine C
V3 turn(const Rot &r, double S, double C, const V3 &v) { return v + S * r.u.cross(v) + (1. - C) * (r.u * r.u.dot(v) - v); }
void turned(const SO3 &g, const Rot &r, double S, double C, const char *msg) {
  const V3 x{1., 0., 0.}, y{0., 1., 0.}, z{0., 0., 1.};
  near(g * x, turn(r, S, C, x), msg);
  near(g * y, turn(r, S, C, y), msg);
  near(g * z, turn(r, S, C, z), msg);
}
double fraction() {
  const double f = sx_real("f", 0.05, 3.);
  return sx_choose("sign", 2) == 0 ? f : -f;
}
template <typename G>
void kept(const G &p, const G &g) {
  sx_assert(p.into() == g.into() and p.from() == g.from(), "interpolation does not keep the frames");
}
}  // namespace
SX_ENTRY so3_ends() {
  const Rot r = rot("h", "u", 1e-4, 1.5);
  const Frame<3> into = Frame<3>::new_frame(), from = Frame<3>::new_frame();
  const SO3 g{r.q(), into, from}, plain{r.q()};
  near(g.interp(0.), SO3::identity(), "interpolation does not start at the identity");
  near(g.interp(1.), g, "interpolation does not end at the rotation");
  near(g.interp(-1.), g.inverse(), "interpolation to -1 is not the inverse");
  near(g.interp(2.), plain * plain, "interpolation to 2 is not the square");
  for (const double f : {-1., 0., 1., 2.}) kept(g.interp(f), g);
  near(plain.interp(0.5) * plain.interp(0.5), g, "half an interpolation twice is not the rotation");
  sx_reach("end");
}
SX_ENTRY so3_fraction() {
  const Rot r = rot("h", "u", 0.05, 1.5);
  const double f = fraction();
  const SO3 g{r.q()};
  double S, C;
  sx_trig_of(2. * r.h * f, &S, &C);
  turned(g.interp(f), r, S, C, "interpolation is not the same fraction of the angle about the same axis");
  sx_reach("end");
}
SX_ENTRY se3_ends() {
  const Rot r = rot("h", "u", 0.05, 1.5);
  const Frame<3> into = Frame<3>::new_frame(), from = Frame<3>::new_frame();
  const V6 alg = join(r.u * (2. * r.h), vec("tx", "ty", "tz", 1e3));
  const SE3 g = SE3::exp(alg, into, from), plain = SE3::exp(alg);
  near(g.interp(0.), SE3::identity(), "interpolation does not start at the identity");
  near(g.interp(1.), g, "interpolation does not end at the pose");
  near(g.interp(-1.), g.inverse(), "interpolation to -1 is not the inverse");
  near(g.interp(2.), plain * plain, "interpolation to 2 is not the square");
  for (const double f : {-1., 0., 1., 2.}) kept(g.interp(f), g);
  sx_reach("end");
}
SX_ENTRY se3_fraction() {
  const Rot r = rot("h", "u", 0.05, 1.5);
  const double f = fraction();
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const V3 w = r.u * (2. * r.h);
  const SE3 g = SE3::exp(join(w, t)), p = g.interp(f);
  double S, C;
  sx_trig_of(2. * r.h * f, &S, &C);
  turned(p.rotation(), r, S, C, "interpolation is not the same fraction of the angle about the same axis");
  near(w.cross(p.translation()), turn(r, S, C, t) - t, "interpolation does not move along the screw motion");
  sx_near(w.dot(p.translation()), f * w.dot(t), EPS, "interpolation is not uniform along the axis");
  sx_reach("end");
}
SX_ENTRY se3_straight() {
  const double f = sx_real("f", -1e3, 1e3);
  const V3 t = vec("tx", "ty", "tz", 1e3);
  const Frame<3> into = Frame<3>::new_frame(), from = Frame<3>::new_frame();
  const SE3 g{t, into, from}, p = g.interp(f);
  kept(p, g);
  near(p.translation(), f * t, "interpolating a translation is not uniform");
  near(p.rotation(), SO3::identity(), "interpolating a translation rotates");
  sx_reach("end");
}
// Tiny fractions and many turns.
namespace {
double odd_fraction() {
  const double f[3] = {1e-4, 0.03, -25.};
  return f[sx_choose("which", 3)];
}
}  // namespace
SX_ENTRY so3_odd() {
  const Rot r = rot("h", "u", 0.05, 1.5);
  const double f = odd_fraction();
  double S, C;
  sx_trig_of(2. * r.h * f, &S, &C);
  turned(SO3{r.q()}.interp(f), r, S, C, "interpolation is not the same fraction of the angle about the same axis");
  sx_reach("end");
}
SX_ENTRY se3_odd() {
  const Rot r = rot("h", "u", 0.05, 1.5);
  const double f = odd_fraction();
  const V3 t = vec("tx", "ty", "tz", 10.);
  const V3 w = r.u * (2. * r.h);
  const SE3 p = SE3::exp(join(w, t)).interp(f);
  double S, C;
  sx_trig_of(2. * r.h * f, &S, &C);
  turned(p.rotation(), r, S, C, "interpolation is not the same fraction of the angle about the same axis");
  if (f == 1e-4) return;
  near(w.cross(p.translation()), turn(r, S, C, t) - t, "interpolation does not move along the screw motion");
  sx_near(w.dot(p.translation()), f * w.dot(t), EPS, "interpolation is not uniform along the axis");
  sx_reach("end");
}
