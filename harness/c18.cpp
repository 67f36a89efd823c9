#include "geo.h"
#include "resim/curves/quintic_poly_coeffs.hh"
using namespace resim::curves;
namespace {
// A quintic with value, first and second derivative given at both ends is unique; these
// are the five non-constant Hermite quintics and their derivatives, written in powers of
// t and s = 1 - t.
void check(const TwoJetPolyCoeffs &c, double a, double da, double d2a, const char *m) {
  sx_near(c.a, a, 1e-12, m);
  sx_near(c.da, da, 1e-12, m);
  sx_near(c.d2a, d2a, 1e-12, m);
}
}  // namespace
SX_ENTRY basis() {
  const double t = sx_real("t", -1., 2.), s = 1. - t;
  check(QuinticPolyCoeffs::dest_from_orig(t), t * t * t * (1. + 3. * s + 6. * s * s), 30. * t * t * s * s, 60. * t * s * (s - t),
        "the displacement polynomial is not the Hermite quintic");
  check(QuinticPolyCoeffs::d_orig(t), t * s * s * s * (1. + 3. * t), s * s * (1. + 2. * t - 15. * t * t), 12. * t * s * (-3. * s + 2. * t),
        "the origin velocity polynomial is not the Hermite quintic");
  check(QuinticPolyCoeffs::d_dest(t), -(t * t * t * s * (1. + 3. * s)), t * t * (1. + 2. * s - 15. * s * s), -12. * t * s * (-3. * t + 2. * s),
        "the destination velocity polynomial is not the Hermite quintic");
  check(QuinticPolyCoeffs::d2_orig(t), 0.5 * t * t * s * s * s, 0.5 * t * s * s * (2. * s - 3. * t), s * (s * s - 6. * t * s + 3. * t * t),
        "the origin acceleration polynomial is not the Hermite quintic");
  check(QuinticPolyCoeffs::d2_dest(t), 0.5 * t * t * t * s * s, 0.5 * t * t * s * (3. * s - 2. * t), t * (t * t - 6. * t * s + 3. * s * s),
        "the destination acceleration polynomial is not the Hermite quintic");
  sx_reach("end");
}
// What the polynomials are for: they meet the six end conditions.
SX_ENTRY ends() {
  const int e = sx_choose("end", 2);
  const double t = e, at0 = e == 0, at1 = e == 1;
  const char *m = "an end condition is not met";
  check(QuinticPolyCoeffs::dest_from_orig(t), at1, 0., 0., m);
  check(QuinticPolyCoeffs::d_orig(t), 0., at0, 0., m);
  check(QuinticPolyCoeffs::d_dest(t), 0., at1, 0., m);
  check(QuinticPolyCoeffs::d2_orig(t), 0., 0., at0, m);
  check(QuinticPolyCoeffs::d2_dest(t), 0., 0., at1, m);
  sx_reach("end");
}
