#include "sx.h"
#include <cmath>
#include "resim/assert/assert.hh"
#include "resim/time/sample_interval.hh"
using namespace resim;
using namespace resim::time;

namespace {
constexpr double R = 1e4;
double mag(double x) { return x < 0 ? -x : x; }
}  // namespace

// The number of samples is the least one whose even step does not exceed the maximum
// (up to floating-point rounding), and sampling visits exactly the even partition.
SX_ENTRY samples() {
  const double a = sx_real("start", -R, R), b = sx_real("end", -R, R);
  const double dt = sx_real("dt", 1e-6, R);
  const int MAXN = sx_tier() ? 7 : 5;
  const double span = mag(b - a);
  sx_assume(span <= (MAXN - 1) * dt);
  sx_assume(a == b or span >= 1e-100);  // not an underflowing difference
  const int64_t n = num_samples(a, b, dt);
  const double tol = 1e-12 * R;
  sx_assert(n >= 1, "fewer than one sample");
  sx_assert(static_cast<double>(n - 1) * dt >= span - tol, "steps longer than the requested maximum");
  sx_assert(n == 1 or static_cast<double>(n - 2) * dt < span + tol, "more samples than necessary");
  int k = 0;
  double got[16];
  sample_interval(a, b, dt, [&](double t) {
    if (k < 16) got[k] = t;
    k++;
  });
  if (a == b) {
    sx_reach("empty");
    sx_assert(k == 1 and got[0] == a, "an empty interval is sampled other than once at its start");
    return;
  }
  sx_assert(k == n, "number of callbacks is not the sample count");
  if (k != n) return;
  sx_assert(got[0] == a, "first sample is not the start");
  sx_assert(got[n - 1] == b, "last sample is not the end");
  if (n > 2) sx_reach("interior");
  for (int i = 1; i + 1 < n; i++) {
    const double f = static_cast<double>(i) / static_cast<double>(n - 1);
    sx_near(got[i], a + f * (b - a), tol, "sample away from its even position");
  }
}
SX_ENTRY rejects() {
  const double a = sx_real("start", -R, R), b = sx_real("end", -R, R);
  const double dt = sx_real("dt", -R, R);
  sx_assume(not(dt > 0.));
  sx_assert(sx_throws_as<AssertException>([&] { num_samples(a, b, dt); }), "a step that is not positive was accepted");
  int k = 0;
  sx_assert(a == b or sx_throws_as<AssertException>([&] { sample_interval(a, b, dt, [&](double) { k++; }); }),
            "sampling accepted a step that is not positive");
  sx_assert(k == 0, "samples were produced before the step was rejected");
  sx_reach("rejected");
}
// Counts beyond 32 bits are returned unchanged.
SX_ENTRY large() {
  const double b = sx_real("end", 1., 1e9);
  const double dt = sx_real("dt", 1e-3, 1.);
  const int64_t n = num_samples(0., b, dt);
  const double e = sx_exact(n);
  sx_assert((e - 1.) * dt >= b - 1e-5 * dt - 1e-12 * b, "too few samples");
  sx_assert((e - 2.) * dt < b + 1e-5 * dt + 1e-12 * b, "too many samples");
  sx_reach("large");
}
// Many samples (as exact reals).
SX_ENTRY many() {
  const double a = sx_real("start", -R, R);
  const bool back = sx_choose("back", 2);
  const double b = back ? a - 300.125 : a + 300.125;
  int k = 0;
  double got[1024];
  sample_interval(a, b, 0.5, [&](double t) {
    if (k < 1024) got[k] = t;
    k++;
  });
  sx_assert(k == 602 and num_samples(a, b, 0.5) == 602, "number of callbacks is not the sample count");
  for (int i = 0; i < 602; i++) sx_near(got[i] * 601., a * 601. + i * (back ? -300.125 : 300.125), 1e-6, "sample away from its even position");
  sx_reach("end");
}
