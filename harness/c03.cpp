#include "sx.h"
#include "resim/assert/assert.hh"
#include "resim/time/timestamp.hh"
#include "resim/time/sample_interval.hh"
using namespace resim;
using namespace resim::time;

// as_seconds is the exact quotient up to one rounding unit (relative 2^-51), for every count.
SX_ENTRY seconds() {
  const int64_t n = sx_i64("count");
  const double x = sx_exact(n);
  const double t = as_seconds(Duration{n});
  const double err = t * 1e9 - x;  // computed here in arithmetic that is exact up to the stated tolerance
  const double tol = 8.9e-16 * (x < 0 ? -x : x) + 1e-100;
  sx_assert(err <= tol and -err <= tol, "as_seconds is not the count divided by 1e9");
  sx_reach("seconds");
}
// as_duration is within one nanosecond (plus rounding) of t seconds, never further from zero than t.
SX_ENTRY duration() {
  const double t = sx_real("t", -9.2e9, 9.2e9);
  const Duration d = as_duration(t);
  const double n = sx_exact(d.count());
  const double e = t * 1e9;
  const double tol = 1.0 + 4.5e-16 * (e < 0 ? -e : e);
  sx_assert(n - e <= tol and e - n <= tol, "as_duration is more than a nanosecond off");
  sx_reach("duration");
}
// Round trip within one nanosecond up to 2^50 ns (13 days).
SX_ENTRY roundtrip() {
  const int64_t n = sx_i64("count");
  const double x = sx_exact(n);
  sx_assume(x <= 1125899906842624.0 and x >= -1125899906842624.0);
  const double m = sx_exact(as_duration(as_seconds(Duration{n})).count());
  sx_assert(m - x < 1.5 and x - m < 1.5, "count -> seconds -> count moved by more than a nanosecond");
  sx_reach("roundtrip");
}
