#include "sx.h"
#include "resim/assert/assert.hh"
#include "resim/time/sample_interval.hh"
using namespace resim;
using namespace resim::time;
using W = __int128;

namespace {
Timestamp ts(int64_t n) { return Timestamp{Duration{n}}; }
}  // namespace

// num_samples is the least n >= 1 with (n-1)*dt >= |end-start|; it fails exactly when
// the span or the count is not representable or dt is not positive.
SX_ENTRY count() {
  const int64_t a = sx_i64("start"), b = sx_i64("end"), dt = sx_i64("dt");
  const W span = a < b ? static_cast<W>(b) - a : static_cast<W>(a) - b;
  bool threw = false;
  int64_t n = 0;
  try {
    n = num_samples(ts(a), ts(b), Duration{dt});
  } catch (const AssertException &) {
    threw = true;
  }
  if (threw) {
    sx_reach("rejected");
    sx_assert(dt <= 0 or span > INT64_MAX or (dt == 1 and span == INT64_MAX), "a representable interval was rejected");
  } else {
    sx_reach("counted");
    sx_assert(dt > 0, "a step that is not positive was accepted");
    sx_assert(n >= 1, "fewer than one sample");
    sx_assert(static_cast<W>(n - 1) * dt >= span, "steps longer than the requested maximum");
    sx_assert(n == 1 or static_cast<W>(n - 2) * dt < span, "more samples than necessary");
  }
}

SX_ENTRY samples() {
  const int64_t a = sx_i64("start"), b = sx_i64("end"), dt = sx_i64("dt");
  const int MAXN = sx_tier() ? 7 : 5;
  sx_assume(dt > 0);
  const W span = a < b ? static_cast<W>(b) - a : static_cast<W>(a) - b;
  sx_assume(span <= INT64_MAX);
  // n: the least count with (n-1)*dt >= span
  const int n = 1 + sx_choose("n-1", MAXN);
  sx_assume(static_cast<W>(n - 1) * dt >= span and (n == 1 or static_cast<W>(n - 2) * dt < span));
  int k = 0;
  int64_t got[16];
  sample_interval(ts(a), ts(b), Duration{dt}, [&](Timestamp t) {
    if (k < 16) got[k] = t.time_since_epoch().count();
    k++;
  });
  sx_assert(k == n, "number of callbacks is not the minimal sample count");
  if (k != n) return;
  sx_assert(got[0] == a, "first sample is not the start");
  sx_assert(got[n - 1] == b, "last sample is not the end");
  if (a < b) sx_reach("forward");
  if (a > b) sx_reach("backward");
  for (int i = 1; i < n; i++) {
    const W step = a < b ? static_cast<W>(got[i]) - got[i - 1] : static_cast<W>(got[i - 1]) - got[i];
    sx_assert(step >= 0 and step <= dt, "samples not monotone or further apart than the maximum step");
    // closest: |(got-a)*(n-1) - i*(b-a)| * 2 <= n-1
    W err = (static_cast<W>(got[i]) - a) * (n - 1) - static_cast<W>(i) * (static_cast<W>(b) - a);
    if (err < 0) err = -err;
    sx_assert(2 * err <= n - 1, "sample is not the timestamp closest to its exact position");
  }
}
// Many samples, anywhere in time and in both directions.
SX_ENTRY many() {
  const int64_t a = sx_i64("start");
  const int64_t dt = 7;
  const int n = 301;
  const int64_t span = (n - 1) * dt - sx_choose("short", 3) * 3;
  const bool back = sx_choose("back", 2);
  sx_assume(back ? a >= INT64_MIN + span : a <= INT64_MAX - span);
  const int64_t b = back ? a - span : a + span;
  int k = 0;
  int64_t got[512];
  sample_interval(ts(a), ts(b), Duration{dt}, [&](Timestamp t) {
    if (k < 512) got[k] = t.time_since_epoch().count() - a;
    k++;
  });
  sx_assert(k == n, "number of callbacks is not the minimal sample count");
  if (k != n) return;
  for (int i = 0; i < n; i++) {
    int64_t err = got[i] * (n - 1) - i * (back ? -span : span);
    if (err < 0) err = -err;
    sx_assert(2 * err <= n - 1, "sample is not the timestamp closest to its exact position");
  }
  sx_assert(got[0] == 0 and got[n - 1] == b - a, "first or last sample is not the end of the interval");
  sx_reach("end");
}
