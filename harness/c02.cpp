#include "sx.h"
#include "resim/time/timestamp.hh"
using namespace resim::time;

// Every duration splits into whole seconds and sub-second nanoseconds of the same
// sign, and joins back to exactly the same duration.
SX_ENTRY split_join() {
  const int64_t n = sx_i64("count");
  const Duration d{n};
  const SecsAndNanos s = to_seconds_and_nanos(d);
  sx_assert(s.nanos > -1000000000 and s.nanos < 1000000000, "nanoseconds not within one second");
  using W = __int128;
  sx_assert(static_cast<W>(s.secs) * 1000000000 + s.nanos == static_cast<W>(n), "seconds and nanoseconds do not add up");
  sx_assert(n >= 0 ? (s.secs >= 0 and s.nanos >= 0) : (s.secs <= 0 and s.nanos <= 0), "mixed signs");
  sx_assert(from_seconds_and_nanos(s).count() == n, "split then join changed the duration");
  sx_reach("split");
}
// Every representable pair joins to secs * 1e9 + nanos; a normalised pair comes back.
SX_ENTRY join_split() {
  SecsAndNanos s;
  s.secs = sx_i64("secs");
  s.nanos = sx_i32("nanos");
  using W = __int128;
  const W exact = static_cast<W>(s.secs) * 1000000000 + s.nanos;
  // representable: the product and the sum both fit
  const W prod = static_cast<W>(s.secs) * 1000000000;
  sx_assume(exact <= INT64_MAX and exact >= INT64_MIN and prod <= INT64_MAX and prod >= INT64_MIN);
  const Duration d = from_seconds_and_nanos(s);
  sx_assert(static_cast<W>(d.count()) == exact, "join is not secs*1e9+nanos");
  if (s.nanos > -1000000000 and s.nanos < 1000000000 and
      ((s.secs >= 0 and s.nanos >= 0) or (s.secs <= 0 and s.nanos <= 0))) {
    sx_reach("normalised");
    const SecsAndNanos b = to_seconds_and_nanos(d);
    sx_assert(b.secs == s.secs and b.nanos == s.nanos, "join then split changed a normalised pair");
  }
}
