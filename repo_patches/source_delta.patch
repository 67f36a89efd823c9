From e5cc5df45690b2294f6945d8bf8188c18957f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:09 +0000
Subject: [PATCH 01/10] fix: num_samples(Timestamp) is minimal for empty
 intervals

With equal end points one sample suffices, but 2 was returned whenever
max_abs_dt was more than a nanosecond.
---
 resim/time/sample_interval.cc | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4d842c1..f313524 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -62,22 +62,16 @@ int64_t num_samples(
   //
   // max_abs_dt * (n - 1) >= total_time
   //
-  // Since this is an integer equation (with things wrapped in Durations), this
-  // is equivalent to:
-  //
-  // max_abs_dt * (n - 1) > total_time - 1
-  //
   // So:
   //
-  // n > (total_time - 1) / max_abs_dt + 1
-  //
-  // So we can define:
-  //
-  // n = (total_time - 1) / max_abs_dt + 2
+  // n = ceil(total_time / max_abs_dt) + 1
   //
   // This sum could oveflow if max_abs_dt.count() == 1 and total_time.count() ==
   // INT64_MAX
-  return math::safe_sum((total_time.count() - 1) / max_abs_dt.count(), 2);
+  const int64_t remainder = total_time.count() % max_abs_dt.count();
+  return math::safe_sum(
+      total_time.count() / max_abs_dt.count() + (remainder > 0 ? 1 : 0),
+      1);
 }
 
 void sample_interval(
-- 
2.43.0


From b9870a1821caf5b0c6519b552023de3257033764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:09 +0000
Subject: [PATCH 02/10] fix: num_samples(double) keeps counts that do not fit
 an int

The count is returned as int64_t but was converted through int first, which
is undefined for more than 2^31 samples.
---
 resim/time/sample_interval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index f313524..f74a63e 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -29,7 +29,7 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int>(std::ceil(total_time / max_abs_dt)) + 1;
+  return static_cast<int64_t>(std::ceil(total_time / max_abs_dt)) + 1;
 }
 
 void sample_interval(
-- 
2.43.0


From cd7a6f5a597e45399497cea24f6b47c7727de5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:09 +0000
Subject: [PATCH 03/10] fix: sample_interval(Timestamp) for reversed and very
 long intervals

A reversed interval rounded its samples towards the start instead of to the
closest timestamp, and the sum of the numerator and the whole interval could
overflow and throw for long intervals.
---
 resim/time/sample_interval.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index f74a63e..cb1d135 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -85,9 +85,10 @@ void sample_interval(
   }
   const int64_t samples = num_samples(start_time, end_time, max_abs_dt);
   const int64_t intervals = samples - 1;
-  const Duration total_time{math::safe_difference(
+  const bool reversed = end_time < start_time;
+  const Duration total_time{math::safe_abs(math::safe_difference(
       end_time.time_since_epoch().count(),
-      start_time.time_since_epoch().count())};
+      start_time.time_since_epoch().count()))};
 
   // When we divide the range into perfect intervals, we get rational
   // samples. We track the locations of these rational samples using a
@@ -99,22 +100,27 @@ void sample_interval(
   //
   // Since we need to make a timestamp with an integer count, we
   // always just round to the nearest integer.
+  const int64_t whole_step = total_time.count() / intervals;
+  const int64_t numerator_step = total_time.count() % intervals;
   int64_t whole = 0;
   int64_t numerator = 0;
   for (int64_t ii = 0; ii < samples; ++ii) {
+    if (ii > 0) {
+      // Increment
+      whole += whole_step;
+      numerator += numerator_step;
+
+      // Restore the mixed number
+      whole += numerator / intervals;
+      numerator %= intervals;
+    }
+
     // Should never overflow since rounded will be less than or equal to
     // total_time.
     const int64_t rounded = whole + ((2 * numerator >= intervals) ? 1 : 0);
     const Duration time{rounded};
 
-    func(start_time + time);
-
-    // Increment
-    numerator = math::safe_sum(numerator, total_time.count());
-
-    // Restore the mixed number
-    whole += numerator / intervals;
-    numerator %= intervals;
+    func(reversed ? start_time - time : start_time + time);
   }
 }
 
-- 
2.43.0


From c7e9bbb87698f733171e60690befb98e2ac09912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:05 +0000
Subject: [PATCH 04/10] fix: reject UUID strings with characters behind a null
 character

Only the part in front of the first null character was parsed.
---
 resim/utils/uuid.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resim/utils/uuid.cc b/resim/utils/uuid.cc
index fd9d817..a59c81d 100644
--- a/resim/utils/uuid.cc
+++ b/resim/utils/uuid.cc
@@ -22,6 +22,9 @@ UUID::UUID(std::array<unsigned char, ARRAY_SIZE> id) : id_(id) {}
 
 UUID::UUID(const std::string &str) : id_{} {
   constexpr int SUCCESS = 0;
+  // uuid_parse() stops at the first null character, so make sure that there's
+  // nothing hiding behind one.
+  REASSERT(str.find('\0') == std::string::npos, "Invalid UUID string!");
   const int result = uuid_parse(str.c_str(), id_.data());
   REASSERT(SUCCESS == result, "Invalid UUID string!");
 }
-- 
2.43.0


From 025f126065cc4f915e1cdb33f5af6c3aaf58b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:08 +0000
Subject: [PATCH 05/10] fix: reject NaN query times in TCurve::point_at

The range check compared with < and >, which a NaN time passes; point_at
then returned a pose full of NaNs instead of failing as it does for any
other time outside the curve.
---
 resim/curves/t_curve.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resim/curves/t_curve.cc b/resim/curves/t_curve.cc
index 4e5a719..ecb2b8e 100644
--- a/resim/curves/t_curve.cc
+++ b/resim/curves/t_curve.cc
@@ -139,9 +139,10 @@ typename TCurve<Group>::PointAtData TCurve<Group>::point_at_impl(
   REASSERT(!segments_.empty(), EMPTY_ERR);
   constexpr auto TIME_RANGE_ERR =
       "Query time must be within the range of times in the control points.";
-  const bool time_lo = time < control_pts_.front().time;
-  const bool time_hi = time > control_pts_.back().time;
-  REASSERT(!time_lo && !time_hi, TIME_RANGE_ERR);
+  // Written so that a NaN query time is out of range too.
+  const bool after_start = time >= control_pts_.front().time;
+  const bool before_end = time <= control_pts_.back().time;
+  REASSERT(after_start && before_end, TIME_RANGE_ERR);
   const auto s = std::lower_bound(
       segments_.begin(),
       segments_.end(),
-- 
2.43.0


From 2a668b766c6c17fd53625bf91d655fdd373a2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:15 +0000
Subject: [PATCH 06/10] fix: DCurve::point_at on a zero-length first segment

A curve whose first two control points coincide has a segment of zero
length; the fraction along it was 0/0 and the pose returned was NaN.
---
 resim/curves/d_curve.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..f935238 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -132,8 +132,12 @@ typename DCurve<Group>::PointAtData DCurve<Group>::point_at_impl(
       });
   REASSERT(s != segments_.end(), "Did not find valid segment.");
 
-  const double fraction = (arc_length - s->orig_arc_length) /
-                          (s->dest_arc_length - s->orig_arc_length);
+  // A segment between coincident control points has no length.
+  const double segment_length = s->dest_arc_length - s->orig_arc_length;
+  const double fraction =
+      segment_length > ZERO
+          ? (arc_length - s->orig_arc_length) / segment_length
+          : ZERO;
   return {.fraction = fraction, .s = s};
 }
 
-- 
2.43.0


From 7b897e7599784270b8f53fd838390f1e77f28943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:15 +0000
Subject: [PATCH 07/10] fix: DCurve rejects framed control points on an
 unframed curve

The frames of a control point were only checked when the curve was
framed, so a framed point could follow an unframed one, against the
documented rule that all control points use the same frames.
---
 resim/curves/d_curve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index f935238..7be722f 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -32,7 +32,7 @@ DCurve<Group>::DCurve(std::initializer_list<Group> points) {
 
 template <typename Group>
 void DCurve<Group>::append(Group ref_from_control) {
-  if (!control_pts_.empty() and this->is_framed()) {
+  if (!control_pts_.empty()) {
     REASSERT(
         ref_from_control.verify_frames(
             this->reference_frame(),
-- 
2.43.0


From a6cba160a8e83ebfb4f083bb1e99525e3203affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:09 +0000
Subject: [PATCH 08/10] fix: Trajectory duration and end time to the nanosecond

The end of a trajectory was converted from seconds by truncation, which
returned a nanosecond too little for some 15% of all durations (15 ns
became 14 ns) and could return a time past the end of a curve given in
seconds, so that point_at(end_time()) failed. Both queries also read
behind the end of an empty trajectory instead of failing like the others.
---
 resim/actor/state/trajectory.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..10abda9 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -73,7 +73,19 @@ time::Timestamp Trajectory::end_time() const {
 }
 
 time::Duration Trajectory::time_duration() const {
-  return time::as_duration(curve_.control_pts().back().time);
+  const double end_s = curve_.end_time();
+  // Converting seconds back to a duration can be a nanosecond off in either
+  // direction. Return the longest duration which is still on the curve: this is
+  // exactly the time of the last control point if that has a timestamp.
+  constexpr time::Duration TICK{1};
+  const time::Duration duration = time::as_duration(end_s);
+  if (time::as_seconds(duration) > end_s) {
+    return duration - TICK;
+  }
+  if (time::as_seconds(duration + TICK) <= end_s) {
+    return duration + TICK;
+  }
+  return duration;
 }
 
 const Frame &Trajectory::reference_frame() const {
-- 
2.43.0


From d9012495a1f255c449d82326e726641b1f54e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:41 +0000
Subject: [PATCH 09/10] fix: keep the temporary alive in RETURN_OR_ASSIGN

The macro bound a reference to a temporary operand that was destroyed at
the end of that declaration, and read its status and value afterwards.
With a value that owns memory this is a use after free.
---
 resim/utils/status_value.hh | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 3d73fc6..2ac03ac 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
@@ -150,18 +151,23 @@ constexpr const Status &StatusValue<T>::status() const {
 // ok. Otherwise, assign the value as the value of this expression. We don't
 // really have a choice but to use the GNU statement expression extension here
 // unless we pass the assignment target in too. We use the lambda because
-// otherwise the statement expression doesn't preserve references.
+// otherwise the statement expression doesn't preserve references. A temporary
+// is moved into the lambda, since it is otherwise destroyed before its value is
+// read, and everything else is held by reference.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define RETURN_OR_ASSIGN(status_value)                        \
-  ({                                                          \
-    auto &&evalutated_status_value =                          \
-        std::forward<decltype(status_value)>(status_value);   \
-    RETURN_IF_NOT_OK(evalutated_status_value.status());       \
-    [&]() -> decltype(auto) {                                 \
-      return std::forward<decltype(evalutated_status_value)>( \
-                 evalutated_status_value)                     \
-          .value();                                           \
-    };                                                        \
+#define RETURN_OR_ASSIGN(status_value)                                    \
+  ({                                                                      \
+    std::tuple<std::conditional_t<                                        \
+        std::is_reference_v<decltype((status_value))>,                    \
+        decltype(status_value) &&,                                        \
+        decltype(status_value)>>                                          \
+        evaluated_status_value{                                           \
+            std::forward<decltype(status_value)>(status_value)};          \
+    RETURN_IF_NOT_OK(std::get<0>(evaluated_status_value).status());       \
+    [evaluated_status_value =                                             \
+         std::move(evaluated_status_value)]() mutable -> decltype(auto) { \
+      return std::get<0>(std::move(evaluated_status_value)).value();      \
+    };                                                                    \
   })()
 
 }  // namespace resim
-- 
2.43.0


From a703a586d333814e5d8db8893f7e9ae1d8a639cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:11 +0000
Subject: [PATCH 10/10] fix: evaluate the operand of CHECK_STATUS_OK once

---
 resim/utils/status.hh | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/resim/utils/status.hh b/resim/utils/status.hh
index c46ff2f..225f3f6 100644
--- a/resim/utils/status.hh
+++ b/resim/utils/status.hh
@@ -79,14 +79,15 @@ constexpr Status OKAY_STATUS{};
 
 // Define a macro to check that a given status is okay.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define CHECK_STATUS_OK(status)       \
-  ({                                  \
-    const auto err_msg = fmt::format( \
-        fg(fmt::color::red),          \
-        "{{{0}.what() == {1}}}",      \
-        #status,                      \
-        (status).what());             \
-    REASSERT((status).ok(), err_msg); \
+#define CHECK_STATUS_OK(status)               \
+  ({                                          \
+    const auto evaluated_status = (status);   \
+    const auto err_msg = fmt::format(         \
+        fg(fmt::color::red),                  \
+        "{{{0}.what() == {1}}}",              \
+        #status,                              \
+        evaluated_status.what());             \
+    REASSERT(evaluated_status.ok(), err_msg); \
   })
 
 // Return from the enclosing function if the given status result is not ok.
-- 
2.43.0

