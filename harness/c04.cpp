#include "sx.h"
#include <vector>
#include <memory>
#include "resim/assert/assert.hh"
#include "resim/time/event_schedule.hh"
using namespace resim;
using namespace resim::time;

// A history of n operations, each push (arbitrary timestamp) or pop, checked after
// every step against the multiset of outstanding events in insertion order.
namespace {
struct Ref {
  int64_t t;
  int id;
};
template <typename Count>
void history(int steps, int maxPush) {
  EventSchedule<int, Count> q;
  std::vector<Ref> ref;
  ref.reserve(16);
  int pushes = 0;
  for (int k = 0; k < steps; k++) {
    const bool push = ref.empty() or (pushes < maxPush and sx_choose("op", 2) == 0);
    if (push) {
      if (pushes >= maxPush) break;
      const int64_t t = sx_i64("t");
      q.schedule_event(Timestamp{Duration{t}}, pushes);
      ref.push_back({t, pushes});
      pushes++;
    } else {
      q.pop_event();
      size_t best = 0;
      for (size_t i = 1; i < ref.size(); i++)
        if (ref[i].t < ref[best].t) best = i;
      ref.erase(ref.begin() + best);
      sx_reach("popped");
    }
    sx_assert(q.size() == ref.size(), "size is not the number of outstanding events");
    if (not ref.empty()) {
      size_t best = 0;
      for (size_t i = 1; i < ref.size(); i++)
        if (ref[i].t < ref[best].t) best = i;
      sx_assert(q.top_event().time.time_since_epoch().count() == ref[best].t, "top event is not the earliest");
      sx_assert(q.top_event().payload == ref[best].id, "top event is not the first scheduled among the earliest");
    }
  }
}
}  // namespace

SX_ENTRY interleaved() { history<uint64_t>(sx_tier() ? 7 : 6, 4); }

// Push n then drain: the whole order is determined by (time, insertion).
SX_ENTRY drain() {
  const int n = sx_tier() ? 6 : 5;
  EventSchedule<int> q;
  int64_t t[8];
  for (int i = 0; i < n; i++) {
    t[i] = sx_i64("t");
    q.schedule_event(Timestamp{Duration{t[i]}}, i);
  }
  int64_t lastT = 0;
  int lastId = -1;
  bool seen[8] = {false};
  for (int i = 0; i < n; i++) {
    const int id = q.top_event().payload;
    const int64_t tt = q.top_event().time.time_since_epoch().count();
    sx_assert(id >= 0 and id < n and not seen[id], "an event was delivered twice or invented");
    seen[id] = true;
    sx_assert(tt == t[id], "an event changed its time");
    if (i > 0) {
      sx_assert(lastT <= tt, "events out of time order");
      sx_assert(lastT != tt or lastId < id, "equal-time events out of insertion order");
    }
    lastT = tt;
    lastId = id;
    q.pop_event();
  }
  sx_assert(q.size() == 0, "events left over");
  sx_reach("drained");
}

// A schedule whose insertion counter is exhausted rejects the event and keeps its contents.
SX_ENTRY exhausted() {
  using S = EventSchedule<int, uint8_t>;
  S q;
  const int64_t last = sx_i64("last");
  for (int i = 0; i < 255; i++) {
    if (i > 0) q.pop_event();
    q.schedule_event(Timestamp{Duration{i == 254 ? last : i}}, i);
  }
  const int64_t t = sx_i64("t");
  sx_assert(sx_throws_as<AssertException>([&] { q.schedule_event(Timestamp{Duration{t}}, 255); }),
            "an exhausted schedule accepted an event");
  sx_assert(q.size() == 1 and q.top_event().payload == 254 and q.top_event().time.time_since_epoch().count() == last,
            "rejecting an event changed the schedule");
  sx_reach("exhausted");
}
// Payloads that can only be moved arrive intact.
SX_ENTRY move_only() {
  EventSchedule<int> q;
  int64_t t[3];
  int v[3];
  for (int i = 0; i < 3; i++) {
    t[i] = sx_i64("t");
    v[i] = sx_i32("v");
    q.schedule_event(Timestamp{Duration{t[i]}}, v[i]);
  }
  int best = 0;
  for (int i = 1; i < 3; i++)
    if (t[i] < t[best]) best = i;
  sx_assert(q.top_event().payload == v[best], "payload of the top event changed");
  q.pop_event();
  const int64_t s = sx_i64("s");
  q.schedule_event(Timestamp{Duration{s}}, 77);
  int64_t m = s;
  bool late = true;
  for (int i = 0; i < 3; i++)
    if (i != best and t[i] <= m) m = t[i], late = false;
  sx_assert(q.top_event().time.time_since_epoch().count() == m, "earliest event not on top");
  sx_assert((q.top_event().payload == 77) or not late, "late event hidden");
  sx_reach("moved");
}
// One arbitrary event among a few hundred others, some of them at the same time.
SX_ENTRY crowd() {
  const int n = 240, mid = 100;
  EventSchedule<int> q;
  std::vector<int64_t> t(n);
  for (int i = 0; i < n; i++) {
    t[i] = i == mid ? sx_i64("t") : (i * 37) % 19 - 9;
    q.schedule_event(Timestamp{Duration{t[i]}}, i);
  }
  std::vector<bool> seen(n, false);
  int64_t lastT = 0;
  int lastId = -1;
  for (int i = 0; i < n; i++) {
    const int id = q.top_event().payload;
    const int64_t tt = q.top_event().time.time_since_epoch().count();
    sx_assert(id >= 0 and id < n and not seen[id], "an event was delivered twice or invented");
    seen[id] = true;
    sx_assert(tt == t[id], "an event changed its time");
    sx_assert(i == 0 or lastT < tt or (lastT == tt and lastId < id), "events out of order");
    lastT = tt;
    lastId = id;
    q.pop_event();
    sx_assert(q.size() == std::size_t(n - 1 - i), "size is not the number of outstanding events");
  }
  sx_reach("drained");
}
// A schedule in use for long: more events than fit in sixteen bits, a few outstanding at a time.
SX_ENTRY marathon() {
  EventSchedule<int> q;
  const int n = 66000, last = n - 3;
  // these stay until the end; the distances between them, in events scheduled, pass 2^14, 2^15 and 2^16
  const int outstanding[] = {0, 20000, 36000, 57000};
  int next = 0;
  const int64_t t = sx_i64("t");
  sx_assume(t >= 0);
  for (int i = 0; i < n; i++) {
    if (next < 4 and i == outstanding[next]) q.schedule_event(Timestamp::max(), -++next);
    q.schedule_event(Timestamp{Duration{i < last ? 0 : t}}, i);
    if (i < last and i > 1) {
      if (q.top_event().payload != i - 2) sx_assert(false, "equal-time events out of insertion order");
      q.pop_event();
    }
  }
  sx_assume(t < INT64_MAX);
  q.schedule_event(Timestamp::max(), n);
  for (int i = 0; i < 5; i++) {
    sx_assert(q.top_event().payload == n - 5 + i, "equal-time events out of insertion order");
    q.pop_event();
  }
  for (int k = 1; k <= 4; k++) {
    sx_assert(q.top_event().payload == -k, "equal-time events out of insertion order");
    q.pop_event();
  }
  sx_assert(q.top_event().payload == n, "equal-time events out of insertion order");
  q.pop_event();
  sx_assert(q.size() == 0, "events left over");
  sx_reach("drained");
}
