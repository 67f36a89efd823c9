#include <array>
#include <vector>
#include "jets.h"
#include "resim/actor/state/trajectory.hh"
#include "resim/assert/assert.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
using actor::state::Trajectory;
using State = actor::state::RigidBodyState<SE3>;
using time::Duration;
using time::Timestamp;
namespace {
constexpr int64_t LIM = int64_t{1} << 50;  // 13 days
State at(double x) { return State{SE3{V3{x, 0., 0.}}}; }
Timestamp stamp(int64_t n) { return Timestamp{Duration{n}}; }
void same(const State &a, const State &b, const char *m) {
  near(a.ref_from_body(), b.ref_from_body(), m, 1e-7);
  near(a.ref_from_body_two_jet().d_ref_from_frame(), b.ref_from_body_two_jet().d_ref_from_frame(), m, 1e-6);
  near(a.ref_from_body_two_jet().d2_ref_from_frame(), b.ref_from_body_two_jet().d2_ref_from_frame(), m, 1e-6);
}
}  // namespace
// A trajectory ends at the timestamp of its last control point, to the nanosecond.
SX_ENTRY ends() {
  const int64_t n = sx_range("n", 1, LIM);
  const int64_t s = sx_choose("start", 2) ? 1700000000123456789 : 0;
  const Trajectory t{{stamp(s), at(0.)}, {stamp(s + n), at(1.)}};
  sx_assert(t.start_time() == stamp(s), "a trajectory does not start at its first control point");
  sx_assert(sx_exact(t.time_duration().count()) == sx_exact(n), "a trajectory does not last from its first to its last control point");
  sx_assert(sx_exact(t.end_time().time_since_epoch().count() - s) == sx_exact(n), "a trajectory does not end at its last control point");
  sx_reach("end");
}
// The same with the arithmetic bit for bit, for short durations.
SX_ENTRY ends_short() {
  const int64_t n = sx_i64("n");
  sx_assume(n >= 1 and n < 256);
  const Trajectory t{{stamp(3), at(0.)}, {stamp(3 + n), at(1.)}};
  sx_assert(t.end_time() == stamp(3 + n), "a trajectory does not end at its last control point");
  sx_reach("end");
}
// Made from a curve it ends at the last timestamp at which the curve can be queried.
SX_ENTRY ends_curve() {
  const double e = sx_real("e", 1e-6, 1e6);
  TCurve<SE3> c;
  c.append({0., TwoJetL<SE3>{}});
  c.append({e, TwoJetL<SE3>{}});
  const Trajectory t{c, stamp(5)};
  const Duration d = t.time_duration();
  sx_assert(time::as_seconds(d) <= e, "a trajectory claims to last longer than its curve");
  const double x = sx_exact(d.count());
  sx_assert(x >= e * 1e9 - 1.5, "a trajectory ends more than a nanosecond before its curve");
  sx_assert(t.end_time() == stamp(5) + d, "the end is not the start plus the duration");
  sx_assert(t.start_time() == stamp(5), "a trajectory does not start at the time given");
  sx_reach("end");
}
// Control points are accepted exactly in order of their timestamps, and a rejected one changes nothing.
SX_ENTRY order() {
  const int64_t a = 0, b = sx_range("b", -LIM, LIM), c = sx_range("c", -LIM, LIM);
  Trajectory t;
  t.append({stamp(a), at(0.)});
  const bool rb = sx_throws_as<AssertException>([&] { t.append({stamp(b), at(1.)}); });
  sx_assert(rb == not(sx_exact(b) > 0.), "control points out of order were accepted, or ordered ones rejected");
  const bool rc = sx_throws_as<AssertException>([&] { t.append({stamp(c), at(2.)}); });
  sx_assert(rc == not(rb ? sx_exact(c) > 0. : sx_exact(c) > sx_exact(b)), "control points out of order were accepted, or ordered ones rejected");
  sx_assert(t.curve().control_pts().size() == std::size_t(1 + not rb + not rc), "a rejected control point changed the trajectory, or an accepted one is missing");
  sx_assert(t.start_time() == stamp(a), "appending changed the start of the trajectory");
  sx_reach(rb ? "rejected" : "accepted");
}
// The motion does not depend on the date, and both ways to query it agree.
SX_ENTRY shifted() {
  const int64_t s = sx_i64("s");
  sx_assume(s >= -LIM * 1000 and s <= LIM * 1000);
  State::StateDerivatives d;
  d.velocity.linear_mps = V3{1., 2., 3.};
  d.velocity.angular_radps = V3{0.5, 0., -0.25};
  d.acceleration.linear_mpss = V3{-1., 0., 0.5};
  const State x{SE3{SO3{0.5, V3::UnitZ()}, V3{1., 2., 3.}}, d}, y{SE3{SO3{0.75, V3::UnitX()}, V3{3., 2., 3.}}, d};
  const Trajectory t{{stamp(s), x}, {stamp(s + 1500000000), y}, {stamp(s + 4000000000), x}};
  const Trajectory r{{stamp(0), x}, {stamp(1500000000), y}, {stamp(4000000000), x}};
  const int64_t q[5] = {0, 750000000, 1500000000, 2000000001, 4000000000};
  const int64_t o = q[sx_choose("at", 5)];
  same(t.point_at(stamp(s + o)), r.point_at(Duration{o}), "a trajectory depends on its date");
  same(t.point_at(Duration{o}), r.point_at(stamp(o)), "querying by time since the start gives something else");
  if (o == 0 or o == 1500000000) same(t.point_at(stamp(s + o)), o == 0 ? x : y, "a control point is not on the trajectory");
  const bool early = sx_throws_as<AssertException>([&] { (void)t.point_at(stamp(s - 1)); }), late = sx_throws_as<AssertException>([&] { (void)t.point_at(stamp(s + 4000000001)); });
  sx_assert(early and late, "a time outside the trajectory was answered");
  sx_reach("end");
}
// Control points are reproduced, with the velocities and accelerations in body coordinates.
SX_ENTRY controls() {
  const Rot r = rot("bh", "bu", 1e-3, PI / 2. - 1e-3);
  const SE3 g{SO3{r.q()}, vec(BX[0], BX[1], BX[2], 1e3)};
  const TwoJetR<SE3> j{g, Sym<SE3>::t(BD), Sym<SE3>::t(BE)};
  const int k = sx_choose("k", 3);
  const State s{j}, o = at(0.);
  Trajectory t;
  if (k == 0) t = Trajectory{{stamp(7), s}, {stamp(1000000007), o}};
  if (k == 1) t = Trajectory{{stamp(7), o}, {stamp(1000000007), s}};
  if (k == 2) t = Trajectory{{stamp(7), o}, {stamp(500000007), o}, {stamp(1500000007), s}};
  const State p = t.point_at(stamp(k == 0 ? 7 : k == 1 ? 1000000007 : 1500000007));
  same(p, s, "a control point is not on the trajectory");
  sx_reach("end");
}
namespace {
Frame<3> frame(const char *name) {
  std::array<unsigned char, 16> a{};
  sx_bytes(a.data(), 16, name);
  return Frame<3>{UUID{a}};
}
}  // namespace
SX_ENTRY frames() {
  const Frame<3> ai = frame("ai"), af = frame("af"), bi = frame("bi"), bf = frame("bf");
  sx_assume(ai.is_null() == af.is_null() and bi.is_null() == bf.is_null());
  Trajectory t;
  t.append({stamp(0), State{SE3{V3{1., 2., 3.}, ai, af}}});
  const bool r = sx_throws_as<AssertException>([&] { t.append({stamp(1000000000), State{SE3{V3{3., 2., 1.}, bi, bf}}}); });
  sx_assert(r == (ai != bi or af != bf), "a control point in other frames was accepted, or a proper one rejected");
  sx_assert(t.reference_frame() == ai and t.body_frame() == af, "the frames are not those of the control points");
  if (not r) {
    const State p = t.point_at(stamp(500000000));
    sx_assert(p.ref_from_body().into() == ai and p.ref_from_body().from() == af, "a state does not carry the frames of the trajectory");
  }
  sx_reach(r ? "rejected" : "accepted");
}
SX_ENTRY empty() {
  const Trajectory t;
  const int k = sx_choose("query", 6);
  bool threw = false;
  try {
    if (k == 0) (void)t.point_at(Duration{0});
    if (k == 1) (void)t.point_at(t.start_time());
    if (k == 2) (void)t.reference_frame();
    if (k == 3) (void)t.body_frame();
    if (k == 4) (void)t.time_duration();
    if (k == 5) (void)t.end_time();
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw, "an empty trajectory answers a query");
  sx_reach("end");
}
// A longer trajectory passes through all its control points.
SX_ENTRY many() {
  const int n = 13;
  const int64_t s = 7000000007;
  std::vector<Trajectory::Control> p;
  for (int i = 0; i < n; i++) {
    State::StateDerivatives d;
    d.velocity.linear_mps = V3{1. * i, 2., 3.};
    d.velocity.angular_radps = V3{0.5, 0., -0.25 * i};
    d.acceleration.linear_mpss = V3{-1., 0.125 * i, 0.5};
    p.push_back({stamp(s + i * int64_t{1000000000} + (i % 3) * 250000000), State{SE3{SO3{0.25 * i, V3::UnitZ()}, V3{1. * i, 2., 3.}}, d}});
  }
  const int64_t start = sx_i64("s");
  sx_assume(start >= -LIM * 1000 and start <= LIM * 1000);
  for (auto &c : p) c.at_time = stamp(start) + (c.at_time - stamp(s));
  Trajectory t;
  for (const auto &c : p) t.append(c);
  const int k = sx_choose("at", n);
  same(t.point_at(p[k].at_time), p[k].state, "a control point is not on the trajectory");
  sx_assert(t.start_time() == p[0].at_time and t.end_time() == p[n - 1].at_time, "a trajectory does not start and end with its control points");
  sx_reach("end");
}
// States given together are judged as if they were given one by one.
SX_ENTRY lists() {
  const int64_t orders[6][3] = {{0, 5, 9}, {-7, 0, 1}, {0, 5, 5}, {5, 5, 9}, {0, 9, 5}, {9, 0, 10}};
  const auto &n = orders[sx_choose("order", 6)];
  const bool other = sx_choose("frames", 2);
  const Frame<3> a{UUID{std::array<unsigned char, 16>{1}}}, b{UUID{std::array<unsigned char, 16>{2}}};
  const Trajectory::Control x{stamp(n[0] * 1000000), State{SE3{V3{0., 0., 0.}, a, b}}}, y{stamp(n[1] * 1000000), State{SE3{V3{1., 0., 0.}, a, b}}},
      z{stamp(n[2] * 1000000), State{SE3{V3{2., 0., 0.}, a, other ? a : b}}};
  const bool bad = n[1] <= n[0] or n[2] <= n[1] or other;
  const int how = sx_choose("how", 3);
  Trajectory t;
  if (how == 2) t.append(x);
  bool threw = false;
  try {
    if (how == 0) t = Trajectory{x, y, z};
    if (how == 1) t.append({x, y, z});
    if (how == 2) t.append({y, z});
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == bad, "states out of order or in other frames were accepted, or proper ones rejected");
  sx_assert(threw ? t.curve().control_pts().size() < 3 : t.curve().control_pts().size() == 3, "states are missing, or rejected ones were kept");
  if (not threw) sx_assert(t.start_time() == x.at_time and t.end_time() == z.at_time, "a trajectory does not start and end with its control points");
  sx_reach(threw ? "rejected" : "accepted");
}
