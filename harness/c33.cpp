// Curves and trajectories are values: what they answer depends only on their control points, not on how
// they were built, what was asked before or what happened to copies of them.
#include "jets.h"
#include "resim/actor/state/trajectory.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/t_curve.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
using actor::state::Trajectory;
using State = actor::state::RigidBodyState<SE3>;
using time::Duration;
using time::Timestamp;
namespace {
constexpr double TOL = 1e-9;
const char *const CX[3] = {"cx0", "cx1", "cx2"};
const char *const CD[3] = {"cd0", "cd1", "cd2"};
V3 v3(const char *const *n) { return vec(n[0], n[1], n[2], 1e3); }
const char *const AGAIN = "asking again gives another answer", *const LATER = "appending changes the curve before the appended point",
                  *const BUILT = "the answer depends on how the curve was built", *const COPY = "a copy answers differently from the original",
                  *const SHARED = "changing a copy changes the original";
void same(const TwoJetL<SE3> &a, const TwoJetL<SE3> &b, const char *m) {
  near(a.frame_from_ref(), b.frame_from_ref(), m, TOL);
  near(a.d_frame_from_ref(), b.d_frame_from_ref(), m, TOL);
  near(a.d2_frame_from_ref(), b.d2_frame_from_ref(), m, TOL);
}
void same(const SE3 &a, const SE3 &b, const char *m) { near(a, b, m, TOL); }
void same(const State &a, const State &b, const char *m) {
  near(a.ref_from_body(), b.ref_from_body(), m, TOL);
  near(a.ref_from_body_two_jet().d_ref_from_frame(), b.ref_from_body_two_jet().d_ref_from_frame(), m, TOL);
  near(a.ref_from_body_two_jet().d2_ref_from_frame(), b.ref_from_body_two_jet().d2_ref_from_frame(), m, TOL);
}
// c has the first two control points; third and fourth append the rest
template <typename C, typename Q, typename A3, typename A4, typename Build, typename Ends>
void history(C c, const Q &s, const Q &u, A3 third, A4 fourth, const C *const *built, int nbuilt, Build, Ends ends) {
  const auto p = c.point_at(s);
  const C two = c;
  third(c);
  const auto q = c.point_at(u);
  same(c.point_at(s), p, LATER);
  same(c.point_at(u), q, AGAIN);
  for (int i = 0; i < nbuilt; i++) {
    same(built[i]->point_at(u), q, BUILT);
    same(built[i]->point_at(s), p, BUILT);
  }
  C copy = c;
  fourth(copy);
  same(copy.point_at(u), q, COPY);
  same(copy.point_at(s), p, COPY);
  same(c.point_at(u), q, SHARED);
  same(c.point_at(s), p, SHARED);
  same(two.point_at(s), p, SHARED);
  ends(two, c, copy);
  C moved = std::move(copy);
  same(moved.point_at(u), q, COPY);
  same(moved.point_at(s), p, COPY);
  sx_reach("end");
}
struct None {};
}  // namespace
SX_ENTRY t_curve() {
  using Curve = TCurve<SE3>;
  const V3 z{0., 0., 0.};
  const Curve::Control a{0., TwoJetL<SE3>{SE3{v3(AX)}, join(z, v3(AD)), join(z, V3{1., 2., 3.})}}, b{1.5, TwoJetL<SE3>{SE3{v3(BX)}, join(z, v3(BD)), join(z, z)}},
      c{2., TwoJetL<SE3>{SE3{v3(CX)}, join(z, v3(CD)), join(z, V3{3., 2., 1.})}}, d{5., TwoJetL<SE3>{SE3{V3{1., 1., 1.}}, join(z, z), join(z, z)}};
  const double s = sx_real("s", 0., 1.5), u = sx_real("u", 0., 2.);
  Curve k{a};
  k.append(b);
  const Curve l{a, b, c}, v{std::vector<Curve::Control>{a, b, c}};
  Curve w;
  w.append({a, b, c});
  const Curve *const built[3] = {&l, &v, &w};
  history(
      k, s, u, [&](Curve &x) { x.append(c); }, [&](Curve &x) { x.append(d); }, built, 3, None{},
      [&](const Curve &two, const Curve &three, const Curve &four) {
        sx_assert(two.control_pts().size() == 2 and three.control_pts().size() == 3 and four.control_pts().size() == 4, SHARED);
        sx_assert(two.segments().size() == 1 and three.segments().size() == 2 and four.segments().size() == 3, SHARED);
        sx_near(two.end_time(), 1.5, TOL, SHARED);
        sx_near(three.end_time(), 2., TOL, SHARED);
        sx_near(four.end_time(), 5., TOL, "appending to a copy has no effect");
        sx_near(four.start_time(), 0., TOL, COPY);
      });
}
SX_ENTRY d_curve() {
  using Curve = DCurve<SE3>;
  // straight, so that the arc lengths are the differences of the coordinates
  const double x0 = sx_real("x0", -10., 10.), l1 = sx_real("l1", 0.01, 10.), l2 = sx_real("l2", 0.01, 10.);
  const SE3 a{V3{x0, 1., 2.}}, b{V3{x0 + l1, 1., 2.}}, c{V3{x0 + l1, 1. - l2, 2.}}, d{V3{x0 + l1, 1. - l2, 4.}};
  const double s = sx_real("s", 0., 10.), u = sx_real("u", 0., 20.);
  sx_assume(s <= l1);
  sx_assume(u <= l1 + l2);
  Curve k{a};
  k.append(b);
  const Curve l{a, b, c}, v{std::vector<SE3>{a, b, c}};
  Curve w;
  w.append({a, b, c});
  const Curve *const built[3] = {&l, &v, &w};
  history(
      k, s, u, [&](Curve &x) { x.append(c); }, [&](Curve &x) { x.append(d); }, built, 3, None{},
      [&](const Curve &two, const Curve &three, const Curve &four) {
        sx_assert(two.control_pts().size() == 2 and three.control_pts().size() == 3 and four.control_pts().size() == 4, SHARED);
        sx_assert(two.segments().size() == 1 and three.segments().size() == 2 and four.segments().size() == 3, SHARED);
        sx_near(two.curve_length(), l1, TOL, SHARED);
        sx_near(three.curve_length(), l1 + l2, TOL, SHARED);
        sx_near(four.curve_length(), l1 + l2 + 2., TOL, "appending to a copy has no effect");
        near(*two.control_pts().back().ref_from_control, b, SHARED);
        near(*three.control_pts().back().ref_from_control, c, SHARED);
        near(*three.segments().back().ref_from_dest, c, SHARED);
        near(*four.segments().front().ref_from_orig, a, COPY);
      });
}
SX_ENTRY trajectory() {
  const auto state = [](const V3 &x, const V3 &v) {
    State::StateDerivatives d;
    d.velocity.linear_mps = v;
    return State{SE3{x}, d};
  };
  const auto stamp = [](int64_t n) { return Timestamp{Duration{n}}; };
  const Trajectory::Control a{stamp(10), state(v3(AX), v3(AD))}, b{stamp(1500000010), state(v3(BX), v3(BD))}, c{stamp(2000000010), state(v3(CX), v3(CD))},
      d{stamp(5000000010), state(V3{1., 1., 1.}, V3{0., 0., 1.})};
  const int64_t S[3] = {10, 700000010, 1500000010}, U[4] = {10, 400000010, 1600000010, 2000000010};
  const Timestamp s = stamp(S[sx_choose("s", 3)]), u = stamp(U[sx_choose("u", 4)]);
  Trajectory k{a, b};
  const Trajectory l{a, b, c};
  Trajectory w;
  w.append({a, b, c});
  const Trajectory v{w.curve(), stamp(10)};
  const Trajectory *const built[3] = {&l, &v, &w};
  history(
      k, s, u, [&](Trajectory &x) { x.append(c); }, [&](Trajectory &x) { x.append(d); }, built, 3, None{},
      [&](const Trajectory &two, const Trajectory &three, const Trajectory &four) {
        sx_assert(two.end_time() == stamp(1500000010) and three.end_time() == stamp(2000000010), SHARED);
        sx_assert(four.end_time() == stamp(5000000010), "appending to a copy has no effect");
        sx_assert(two.start_time() == stamp(10) and three.start_time() == stamp(10) and four.start_time() == stamp(10), COPY);
      });
}
// A failed call leaves everything as it was.
SX_ENTRY failed() {
  const V3 z{0., 0., 0.};
  using Curve = TCurve<SE3>;
  const double t0 = sx_real("t0", -10., 10.), t1 = t0 + sx_real("dt", 0.001, 10.), bad = sx_real("bad", -10., 20.), q = sx_real("q", -30., 40.);
  sx_assume(bad <= t1);
  const Curve::Control a{t0, TwoJetL<SE3>{SE3{v3(AX)}, join(z, v3(AD)), join(z, z)}}, b{t1, TwoJetL<SE3>{SE3{v3(BX)}, join(z, v3(BD)), join(z, z)}},
      c{bad, TwoJetL<SE3>{SE3{v3(CX)}, join(z, z), join(z, z)}};
  Curve k{a, b};
  const double s = sx_real("s", -10., 20.);
  sx_assume(s >= t0);
  sx_assume(s <= t1);
  const TwoJetL<SE3> p = k.point_at(s);
  sx_assert(sx_throws_as<AssertException>([&] { k.append(c); }), "a control point out of order was accepted");
  const bool out = q < t0 or q > t1;
  sx_assert(sx_throws_as<AssertException>([&] { (void)k.point_at(q); }) == out, "a time outside the curve was answered or one inside rejected");
  same(k.point_at(s), p, "a rejected call changed the curve");
  sx_assert(k.control_pts().size() == 2 and k.segments().size() == 1, "a rejected call changed the curve");
  sx_reach("end");
}
// Several threads may query the same object.
namespace {
struct Shared {
  TCurve<SE3> t;
  DCurve<SE3> d;
  Trajectory j;
  double s = 0.;
  int64_t n = 0;
} *shared;
void query(void *p) {
  const Shared &x = *shared;
  Shared &mine = *static_cast<Shared *>(p);
  const TwoJetL<SE3> a = x.t.point_at(x.s);
  const SE3 b = x.d.point_at(x.s);
  const State c = x.j.point_at(Timestamp{Duration{x.n}});
  const State e = x.j.point_at(Duration{x.n});
  mine.s = a.frame_from_ref().translation()(0) + b.translation()(0) + c.ref_from_body().translation()(0) + e.ref_from_body().translation()(0) +
           x.t.start_time() + x.t.end_time() + x.d.curve_length();
  mine.n = x.j.end_time().time_since_epoch().count() + static_cast<int64_t>(x.t.control_pts().size() + x.d.control_pts().size());
  (void)x.j.body_frame();
  (void)x.j.reference_frame();
  (void)x.t.is_framed();
  (void)x.d.is_framed();
  (void)x.d.point_frame();
}
}  // namespace
SX_ENTRY threads() {
  Shared x, r[3];
  const auto zero = V6(V6::Zero());
  x.t = TCurve<SE3>{{{0., TwoJetL<SE3>{SE3{V3{1., 2., 3.}}, zero, zero}}, {1., TwoJetL<SE3>{SE3{V3{3., 2., 1.}}, zero, zero}}, {3., TwoJetL<SE3>{SE3{V3{4., 4., 1.}}, zero, zero}}}};
  x.d = DCurve<SE3>{{SE3{V3{1., 2., 3.}}, SE3{V3{3., 2., 3.}}, SE3{V3{3., 4., 3.}}}};
  const auto stamp = [](int64_t n) { return Timestamp{Duration{n}}; };
  x.j = Trajectory{{stamp(0), State{SE3{V3{1., 2., 3.}}}}, {stamp(1000000000), State{SE3{V3{3., 2., 1.}}}}, {stamp(3000000000), State{SE3{V3{4., 4., 1.}}}}};
  const double S[4] = {0., 0.5, 1., 2.5};
  const int k = sx_choose("at", 4);
  x.s = S[k];
  x.n = static_cast<int64_t>(S[k] * 1e9);
  shared = &x;
  const int t0 = sx_thread(query, &r[0]), t1 = sx_thread(query, &r[1]);
  sx_join(t0);
  sx_join(t1);
  query(&r[2]);
  for (int i = 0; i < 2; i++) sx_assert(r[i].s == r[2].s and r[i].n == r[2].n, "threads get different answers");
  sx_reach("end");
}
