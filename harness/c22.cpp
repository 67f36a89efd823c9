#include <array>
#include <cmath>
#include <vector>
#include "jets.h"
#include "resim/assert/assert.hh"
#include "resim/curves/d_curve.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
using Curve = DCurve<SE3>;
namespace {
const char *const CX[3] = {"cx0", "cx1", "cx2"};
}  // namespace
// Straight pieces: the length is the distance travelled and a point at arc length s is s along the way.
SX_ENTRY straight() {
  const V3 a = vec("ax0", "ax1", "ax2", 1e3), b = vec("bx0", "bx1", "bx2", 1e3), c = vec("cx0", "cx1", "cx2", 1e3);
  sx_assume((b - a).squaredNorm() >= 1e-4);
  sx_assume((c - b).squaredNorm() >= 1e-4);
  Curve k{SE3{a}, SE3{b}};
  k.append(SE3{c});
  const double l1 = (b - a).norm(), l2 = (c - b).norm();
  sx_near(k.curve_length(), l1 + l2, EPS, "the length is not the distance travelled");
  sx_near(k.control_pts().at(0).arc_length, 0., EPS, "the curve does not start at arc length zero");
  sx_near(k.control_pts().at(1).arc_length, l1, EPS, "arc length does not accumulate");
  sx_near(k.segments().at(1).orig_arc_length, l1, EPS, "a segment does not start where the one before ends");
  sx_near(k.segments().at(1).dest_arc_length, l1 + l2, EPS, "a segment does not end at its control point");
  const double s = sx_real("s", 0., 8e3);
  sx_assume(s <= l1 + l2);
  const SE3 p = k.point_at(s);
  if (s <= l1) {
    near(p.translation(), V3(a + (b - a) * (s / l1)), "a point is not at its arc length", 1e-7);
    sx_reach("first");
  } else {
    near(p.translation(), V3(b + (c - b) * ((s - l1) / l2)), "a point is not at its arc length", 1e-7);
    sx_reach("second");
  }
  near(p.rotation(), SO3::identity(), "a straight curve rotates");
}
namespace {
// a few rotations, exact as exponentials; the translations are what is symbolic
V3 turn(int k) {
  if (k == 0) return V3{0.5, -0.25, 1.};
  if (k == 1) return V3{0., 0., 2.5};
  return V3{-1., 0.001, 0.};
}
}  // namespace
// Between control points the curve is the geodesic with constant velocity, which ends at the control points.
SX_ENTRY geodesic() {
  const SE3 a{SO3{Eigen::Quaterniond{0.5, 0.5, -0.5, 0.5}}, vec("ax0", "ax1", "ax2", 1e3)};
  const V3 t = vec("bx0", "bx1", "bx2", 1e3), u = vec("cx0", "cx1", "cx2", 1e3);
  sx_assume(t.squaredNorm() >= 0.01);
  sx_assume(u.squaredNorm() >= 0.01);
  const V6 w = join(turn(sx_choose("turn", 3)), t), x = join(turn(1), u);
  const SE3 b = a * SE3::exp(w), c = b * SE3::exp(x);
  const Curve k{{a, b, c}};
  const double l1 = k.control_pts().at(1).arc_length, l2 = k.curve_length() - l1;
  sx_near(l1 * l1, t.squaredNorm(), 1e-6, "the length is not the distance travelled");
  sx_near(l2 * l2, u.squaredNorm(), 1e-6, "the length is not the distance travelled");
  sx_near(k.control_pts().at(0).arc_length, 0., EPS, "the curve does not start at arc length zero");
  const int i = sx_choose("where", 6);
  if (i == 0) near(k.point_at(0.), a, "a control point is not on the curve", 1e-6);
  if (i == 1) near(k.point_at(l1), b, "a control point is not on the curve", 1e-6);
  if (i == 2) near(k.point_at(k.curve_length()), c, "a control point is not on the curve", 1e-6);
  if (i == 3) near(k.point_at(0.25 * l1), a * SE3::exp(V6(0.25 * w)), "a point is not on the geodesic at its arc length", 1e-6);
  if (i == 4) near(k.point_at(0.5 * l1), a * SE3::exp(V6(0.5 * w)), "a point is not on the geodesic at its arc length", 1e-6);
  if (i == 5) near(k.point_at(l1 + 0.75 * l2), b * SE3::exp(V6(0.75 * x)), "a point is not on the geodesic at its arc length", 1e-6);
  near(*k.control_pts().at(1).ref_from_control, b, "a control point is not the one given");
  sx_reach("end");
}
// Standing still (or turning on the spot) adds no length and disturbs nothing.
SX_ENTRY standstill() {
  const V3 x = vec("ax0", "ax1", "ax2", 1e3), d = vec("bx0", "bx1", "bx2", 1e3);
  sx_assume(d.squaredNorm() >= 0.01);
  const int n = sx_choose("case", 3);
  Curve k{SE3{x}, SE3{x}};
  if (n == 1) k.append(SE3{V3(x + d)});
  if (n == 2) k = Curve{{SE3{x}, SE3{V3(x + d)}, SE3{V3(x + d)}}};
  sx_near(k.curve_length(), n == 0 ? 0. : d.norm(), EPS, "standing still has a length");
  near(k.point_at(0.).translation(), x, "the first control point is not on the curve");
  near(k.point_at(0.).rotation(), SO3::identity(), "the first control point is not on the curve");
  near(k.point_at(k.curve_length()).translation(), V3(n == 0 ? x : V3(x + d)), "the last control point is not on the curve");
  if (n > 0) near(k.point_at(0.5 * k.curve_length()).translation(), V3(x + 0.5 * d), "a point is not at its arc length");
  sx_reach("end");
}
// Which control points and queries are accepted (bit-precise).
namespace {
using F3 = Frame<3>;
F3 frame(const char *name) {
  std::array<unsigned char, 16> a{};
  sx_bytes(a.data(), 16, name);
  return F3{UUID{a}};
}
}  // namespace
SX_ENTRY append() {
  const char *const I[3] = {"i0", "i1", "i2"}, *const F[3] = {"f0", "f1", "f2"};
  Curve c;
  sx_assert(c.curve_length() == 0., "an empty curve has a length");
  sx_assert(sx_throws_as<AssertException>([&] { (void)c.is_framed(); }) and sx_throws_as<AssertException>([&] { (void)c.reference_frame(); }) and
                sx_throws_as<AssertException>([&] { (void)c.point_frame(); }) and sx_throws_as<AssertException>([&] { (void)c.point_at(0.); }),
            "an empty curve answers a query");
  F3 into, from;
  std::size_t n = 0;
  for (int k = 0; k < 3; k++) {
    const F3 i = frame(I[k]), f = frame(F[k]);
    sx_assume(i.is_null() == f.is_null());
    bool threw = false;
    try {
      c.append(SE3{V3{1. * k, 0., 0.}, i, f});
    } catch (const AssertException &) {
      threw = true;
    }
    const bool bad = n > 0 and (i != into or f != from);
    sx_assert(threw == bad, "a control point in other frames was accepted, or a proper one rejected");
    if (not bad and n == 0) {
      into = i;
      from = f;
    }
    n += not bad;
    sx_assert(c.control_pts().size() == n and c.segments().size() + 1 == n, "a rejected control point changed the curve, or an accepted one is missing");
    sx_assert(c.reference_frame() == into and c.point_frame() == from and c.is_framed() == not into.is_null(), "the frames are not those of the control points");
    sx_reach(threw ? "rejected" : "appended");
  }
}
SX_ENTRY outside() {
  const int n = 1 + sx_choose("controls", 3);
  Curve c;
  for (int i = 0; i < n; i++) c.append(SE3{V3{2. * i, 0., 0.}});
  const double s = sx_f64("s");
  const bool in = n > 1 and s >= 0. and s <= 2. * (n - 1);
  sx_assume(not in);
  sx_assert(sx_throws_as<AssertException>([&] { (void)c.point_at(s); }), "an arc length outside the curve was answered");
  sx_reach("rejected");
}
SX_ENTRY framed() {
  const F3 i = frame("i"), f = frame("f");
  sx_assume(i.is_null() == f.is_null());
  Curve c{SE3{V3{0., 0., 0.}, i, f}, SE3{V3{1., 0., 0.}, i, f}, SE3{V3{1., 2., 0.}, i, f}};
  const double ss[5] = {0., 0.5, 1., 2., 3.};
  const SE3 p = c.point_at(ss[sx_choose("k", 5)]);
  sx_assert(p.into() == i and p.from() == f and p.is_framed() == not i.is_null(), "a point of a curve does not carry the frames of the curve");
  sx_reach("end");
}
// A longer way along the axes, out and back.
SX_ENTRY long_straight() {
  const int n = 13;
  std::vector<SE3> p;
  std::vector<V3> x;
  std::vector<double> s;
  V3 at{1., 2., 3.};
  double len = 0.;
  for (int i = 0; i < n; i++) {
    if (i > 0) {
      const double d = 1. + 0.5 * (i % 3);
      at(i % 3) += i % 4 == 3 ? -d : d;
      len += d;
    }
    p.push_back(SE3{at});
    x.push_back(at);
    s.push_back(len);
  }
  Curve k{p};
  const double q = sx_real("s", 0., len);
  const SE3 y = k.point_at(q);
  int i = 0;
  while (i + 2 < n and q > s[i + 1]) i++;
  const double f = (q - s[i]) / (s[i + 1] - s[i]);
  near(y.translation(), V3(x[i] + (x[i + 1] - x[i]) * f), "a point is not at its arc length", 1e-7);
  near(y.rotation(), SO3::identity(), "a straight curve rotates");
  for (int j = 0; j < n; j++) sx_near(k.control_pts().at(j).arc_length, s[j], EPS, "arc length does not accumulate");
  sx_near(k.curve_length(), len, EPS, "the length is not the distance travelled");
  sx_reach("end");
}
SX_ENTRY long_outside() {
  Curve c;
  for (int i = 0; i < 13; i++) c.append(SE3{V3{2. * i, 0., 0.}});
  const double s = sx_f64("s");
  sx_assume(not(s >= 0. and s <= 24.));
  sx_assert(sx_throws_as<AssertException>([&] { (void)c.point_at(s); }), "an arc length outside the curve was answered");
  sx_reach("rejected");
}
SX_ENTRY long_append() {
  const F3 i{UUID{std::array<unsigned char, 16>{1}}}, f{UUID{std::array<unsigned char, 16>{2}}}, x = frame("i"), y = frame("f");
  sx_assume(x.is_null() == y.is_null());
  Curve c;
  for (int k = 0; k < 13; k++) c.append(SE3{V3{2. * k, 0., 0.}, i, f});
  const bool threw = sx_throws_as<AssertException>([&] { c.append(SE3{V3{26., 0., 0.}, x, y}); });
  sx_assert(threw == not(x == i and y == f), "a control point in other frames was accepted, or a proper one rejected");
  sx_assert(c.control_pts().size() == std::size_t(13 + not threw) and c.segments().size() + 1 == c.control_pts().size(), "a rejected control point changed the curve, or an accepted one is missing");
  sx_reach(threw ? "rejected" : "accepted");
}
// Points given together are judged as if they were given one by one.
SX_ENTRY lists() {
  const char *const I[3] = {"i0", "i1", "i2"}, *const F[3] = {"f0", "f1", "f2"};
  std::vector<SE3> p;
  bool bad = false;
  for (int k = 0; k < 3; k++) {
    const F3 i = frame(I[k]), f = frame(F[k]);
    sx_assume(i.is_null() == f.is_null());
    p.push_back(SE3{V3{1. * k, 0., 0.}, i, f});
    bad = bad or i != p[0].into() or f != p[0].from();
  }
  const int how = sx_choose("how", 4);
  Curve c;
  if (how == 3) c.append(p[0]);
  bool threw = false;
  try {
    if (how == 0) c = Curve{p};
    if (how == 1) c = Curve{p[0], p[1], p[2]};
    if (how == 2) c.append({p[0], p[1], p[2]});
    if (how == 3) c.append({p[1], p[2]});
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == bad, "control points in other frames were accepted, or proper ones rejected");
  const std::size_t n = c.control_pts().size();
  sx_assert(threw ? n < 3 : n == 3, "control points are missing, or rejected ones were kept");
  sx_assert(c.segments().size() + 1 == n or (n == 0 and c.segments().empty()), "the segments are not those between the control points");
  for (std::size_t k = 0; k < n; k++) sx_assert(c.control_pts()[k].ref_from_control->translation()(0) == 1. * k, "the control points are not those given");
  sx_reach(threw ? "rejected" : "accepted");
}
