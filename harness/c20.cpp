#include <array>
#include <cmath>
#include <vector>
#include "jets.h"
#include "resim/assert/assert.hh"
#include "resim/curves/t_curve.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
namespace {
using Curve = TCurve<SE3>;
using Control = Curve::Control;
Control control(double time, const char *const *x, const char *const *d, const char *const *e) {
  const V3 z{0., 0., 0.};
  return {time, TwoJetL<SE3>{SE3{vec(x[0], x[1], x[2], 1e3)}, join(z, vec(d[0], d[1], d[2], 1e3)), join(z, vec(e[0], e[1], e[2], 1e3))}};
}
const char *const CX[3] = {"cx0", "cx1", "cx2"};
const char *const CD[3] = {"cd0", "cd1", "cd2"};
const char *const CE[3] = {"ce0", "ce1", "ce2"};
// position, velocity and acceleration at time t of the quintic with the conditions of a and b
void hermite(const Control &a, const Control &b, int i, double t, double &x, double &v, double &c) {
  const double dt = b.time - a.time, s = (t - a.time) / dt;
  const double c0 = a.point.frame_from_ref().translation()(i), c1 = a.point.d_frame_from_ref()(3 + i) * dt, c2 = a.point.d2_frame_from_ref()(3 + i) * dt * dt / 2.;
  const double A = b.point.frame_from_ref().translation()(i) - c0 - c1 - c2, B = b.point.d_frame_from_ref()(3 + i) * dt - c1 - 2. * c2,
               C = b.point.d2_frame_from_ref()(3 + i) * dt * dt - 2. * c2;
  const double c3 = 10. * A - 4. * B + C / 2., c4 = -15. * A + 7. * B - C, c5 = 6. * A - 3. * B + C / 2.;
  x = c0 + s * (c1 + s * (c2 + s * (c3 + s * (c4 + s * c5))));
  v = (c1 + s * (2. * c2 + s * (3. * c3 + s * (4. * c4 + s * 5. * c5)))) / dt;
  c = (2. * c2 + s * (6. * c3 + s * (12. * c4 + s * 20. * c5))) / (dt * dt);
}
}  // namespace
// A curve that does not rotate is the piecewise Hermite quintic in time.
SX_ENTRY straight() {
  const double t0 = sx_real("t0", -1e3, 1e3), t1 = t0 + sx_real("dt1", 1e-6, 1e3), t2 = t1 + sx_real("dt2", 1e-6, 1e3);
  const Control a = control(t0, AX, AD, AE), b = control(t1, BX, BD, BE), c = control(t2, CX, CD, CE);
  Curve curve{a, b};
  curve.append(c);
  const double t = sx_real("t", -1e3, 3e3);
  sx_assume(t >= t0);
  sx_assume(t <= t2);
  const TwoJetL<SE3> p = curve.point_at(t);
  const bool first = t <= t1;
  sx_reach(first ? "first segment" : "second segment");
  for (int i = 0; i < 3; i++) {
    double x, v, acc;
    if (first)
      hermite(a, b, i, t, x, v, acc);
    else
      hermite(b, c, i, t, x, v, acc);
    sx_near(p.frame_from_ref().translation()(i), x, 1e-7, "a curve is not the piecewise quintic through its control points");
    sx_near(p.d_frame_from_ref()(3 + i), v, 1e-7, "the velocity is not the time derivative of the position");
    sx_near(p.d2_frame_from_ref()(3 + i), acc, 1e-7, "the acceleration is not the time derivative of the velocity");
  }
}
// Every control point lies on the curve with its derivatives, approached from both sides.
namespace {
template <typename G>
G turned(const char *h, const char *u, const char *const *n) {
  const Rot r = rot(h, u, 1e-3, PI / 2. - 1e-3);
  if constexpr (std::is_same_v<G, SE3>)
    return SE3{SO3{r.q()}, vec(n[0], n[1], n[2], 1e3)};
  else
    return SO3{r.q()};
}
template <typename G>
void controls() {
  const double t0 = sx_real("t0", -1e3, 1e3), d1 = sx_real("dt1", 1e-6, 1e3), d2 = sx_real("dt2", 1e-6, 1e3), t1 = t0 + d1, t2 = t1 + d2;
  const int k = sx_choose("k", 4);
  const auto z = Sym<G>::zero();
  const G g0 = G::identity(), g1 = turned<G>("bh", "bu", BX);
  typename TCurve<G>::Control a{t0, TwoJetL<G>{g0, z, z}}, b{t1, TwoJetL<G>{g1, z, z}}, c{t2, TwoJetL<G>{g1, z, z}};
  auto &target = k == 0 ? a : k == 1 or k == 3 ? b : c;
  target.point = TwoJetL<G>{target.point.frame_from_ref(), Sym<G>::t(BD), Sym<G>::t(BE)};
  const TCurve<G> curve{{a, b, c}};
  TwoJetL<G> p;
  if (k < 3) {
    p = curve.point_at(target.time);
  } else {  // the start of the second segment
    p = curve.segments().at(1).curve.point_at(0.);
    p.set_d_frame_from_ref(p.d_frame_from_ref() / d2);
    p.set_d2_frame_from_ref(p.d2_frame_from_ref() / (d2 * d2));
  }
  near(p.frame_from_ref(), target.point.frame_from_ref(), "a curve misses a control point", 1e-7);
  near(p.d_frame_from_ref(), target.point.d_frame_from_ref(), "a curve misses the velocity of a control point", 1e-7);
  near(p.d2_frame_from_ref(), target.point.d2_frame_from_ref(), "a curve misses the acceleration of a control point", 1e-7);
  sx_near(curve.start_time(), t0, 1e-12, "the start time is not that of the first control point");
  sx_near(curve.end_time(), t2, 1e-12, "the end time is not that of the last control point");
  sx_reach("end");
}
}  // namespace
SX_ENTRY so3_controls() { controls<SO3>(); }
SX_ENTRY se3_controls() { controls<SE3>(); }
// Bit-precise: which control points and query times are accepted.
namespace {
using F3 = Frame<3>;
F3 frame(const char *name) {
  std::array<unsigned char, 16> a{};
  sx_bytes(a.data(), 16, name);
  return F3{UUID{a}};
}
template <typename G>
typename TCurve<G>::Control at(double t, const F3 &i, const F3 &f) {
  return {t, TwoJetL<G>{G::identity(i, f), Sym<G>::zero(), Sym<G>::zero()}};
}
template <typename G>
void append() {
  const char *const T[3] = {"t0", "t1", "t2"}, *const I[3] = {"i0", "i1", "i2"}, *const F[3] = {"f0", "f1", "f2"};
  TCurve<G> c;
  double last = 0., first = 0.;
  F3 into, from;
  std::size_t n = 0;
  sx_assert(sx_throws_as<AssertException>([&] { (void)c.start_time(); }) and sx_throws_as<AssertException>([&] { (void)c.end_time(); }) and
                sx_throws_as<AssertException>([&] { (void)c.is_framed(); }) and sx_throws_as<AssertException>([&] { (void)c.reference_frame(); }) and
                sx_throws_as<AssertException>([&] { (void)c.point_frame(); }) and sx_throws_as<AssertException>([&] { (void)c.point_at(0.); }),
            "an empty curve answers a query");
  for (int k = 0; k < 3; k++) {
    const double t = sx_f64(T[k]);
    const F3 i = frame(I[k]), f = frame(F[k]);
    sx_assume(i.is_null() == f.is_null());
    bool threw = false;
    try {
      c.append(at<G>(t, i, f));
    } catch (const AssertException &) {
      threw = true;
    }
    const bool bad = n > 0 and (not(t > last) or i != into or f != from);
    sx_assert(threw == bad, "a control point out of order or in other frames was accepted, or a proper one rejected");
    if (not bad) {
      if (n == 0) {
        first = t;
        into = i;
        from = f;
      }
      last = t;
      n++;
    }
    sx_assert(c.control_pts().size() == n and c.segments().size() + 1 == n, "a rejected control point changed the curve, or an accepted one is missing");
    sx_assert(c.control_pts().back().time == last or std::isnan(last), "the last control point is not the one appended");
    sx_assert(c.end_time() == last or std::isnan(last), "the end time is not that of the last control point");
    sx_assert(c.start_time() == first or std::isnan(first), "the start time is not that of the first control point");
    sx_assert(c.point_frame() == into and c.reference_frame() == from and c.is_framed() == not into.is_null(), "the frames are not those of the control points");
    if (n > 1) {
      const auto &s = c.segments().back();
      sx_assert(s.dest_time == last and s.orig_time == c.control_pts().at(n - 2).time, "a segment does not span its control points");
      sx_reach("appended");
    }
    if (threw) sx_reach("rejected");
  }
}
template <typename G>
TCurve<G> resting(int k) {
  const F3 n;
  TCurve<G> c;
  for (int i = 0; i < k; i++) c.append(at<G>(-1. + 1.5 * i, n, n));
  return c;
}
template <typename G>
void outside() {
  const int k = 1 + sx_choose("controls", 3);
  const TCurve<G> c = resting<G>(k);
  const double t = sx_f64("t"), hi = -1. + 1.5 * (k - 1);
  const bool inside = k > 1 and t >= -1. and t <= hi;
  sx_assume(not inside);
  bool threw = false;
  try {
    (void)c.point_at(t);
  } catch (const AssertException &) {
    threw = true;
    sx_reach("rejected");
  }
  sx_assert(threw, "a time outside the curve was answered");
}
template <typename G>
void inside() {
  const int k = 2 + sx_choose("controls", 2);
  const TCurve<G> c = resting<G>(k);
  const double t = sx_real("t", -1., 2.);
  sx_assume(t <= -1. + 1.5 * (k - 1));
  bool threw = false;
  try {
    (void)c.point_at(t);
    sx_reach("answered");
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(not threw, "a time inside the curve was rejected");
}
// points of a framed curve carry the frames of the curve
template <typename G>
void framed() {
  const F3 i = frame("i"), f = frame("f");
  sx_assume(i.is_null() == f.is_null());
  TCurve<G> c{at<G>(0., i, f), at<G>(1., i, f), at<G>(3., i, f)};
  const double ts[5] = {0., 0.5, 1., 2., 3.};
  const TwoJetL<G> p = c.point_at(ts[sx_choose("k", 5)]);
  sx_assert(p.frame_from_ref().into() == i and p.frame_from_ref().from() == f, "a point of a curve does not carry the frames of the curve");
  sx_assert(p.frame_from_ref().is_framed() == not i.is_null(), "a point of a curve is framed and the curve is not, or the reverse");
  sx_reach("end");
}
}  // namespace
SX_ENTRY so3_append() { append<SO3>(); }
SX_ENTRY se3_append() { append<SE3>(); }
SX_ENTRY so3_outside() { outside<SO3>(); }
SX_ENTRY se3_outside() { outside<SE3>(); }
SX_ENTRY so3_inside() { inside<SO3>(); }
SX_ENTRY se3_inside() { inside<SE3>(); }
SX_ENTRY so3_framed() { framed<SO3>(); }
SX_ENTRY se3_framed() { framed<SE3>(); }
// Longer curves.
namespace {
constexpr int LONG = 13;
double long_time(int i) { return -2. + i + 0.25 * (i % 3); }
Control long_control(int i) {
  const V3 z{0., 0., 0.};
  return {long_time(i), TwoJetL<SE3>{SE3{V3{1. * i, (i % 4) - 1.5, 0.5 * (i % 5)}}, join(z, V3{1., 0.5 * (i % 2), -1.}), join(z, V3{0., 0.25 * (i % 3), 1.})}};
}
}  // namespace
SX_ENTRY long_straight() {
  std::vector<Control> p;
  Curve curve;
  for (int i = 0; i < LONG; i++) {
    p.push_back(long_control(i));
    curve.append(p.back());
  }
  const double t = sx_real("t", long_time(0), long_time(LONG - 1));
  const TwoJetL<SE3> x = curve.point_at(t);
  int k = 0;
  while (k + 2 < LONG and t > p[k + 1].time) k++;
  for (int i = 0; i < 3; i++) {
    double y, v, acc;
    hermite(p[k], p[k + 1], i, t, y, v, acc);
    sx_near(x.frame_from_ref().translation()(i), y, 1e-7, "a curve is not the piecewise quintic through its control points");
    sx_near(x.d_frame_from_ref()(3 + i), v, 1e-7, "the velocity is not the time derivative of the position");
    sx_near(x.d2_frame_from_ref()(3 + i), acc, 1e-7, "the acceleration is not the time derivative of the velocity");
  }
  sx_reach("end");
}
SX_ENTRY long_append() {
  TCurve<SO3> c;
  const F3 i{UUID{std::array<unsigned char, 16>{1}}}, f{UUID{std::array<unsigned char, 16>{2}}};
  for (int k = 0; k < LONG; k++) c.append(at<SO3>(long_time(k), i, f));
  const double t = sx_f64("t");
  const F3 x = frame("i"), y = frame("f");
  sx_assume(x.is_null() == y.is_null());
  bool threw = false;
  try {
    c.append(at<SO3>(t, x, y));
  } catch (const AssertException &) {
    threw = true;
  }
  const double end = long_time(LONG - 1);
  sx_assert(threw == not(t > end and x == i and y == f), "a control point out of order or in other frames was accepted, or a proper one rejected");
  sx_assert(c.control_pts().size() == std::size_t(LONG + not threw) and c.segments().size() + 1 == c.control_pts().size(), "a rejected control point changed the curve, or an accepted one is missing");
  sx_assert(c.start_time() == long_time(0) and c.end_time() == (threw ? end : t), "the ends are not those of the control points");
  for (int k = 0; k < LONG; k++) sx_assert(c.control_pts()[k].time == long_time(k) and (k == 0 or (c.segments()[k - 1].orig_time == long_time(k - 1) and c.segments()[k - 1].dest_time == long_time(k))), "an earlier control point changed");
  sx_reach(threw ? "rejected" : "accepted");
}
SX_ENTRY long_outside() {
  TCurve<SO3> c;
  const F3 n;
  for (int k = 0; k < LONG; k++) c.append(at<SO3>(long_time(k), n, n));
  const double t = sx_f64("t");
  sx_assume(not(t >= long_time(0) and t <= long_time(LONG - 1)));
  bool threw = false;
  try {
    (void)c.point_at(t);
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw, "a time outside the curve was answered");
  sx_reach("end");
}
// Points given together are judged as if they were given one by one.
namespace {
template <typename G>
void lists() {
  const char *const T[3] = {"t0", "t1", "t2"}, *const I[3] = {"i0", "i1", "i2"}, *const F[3] = {"f0", "f1", "f2"};
  std::vector<typename TCurve<G>::Control> p;
  bool bad = false;
  for (int k = 0; k < 3; k++) {
    const double t = sx_f64(T[k]);
    const F3 i = frame(I[k]), f = frame(F[k]);
    sx_assume(i.is_null() == f.is_null());
    p.push_back(at<G>(t, i, f));
    const auto &g = p[0].point.frame_from_ref();
    bad = bad or (k > 0 and not(t > p[k - 1].time and i == g.into() and f == g.from()));
  }
  const int how = sx_choose("how", 4);
  TCurve<G> c;
  if (how == 3) c.append(p[0]);
  bool threw = false;
  try {
    if (how == 0) c = TCurve<G>{p};
    if (how == 1) c = TCurve<G>{p[0], p[1], p[2]};
    if (how == 2) c.append({p[0], p[1], p[2]});
    if (how == 3) c.append({p[1], p[2]});
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == bad, "control points out of order or in other frames were accepted, or proper ones rejected");
  const std::size_t n = c.control_pts().size();
  sx_assert(threw ? n < 3 : n == 3, "control points are missing, or rejected ones were kept");
  sx_assert(c.segments().size() + 1 == n or (n == 0 and c.segments().empty()), "the segments are not those between the control points");
  for (std::size_t k = 0; k < n; k++) sx_assert(c.control_pts()[k].time == p[k].time or std::isnan(p[k].time), "the control points are not those given");
  sx_reach(threw ? "rejected" : "accepted");
}
}  // namespace
SX_ENTRY so3_lists() { lists<SO3>(); }
SX_ENTRY se3_lists() { lists<SE3>(); }
