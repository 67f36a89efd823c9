#include <array>
#include "jets.h"
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/assert/assert.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
using State = actor::state::RigidBodyState<SE3>;
namespace {
State::StateDerivatives derivs(const V6 &d, const V6 &e) {
  State::StateDerivatives s;
  for (int i = 0; i < 3; i++) {
    s.velocity.angular_radps(i) = d(i);
    s.velocity.linear_mps(i) = d(3 + i);
    s.acceleration.angular_radpss(i) = e(i);
    s.acceleration.linear_mpss(i) = e(3 + i);
  }
  return s;
}
// The matrix curve a state describes, read through its public accessors: a point p fixed to the
// body moves with velocity ref_from_body (w x p + v).
Jet<M4> motion(const State &s) {
  const M4 a = mat(s.ref_from_body()), d = hat(join(s.body_angular_velocity_radps(), s.body_linear_velocity_mps())),
           e = hat(join(s.body_angular_acceleration_radpss(), s.body_linear_acceleration_mpss()));
  Jet<M4> r;
  r.v = a;
  r.d = a * d;
  r.dd = a * (e + d * d);
  return r;
}
State first() { return State{Sym<SE3>::g("ah", "au", AX), derivs(Sym<SE3>::t(AD), Sym<SE3>::t(AE))}; }
State second() { return State{Sym<SE3>::g("bh", "bu", BX), derivs(Sym<SE3>::t(BD), Sym<SE3>::t(BE))}; }
}  // namespace
SX_ENTRY compose() {
  const State a = first(), b = second();
  if (sx_choose("self", 2)) {
    same(motion(a * a), times(motion(a), motion(a)), "the pose of a composition is wrong", "the velocity of a composition is wrong", "the acceleration of a composition is wrong");
    return;
  }
  same(motion(a * b), times(motion(a), motion(b)), "the pose of a composition is wrong", "the velocity of a composition is wrong", "the acceleration of a composition is wrong");
  sx_reach("end");
}
SX_ENTRY inverse_times() {
  const State a = first(), b = second();
  // a * (a^-1 * b) is b again
  const State r = a.inverse_times(b);
  same(times(motion(a), motion(r)), motion(b), "the relative pose is wrong", "the relative velocity is wrong", "the relative acceleration is wrong");
  // seen from itself a body is at rest
  same(motion(a.inverse_times(a)), one<M4>(), "a body is displaced from itself", "a body moves relative to itself", "a body accelerates relative to itself");
  sx_reach("end");
}
SX_ENTRY members() {
  const SE3 g = Sym<SE3>::g("ah", "au", AX), h = Sym<SE3>::g("bh", "bu", BX);
  const V6 d = Sym<SE3>::t(AD), e = Sym<SE3>::t(AE);
  const V3 x = vec("bd0", "bd1", "bd2", 1e3);
  State s{g, derivs(d, e)};
  V6 d2 = d, e2 = e;
  SE3 p = g;
  const int k = sx_choose("set", 6);
  if (k == 1) {
    s.set_body_linear_velocity_mps(x);
    for (int i = 0; i < 3; i++) d2(3 + i) = x(i);
  }
  if (k == 2) {
    s.set_body_angular_velocity_radps(x);
    for (int i = 0; i < 3; i++) d2(i) = x(i);
  }
  if (k == 3) {
    s.set_body_linear_acceleration_mpss(x);
    for (int i = 0; i < 3; i++) e2(3 + i) = x(i);
  }
  if (k == 4) {
    s.set_body_angular_acceleration_radpss(x);
    for (int i = 0; i < 3; i++) e2(i) = x(i);
  }
  if (k == 5) {
    s.set_ref_from_body(h);
    p = h;
  }
  const char *m = "setting one part of a state changes another, or does not change it";
  near(s.ref_from_body(), p, m);
  near(join(s.body_angular_velocity_radps(), s.body_linear_velocity_mps()), d2, m);
  near(join(s.body_angular_acceleration_radpss(), s.body_linear_acceleration_mpss()), e2, m);
  const auto b = s.body_derivatives();
  near(join(b.velocity.angular_radps, b.velocity.linear_mps), d2, "the bundled velocities are not those of the state");
  near(join(b.acceleration.angular_radpss, b.acceleration.linear_mpss), e2, "the bundled accelerations are not those of the state");
  same(jet(s.ref_from_body_two_jet()), motion(s), "the two-jet is not that of the state", "the two-jet is not that of the state", "the two-jet is not that of the state");
  same(motion(State{s.ref_from_body_two_jet()}), motion(s), "a state from a two-jet is another", "a state from a two-jet is another", "a state from a two-jet is another");
  const State r{g};
  near(r.ref_from_body(), g, "a state is not at the pose given");
  near(join(r.body_angular_velocity_radps(), r.body_linear_velocity_mps()), V6(V6::Zero()), "a state given no velocity moves");
  near(join(r.body_angular_acceleration_radpss(), r.body_linear_acceleration_mpss()), V6(V6::Zero()), "a state given no acceleration accelerates");
  same(motion(State{}), one<M4>(), "the default state is not at rest", "the default state is not at rest", "the default state is not at rest");
  sx_reach("end");
}
namespace {
Frame<3> frame(const char *name) {
  std::array<unsigned char, 16> a{};
  sx_bytes(a.data(), 16, name);
  return Frame<3>{UUID{a}};
}
}  // namespace
SX_ENTRY frames() {
  const Frame<3> ai = frame("ai"), af = frame("af"), bi = frame("bi"), bf = frame("bf");
  sx_assume(not ai.is_null() and not af.is_null() and not bi.is_null() and not bf.is_null());
  const State a{SE3{V3{1., 2., 3.}, ai, af}}, b{SE3{V3{3., 2., 1.}, bi, bf}};
  bool threw = false;
  try {
    const State c = a * b;
    sx_assert(c.ref_from_body().into() == ai and c.ref_from_body().from() == bf, "a composition does not carry the outer frames");
    sx_reach("composed");
  } catch (const AssertException &) {
    threw = true;
    sx_reach("rejected");
  }
  sx_assert(threw == (af != bi), "states with other inner frames were composed, or matching ones rejected");
  threw = false;
  try {
    const State c = a.inverse_times(b);
    sx_assert(c.ref_from_body().into() == af and c.ref_from_body().from() == bf, "a relative state does not carry the body frames");
    sx_reach("related");
  } catch (const AssertException &) {
    threw = true;
    sx_reach("unrelated");
  }
  sx_assert(threw == (ai != bi), "states in other reference frames were related, or matching ones rejected");
  // an object may be both operands
  const State self = a.inverse_times(a);
  sx_assert(self.ref_from_body().into() == af and self.ref_from_body().from() == af, "a state relative to itself does not carry the body frame");
  threw = false;
  try {
    const State c = a * a;
    sx_assert(c.ref_from_body().into() == ai and c.ref_from_body().from() == af, "a composition with itself does not carry the outer frames");
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == (ai != af), "a state was composed with itself across frames, or rejected in one frame");
  const State n = State::identity(ai, af);
  sx_assert(n.ref_from_body().into() == ai and n.ref_from_body().from() == af, "the identity state does not carry its frames");
}
