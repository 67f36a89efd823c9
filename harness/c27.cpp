#include <array>
#include <string>
#include "geo.h"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
namespace tp = resim::transforms::proto;
namespace cp = resim::curves::proto;
namespace vp = resim::visualization::proto;
namespace {
const char *const BAD = "a malformed message was accepted, or a well-formed one rejected";
template <typename F>
bool rejected(F &&f) {
  return sx_throws_as<AssertException>(f);
}
template <typename M>
bool rejected_msg(const M &m) {
  return rejected([&] { (void)unpack(m); });
}
const char *const IDS[4] = {"00000000-0000-0000-0000-000000000000", "01234567-89ab-cdef-0123-456789abcdef", "01234567-89ab-cdef-0123-456789abcdee", "0123456-89ab-cdef-0123-456789abcdef0"};
// Adds a frame: 0 null, 1 and 2 two proper ones, 3 malformed text, 4 empty text, 5 absent.
template <typename M>
void set_frame(M *m, int k) {
  if (k < 4) m->mutable_id()->set_data(IDS[k]);
  if (k == 4) m->mutable_id()->set_data("");
  if (k == 5) (void)m->mutable_id();
}
const int DOFS = 6;
template <typename M>
void set_group(M *m, int n, int i, int f) {
  for (int j = 0; j < n; j++) m->add_algebra(0.25 * (j + 1));
  if (i < 6) set_frame(m->mutable_into(), i);
  if (f < 6) set_frame(m->mutable_from(), f);
}
bool good_frames(int i, int f) { return i < 3 and f < 3 and (i == 0) == (f == 0); }
template <typename G, typename M>
void group() {
  const int n = sx_choose("elements", G::DOF + 2), i = sx_choose("into", 7), f = sx_choose("from", 7);
  M m;
  set_group(&m, n, i, f);
  sx_assert(rejected_msg(m) == not(n == int(G::DOF) and good_frames(i, f)), BAD);
  sx_reach("end");
}
template <typename M>
struct Names;
template <typename G, typename M, bool L>
void jets() {
  const int n = sx_choose("d", G::DOF + 2), k = sx_choose("d2", G::DOF + 2), g = sx_choose("elements", 2), i = sx_choose("into", 3), f = sx_choose("from", 2);
  const bool absent = sx_choose("absent", 2);
  M m;
  if constexpr (L) {
    for (int j = 0; j < n; j++) m.add_d_frame_from_ref(j);
    for (int j = 0; j < k; j++) m.add_d2_frame_from_ref(j);
    if (not absent) set_group(m.mutable_frame_from_ref(), G::DOF - g, i, f);
  } else {
    for (int j = 0; j < n; j++) m.add_d_ref_from_frame(j);
    for (int j = 0; j < k; j++) m.add_d2_ref_from_frame(j);
    if (not absent) set_group(m.mutable_ref_from_frame(), G::DOF - g, i, f);
  }
  sx_assert(rejected_msg(m) == not(n == int(G::DOF) and k == int(G::DOF) and not absent and g == 0 and good_frames(i, f)), BAD);
  sx_reach("end");
}
}  // namespace
SX_ENTRY so3() { group<SO3, tp::SO3>(); }
SX_ENTRY se3() { group<SE3, tp::SE3>(); }
SX_ENTRY jetl_so3() { jets<SO3, cp::TwoJetL_SO3, true>(); }
SX_ENTRY jetl_se3() { jets<SE3, cp::TwoJetL_SE3, true>(); }
SX_ENTRY jetr_so3() { jets<SO3, cp::TwoJetR_SO3, false>(); }
SX_ENTRY jetr_se3() { jets<SE3, cp::TwoJetR_SE3, false>(); }
// An id made of any 36 characters is accepted exactly when libuuid reads it.
SX_ENTRY frames() {
  tp::Frame_3 m;
  char c[36];
  sx_bytes(c, 36, "text");
  bool hex = true;
  for (int i = 0; i < 36; i++) {
    sx_assume(c[i] != 0);
    const bool dash = i == 8 or i == 13 or i == 18 or i == 23;
    const unsigned char x = c[i];
    const bool h = ((unsigned char)(x - '0') < 10) | ((unsigned char)((x | 32) - 'a') < 6);
    hex = hex & (dash ? x == '-' : h);
  }
  m.mutable_id()->set_data(std::string(c, 36));
  sx_assert(rejected_msg(m) == not hex, BAD);
  sx_reach("end");
}
SX_ENTRY framed_vectors() {
  const int n = sx_choose("elements", 5), f = sx_choose("frame", 7);
  tp::FramedVector_3 m;
  for (int i = 0; i < n; i++) m.add_algebra(sx_f64("x"));
  if (f < 6) set_frame(m.mutable_frame(), f);
  sx_assert(rejected_msg(m) == not(n == 3 and f < 3), BAD);
  sx_reach("end");
}
namespace {
template <typename G, typename M>
void tcurve() {
  M m;
  const char *const times[3] = {"t0", "t1", "t2"};
  const int n = 1 + sx_choose("points", 3), odd = sx_choose("odd", n), how = sx_choose("how", 5);
  bool good = true;
  double last = 0.;
  for (int k = 0; k < n; k++) {
    auto *c = m.add_points();
    const double t = sx_f64(times[k]);
    good = good and (k == 0 or t > last);
    last = t;
    c->set_time(t);
    int e = G::DOF, d = G::DOF, d2 = G::DOF, into = 1, from = 2;
    if (k == odd) {
      if (how == 1) e--;
      if (how == 2) d--;
      if (how == 3) d2++;
      if (how == 4) into = from = 0;
      good = good and (how == 0 or (how == 4 and n == 1));
    }
    set_group(c->mutable_point()->mutable_frame_from_ref(), e, into, from);
    for (int j = 0; j < d; j++) c->mutable_point()->add_d_frame_from_ref(j);
    for (int j = 0; j < d2; j++) c->mutable_point()->add_d2_frame_from_ref(j);
  }
  sx_assert(rejected_msg(m) == not good, BAD);
  sx_reach(good ? "good" : "bad");
}
}  // namespace
SX_ENTRY tcurve_so3() { tcurve<SO3, cp::TCurve_SO3>(); }
SX_ENTRY tcurve_se3() { tcurve<SE3, cp::TCurve_SE3>(); }
namespace {
// how: 0 proper, 1 too few elements, 2 unframed among framed ones, 3 semi-framed, 4 swapped frames, 5 empty
bool fill_dcurve(cp::DCurve_SE3 *m, int n, int odd, int how) {
  for (int k = 0; k < n; k++) {
    const bool o = k == odd;
    auto *p = m->add_ref_from_control();
    if (o and how == 5) continue;
    set_group(p, o and how == 1 ? 5 : 6, o and how == 2 ? 0 : o and how == 4 ? 2 : 1, o and (how == 2 or how == 3) ? 0 : o and how == 4 ? 1 : 2);
  }
  return n == 0 or how == 0 or ((how == 2 or how == 4) and n == 1);
}
}  // namespace
SX_ENTRY dcurve() {
  cp::DCurve_SE3 m;
  const int n = sx_choose("points", 4), odd = n == 0 ? 0 : sx_choose("odd", n), how = sx_choose("how", 6);
  const bool good = fill_dcurve(&m, n, odd, how);
  sx_assert(rejected_msg(m) == not good, BAD);
  sx_reach(good ? "good" : "bad");
}
namespace {
// A payload of each kind, proper or with one thing wrong; false when no payload is set
bool fill(vp::ViewPrimitive *m, int kind, bool bad) {
  if (kind == 1) set_group(m->mutable_se3(), bad ? 3 : 6, 1, 2);
  if (kind == 2) set_group(m->mutable_so3(), 3, 1, bad ? 0 : 2);
  if (kind == 3) (void)fill_dcurve(m->mutable_d_curve_se3(), 2, 1, bad ? 2 : 0);
  if (kind == 4 or kind == 5) {
    auto *c = kind == 4 ? m->mutable_t_curve_se3() : m->mutable_trajectory()->mutable_curve();
    for (int i = 0; i < 2; i++) {
      auto *p = c->add_points();
      p->set_time(bad ? 1. : i);
      set_group(p->mutable_point()->mutable_frame_from_ref(), 6, 1, 2);
      for (int j = 0; j < 6; j++) p->mutable_point()->add_d_frame_from_ref(j), p->mutable_point()->add_d2_frame_from_ref(j);
    }
  }
  if (kind == 6) set_frame(m->mutable_frame(), bad ? 3 : 1);
  if (kind == 7) {
    for (int i = 0; i < (bad ? 2 : 3); i++) m->mutable_framed_vector()->add_algebra(i);
    set_frame(m->mutable_framed_vector()->mutable_frame(), 1);
  }
  return kind != 0 and not bad;
}
}  // namespace
SX_ENTRY primitives() {
  vp::ViewPrimitive m;
  const int kind = sx_choose("kind", 8), id = sx_choose("id", 3);
  const bool bad = sx_choose("bad", 2);
  if (id < 2) m.mutable_id()->set_data(id == 0 ? IDS[1] : IDS[3]);
  const bool good = fill(&m, kind, bad) and id == 0;
  sx_assert(rejected_msg(m) == not good, BAD);
  if (kind == 0 and id == 0) sx_assert(not vp::detail::unpack(m).ok(), "a primitive that shows nothing was accepted");
  sx_reach(good ? "good" : "bad");
}
SX_ENTRY updates() {
  vp::ViewUpdate m;
  const int n = sx_choose("count", 4), odd = sx_choose("odd", 4), kind = sx_choose("kind", 8);
  bool good = true;
  for (int i = 0; i < n; i++) {
    auto *p = m.add_primitive();
    p->mutable_id()->set_data(IDS[1]);
    good = fill(p, i == odd ? kind : 6, i == odd) and good;
  }
  sx_assert(rejected_msg(m) == not good, BAD);
  sx_reach(good ? "good" : "bad");
}
