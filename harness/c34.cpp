// Different objects may be used by different threads, and no call depends on the calls before it.
#include <array>
#include <bit>
#include <string>
#include <unordered_map>
#include <vector>
#include "jets.h"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/quintic_poly_coeffs.hh"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/math/sample_statistics.hh"
#include "resim/time/event_schedule.hh"
#include "resim/time/sample_interval.hh"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/utils/match.hh"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/utils/status_value.hh"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
using actor::state::Trajectory;
using State = actor::state::RigidBodyState<SE3>;
using time::Duration;
using time::Timestamp;
namespace {
struct Log {
  int k = 0;
  std::vector<double> v;
  std::string text;
  void put(double x) { v.push_back(x); }
  template <typename D>
  void put(const Eigen::MatrixBase<D> &m) {
    for (int i = 0; i < m.rows(); i++)
      for (int j = 0; j < m.cols(); j++) v.push_back(m(i, j));
  }
  void put(const SO3 &g) { put(g.rotation_matrix()); }
  void put(const SE3 &g) {
    put(g.rotation());
    put(g.translation());
  }
  bool operator==(const Log &o) const {
    if (v.size() != o.v.size() or text != o.text) return false;
    for (std::size_t i = 0; i < v.size(); i++)
      if (std::bit_cast<uint64_t>(v[i]) != std::bit_cast<uint64_t>(o.v[i])) return false;
    return true;
  }
};
Frame<3> frame(int k) {
  std::array<unsigned char, 16> a{};
  for (int i = 0; i < 16; i++) a[i] = 16 * k + i + 1;
  return Frame<3>{UUID{a}};
}
template <typename G>
void group(Log &o, const G &g, const G &h, const typename G::TangentVector &x) {
  o.put(g * h);
  o.put(g.inverse());
  o.put(g.interp(0.3));
  o.put(g.log());
  o.put(G::exp(x));
  if constexpr (std::is_same_v<G, SO3>) o.put(G::exp_diff(x));
  o.put(g.adjoint());
  o.put(g.adjoint_times(x));
  o.put(G::adjoint(x));
  o.put(g.is_approx(h) ? 1. : 0.);
  const TwoJetL<G> l{g, x, x}, m{h, x, x};
  const TwoJetL<G> n = l * m.inverse();
  o.put(n.d2_frame_from_ref());
  o.put(n.right_two_jet().d_ref_from_frame());
}
void maths(void *p) {
  Log &o = *static_cast<Log *>(p);
  const double a = 0.25 + o.k, b = 1. / (2. + o.k);
  const SO3 r{b, V3{0., 0., 1.}}, s = SO3::exp(V3{0.5 * b, b, -0.25});
  group(o, r, s, V3{a, b, 0.5});
  V6 x;
  for (int i = 0; i < 6; i++) x(i) = 0.1 * (i + 1) * b;
  group(o, SE3{r, V3{a, b, 1.}}, SE3{s, V3{b, a, 2.}}, x);
  TCurve<SE3> t{{0., TwoJetL<SE3>{SE3{V3{a, b, 1.}}, x, x}}, {1., TwoJetL<SE3>{SE3{V3{b, a, 2.}}, x, x}}};
  o.put(t.point_at(b).frame_from_ref());
  DCurve<SE3> d{SE3{V3{a, b, 1.}}, SE3{r, V3{b, a, 2.}}};
  o.put(d.point_at(0.5 * d.curve_length()));
  const Trajectory j{{Timestamp{Duration{o.k}}, State{SE3{V3{a, b, 1.}}}}, {Timestamp{Duration{o.k + 1000}}, State{SE3{V3{b, a, 1.}}}}};
  o.put(j.point_at(Timestamp{Duration{o.k + 500}}).ref_from_body());
  o.put(static_cast<double>(j.end_time().time_since_epoch().count()));
  Eigen::MatrixXd samples(2, 3);
  samples << a, b, 1., b, a, a;
  o.put(math::covariance(samples));
  time::sample_interval(a, a + 2., 0.7, [&](double y) { o.put(y); });
  time::sample_interval(Timestamp{Duration{o.k}}, Timestamp{Duration{o.k + 10}}, Duration{4}, [&](Timestamp y) { o.put(static_cast<double>(y.time_since_epoch().count())); });
  time::EventSchedule<int> e;
  for (int i = 0; i < 4; i++) e.schedule_event(Timestamp{Duration{(i * 7 + o.k) % 3}}, i);
  while (e.size() > 0) {
    o.put(static_cast<double>(e.top_event().payload));
    e.pop_event();
  }
}
StatusValue<int> fails(int k) {
  if (k >= 0) return MAKE_STATUS("it failed");
  return k;
}
StatusValue<int> chain(int k) {
  const int x = RETURN_OR_ASSIGN(fails(k));
  return x;
}
void messages(void *p) {
  Log &o = *static_cast<Log *>(p);
  const double a = 0.25 + o.k;
  const Frame<3> f = frame(o.k), g = frame(o.k + 2);
  o.text += f.id().to_string();
  o.text += UUID{f.id().to_string()}.to_string();
  std::unordered_map<UUID, int> m;
  m[f.id()] = o.k;
  m[g.id()] = 7;
  o.put(static_cast<double>(m.at(f.id())));
  resim::proto::UUID um;
  resim::proto::pack(f.id(), &um);
  o.text += resim::proto::unpack(um).to_string();
  const SE3 x{SO3{0.5, V3{0., 0., 1.}}, V3{a, 2., 3.}, f, g};
  visualization::ViewPrimitive prim{.id = f.id(), .payload = x, .user_defined_name = "name", .file_name = "file", .line_number = o.k};
  visualization::ViewUpdate up{.primitives = {prim, prim}};
  visualization::proto::ViewUpdate um2;
  visualization::proto::pack(up, &um2);
  const visualization::ViewUpdate back = visualization::proto::unpack(um2);
  o.put(std::get<SE3>(back.primitives.at(1).payload).translation());
  o.text += back.primitives.at(0).user_defined_name.value_or("none");
  const int n = match(
      back.primitives.at(0).payload, [](const SE3 &) -> int { return 3; }, [](const auto &) -> int { return 5; });
  o.put(n);
  const Status s = chain(o.k).status();
  o.text += s.what();
  try {
    REASSERT(o.k < 0, "text");
  } catch (const AssertException &e) {
    o.text += e.what();
  }
}
void both(void (*f)(void *)) {
  Log r[2], again[2];
  r[1].k = again[1].k = 1;
  const int t0 = sx_thread(f, &r[0]), t1 = sx_thread(f, &r[1]);
  sx_join(t0);
  sx_join(t1);
  for (int i = 1; i >= 0; i--) f(&again[i]);
  for (int i = 0; i < 2; i++) sx_assert(r[i] == again[i], "the result of a call depends on what other threads do or on earlier calls");
  sx_assert(not(r[0].v == r[1].v), "internal: the threads do the same");
  sx_reach("end");
}
}  // namespace
SX_ENTRY math_threads() { both(maths); }
SX_ENTRY message_threads() { both(messages); }

// The same call gives the same answer whatever was computed in between.
namespace {
const char *const AGAIN = "a call gives another answer after other calls";
template <typename F>
void again(F f, double x, double y) {
  Log a, b;
  f(a, 0.7);  // something else
  a.v.clear();
  f(a, x);
  Log c;
  f(c, y);
  f(b, x);
  sx_assert(a.v.size() == b.v.size(), AGAIN);
  for (std::size_t i = 0; i < a.v.size(); i++) sx_near(a.v[i], b.v[i], 1e-12, AGAIN);
  sx_reach("end");
}
}  // namespace
SX_ENTRY group_calls() {
  const double x = sx_real("x", 0.01, 1.5), y = sx_real("y", 0.01, 1.5);
  const int k = sx_choose("op", 9);
  again(
      [k](Log &o, double t) {
        const V3 w{0., 0., t};
        const V6 v = join(w, V3{1., t, 2.});
        const SO3 q{Eigen::Quaterniond{0.5, 0.5, -0.5, 0.5}};
        const SE3 p{q, V3{1., t, 2.}};
        if (k == 0) o.put(SO3::exp(w));
        if (k == 1) o.put(SO3::exp(w).log());
        if (k == 2) o.put(SO3::exp_diff(w));
        if (k == 3) o.put(SE3::exp(v));
        if (k == 4) o.put(SE3::exp(v).log());
        if (k == 5) o.put((p * SE3::exp(v)).inverse());
        if (k == 6) o.put(p.adjoint_times(v));
        if (k == 7) o.put(SE3::adjoint(v) * v);
        if (k == 8) {
          const TwoJetL<SE3> l{p, v, v}, m{SE3::exp(v), v, v};
          const TwoJetL<SE3> n = l * m;
          o.put(n.frame_from_ref());
          o.put(n.d_frame_from_ref());
          o.put(n.inverse().d2_frame_from_ref());
          o.put(n.right_two_jet().d2_ref_from_frame());
        }
      },
      x, y);
}
SX_ENTRY curve_calls() {
  const double x = sx_real("x", 0.01, 1.5), y = sx_real("y", 0.01, 1.5);
  const int k = sx_choose("op", 4);
  again(
      [k](Log &o, double t) {
        const V6 z = V6::Zero();
        if (k == 0) {
          const TCurve<SE3> c{{0., TwoJetL<SE3>{SE3{V3{t, 0., 1.}}, z, z}}, {2., TwoJetL<SE3>{SE3{V3{0., t, 1.}}, z, z}}};
          o.put(c.point_at(t).frame_from_ref());
        }
        if (k == 1) {
          const DCurve<SE3> c{SE3{V3{0., 0., 1.}}, SE3{V3{t, 0., 1.}}};
          o.put(c.point_at(0.25 * t));
        }
        if (k == 2) {
          Eigen::MatrixXd samples(2, 3);
          samples << t, 1., 2., 0., t, 3.;
          o.put(math::covariance(samples));
        }
        if (k == 3) o.put((State{SE3{V3{t, 0., 1.}}} * State{SE3{V3{1., t, 1.}}}).ref_from_body());
      },
      x, y);
}
