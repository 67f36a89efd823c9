#include <array>
#include <bit>
#include <string>
#include "jets.h"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"
using namespace resim;
using namespace resim::transforms;
using namespace resim::curves;
using actor::state::Trajectory;
using visualization::ViewPrimitive;
namespace {
UUID id(const char *name) {
  std::array<unsigned char, 16> a{};
  sx_bytes(a.data(), 16, name);
  return UUID{a};
}
UUID fixed_id(unsigned char k) {
  std::array<unsigned char, 16> a{};
  for (int i = 0; i < 16; i++) a[i] = k + i;
  return UUID{a};
}
Frame<3> frame(const char *name) { return Frame<3>{id(name)}; }
void bits(double a, double b, const char *m) { sx_assert(std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b), m); }
template <typename A, typename B>
void bits(const A &a, const B &b, const char *m) {
  sx_assert(a.rows() == b.rows() and a.cols() == b.cols(), m);
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) bits(a(i, j), b(i, j), m);
}
const char *const LOST = "a packed object does not unpack to itself";
// One fixed object of each kind, put in the message first to see that packing replaces the contents.
template <typename G>
struct Fix {};
template <>
struct Fix<SO3> {
  static SO3 g(int k, const Frame<3> &i, const Frame<3> &f) { return SO3{0.3 + 0.25 * k, V3{0.6, 0., 0.8}, i, f}; }
  static SO3 g(int k) { return SO3{0.3 + 0.25 * k, V3{0.6, 0., 0.8}}; }
};
template <>
struct Fix<SE3> {
  static SE3 g(int k, const Frame<3> &i, const Frame<3> &f) { return SE3{SO3{0.3 + 0.25 * k, V3{0.6, 0., 0.8}}, V3{1. + k, 2., -3.}, i, f}; }
  static SE3 g(int k) { return SE3{SO3{0.3 + 0.25 * k, V3{0.6, 0., 0.8}}, V3{1. + k, 2., -3.}}; }
};
template <typename G>
typename G::TangentVector tangent(double s) {
  typename G::TangentVector v;
  for (int i = 0; i < v.rows(); i++) v(i) = s + i;
  return v;
}
template <typename G>
TCurve<G> some_curve(int n, double s = 0.) {
  TCurve<G> c;
  for (int i = 0; i < n; i++) c.append({s + i, TwoJetL<G>{Fix<G>::g(i), tangent<G>(1. + i), tangent<G>(2. * i)}});
  return c;
}
template <typename T, typename M>
void put(const T &x, M *m, const T &stale) {
  if (sx_choose("stale", 2)) pack(stale, m);
  pack(x, m);
}
template <typename T, typename M>
void null(const T &x) {
  sx_assert(sx_throws_as<AssertException>([&] { pack(x, static_cast<M *>(nullptr)); }), "packing into no message was accepted");
}
}  // namespace
SX_ENTRY uuids() {
  const UUID x = id("id");
  resim::proto::UUID m;
  put(x, &m, fixed_id(1));
  sx_assert(unpack(m) == x, LOST);
  sx_assert(m.data() == x.to_string(), "an id is not packed as its text");
  null<UUID, resim::proto::UUID>(x);
  sx_reach("end");
}
SX_ENTRY frames() {
  const Frame<3> x = frame("id");
  transforms::proto::Frame_3 m;
  put(x, &m, Frame<3>{fixed_id(1)});
  sx_assert(unpack(m) == x, LOST);
  null<Frame<3>, transforms::proto::Frame_3>(x);
  sx_reach("end");
}
SX_ENTRY framed_vectors() {
  const Frame<3> f = frame("id");
  V3 v;
  v(0) = sx_f64("x"), v(1) = sx_f64("y"), v(2) = sx_f64("z");
  const FramedVector<3> x{v, f};
  transforms::proto::FramedVector_3 m;
  put(x, &m, FramedVector<3>{V3{1., 2., 3.}, Frame<3>{fixed_id(1)}});
  const FramedVector<3> y = unpack(m);
  bits(y.vector(), v, LOST);
  sx_assert(y.frame() == f, LOST);
  null<FramedVector<3>, transforms::proto::FramedVector_3>(x);
  sx_reach("end");
}
namespace {
template <typename M>
void matrix(M m, M n) {
  const char *const names[6] = {"a", "b", "c", "d", "e", "f"};
  for (int i = 0; i < m.size(); i++) m(i / m.cols(), i % m.cols()) = i < 5 ? sx_f64(names[i]) : i + 1 == m.size() ? sx_f64(names[5]) : i + 0.25;
  google::protobuf::RepeatedField<double> f;
  if (sx_choose("stale", 2)) f.Add(3.);
  math::proto::pack_matrix(m, &f);
  sx_assert(f.size() == m.size(), "a packed matrix does not have its number of elements");
  math::proto::unpack_matrix(f, InOut{n});
  bits(n, m, "a packed matrix does not unpack to itself");
  const M before = n;
  if (sx_choose("more", 2)) f.Add(1.);
  else f.RemoveLast();
  sx_assert(sx_throws_as<AssertException>([&] { math::proto::unpack_matrix(f, InOut{n}); }), "a field of another size was unpacked into a matrix");
  bits(n, before, "a rejected field changed the matrix");
  sx_assert(sx_throws_as<AssertException>([&] { math::proto::pack_matrix(m, static_cast<google::protobuf::RepeatedField<double> *>(nullptr)); }), "packing into no field was accepted");
}
}  // namespace
SX_ENTRY matrices() {
  switch (sx_choose("kind", 9)) {
    case 0: matrix(Eigen::Matrix<double, 3, 1>{}, Eigen::Matrix<double, 3, 1>{}); break;
    case 1: matrix(Eigen::Matrix<double, 2, 3>{}, Eigen::Matrix<double, 2, 3>{}); break;
    case 2: matrix(Eigen::Matrix<double, 1, 4>{}, Eigen::Matrix<double, 1, 4>{}); break;
    case 3: matrix(Eigen::MatrixXd(3, 2), Eigen::MatrixXd(3, 2)); break;
    case 4: matrix(Eigen::VectorXd(5), Eigen::VectorXd(5)); break;
    case 6: matrix(Eigen::Matrix<double, 6, 6>{}, Eigen::Matrix<double, 6, 6>{}); break;
    case 7: matrix(Eigen::MatrixXd(9, 4), Eigen::MatrixXd(9, 4)); break;
    case 8: matrix(Eigen::Matrix<double, 1, 1>{}, Eigen::Matrix<double, 1, 1>{}); break;
    case 5: matrix(Eigen::Matrix<double, 2, 3, Eigen::RowMajor>{}, Eigen::Matrix<double, 2, 3, Eigen::RowMajor>{}); break;
  }
  sx_reach("end");
}
// Transforms travel as the element of the algebra with its frames.
namespace {
template <typename G, typename M>
void group(double lo, double hi) {
  const Rot r = rot("h", "u", lo, hi);
  G g;
  if constexpr (std::is_same_v<G, SO3>) g = G{r.q()};
  else g = G{SO3{r.q()}, vec(AX[0], AX[1], AX[2], 1e3)};
  M m;
  put(g, &m, Fix<G>::g(1));
  sx_assert(m.algebra_size() == int(G::DOF), "a packed transform does not have as many elements as degrees of freedom");
  const auto l = g.log();
  for (int i = 0; i < int(G::DOF); i++) sx_near(m.algebra(i), l(i), 1e-9, "a packed transform does not carry its logarithm");
  near(unpack(m), g, LOST, 1e-7);
  null<G, M>(g);
}
template <typename G, typename M>
void group_frames() {
  const Frame<3> i = frame("into"), f = frame("from");
  sx_assume(i.is_null() == f.is_null());
  const G g = Fix<G>::g(0, i, f);
  M m;
  put(g, &m, Fix<G>::g(1, Frame<3>{fixed_id(1)}, Frame<3>{fixed_id(2)}));
  const G b = unpack(m);
  sx_assert(b.into() == i and b.from() == f, "a packed transform does not keep its frames");
  sx_assert(b.is_framed() == g.is_framed(), "a packed transform does not keep its frames");
  near(b, g, LOST, 1e-12);
}
}  // namespace
SX_ENTRY so3() { group<SO3, transforms::proto::SO3>(1e-6, PI - 1e-6), sx_reach("end"); }
SX_ENTRY se3() { group<SE3, transforms::proto::SE3>(0.00101, PI - 0.00101), sx_reach("end"); }
SX_ENTRY so3_frames() { group_frames<SO3, transforms::proto::SO3>(), sx_reach("end"); }
SX_ENTRY se3_frames() { group_frames<SE3, transforms::proto::SE3>(), sx_reach("end"); }
namespace {
template <typename G>
typename G::TangentVector any(const char *const *n) {
  typename G::TangentVector v;
  for (int i = 0; i < v.rows(); i++) v(i) = sx_f64(n[i]);
  return v;
}
void same(const SO3 &a, const SO3 &b) {
  sx_assert(a.into() == b.into() and a.from() == b.from(), "the frames are lost");
  near(a, b, LOST, 1e-12);
}
void same(const SE3 &a, const SE3 &b) {
  sx_assert(a.into() == b.into() and a.from() == b.from(), "the frames are lost");
  near(a, b, LOST, 1e-12);
}
template <typename G>
void same(const TwoJetL<G> &a, const TwoJetL<G> &b) {
  same(a.frame_from_ref(), b.frame_from_ref());
  bits(a.d_frame_from_ref(), b.d_frame_from_ref(), LOST);
  bits(a.d2_frame_from_ref(), b.d2_frame_from_ref(), LOST);
}
template <typename G>
void same(const TwoJetR<G> &a, const TwoJetR<G> &b) {
  same(a.ref_from_frame(), b.ref_from_frame());
  bits(a.d_ref_from_frame(), b.d_ref_from_frame(), LOST);
  bits(a.d2_ref_from_frame(), b.d2_ref_from_frame(), LOST);
}
template <typename G, template <typename> typename J, typename M>
void jets() {
  const Frame<3> i{fixed_id(1)}, f{fixed_id(40)};
  const J<G> x{sx_choose("framed", 2) ? Fix<G>::g(0, i, f) : Fix<G>::g(0), any<G>(AD), any<G>(AE)};
  M m;
  put(x, &m, J<G>{Fix<G>::g(1), tangent<G>(1.), tangent<G>(2.)});
  same(unpack(m), x);
  null<J<G>, M>(x);
  sx_reach("end");
}
}  // namespace
SX_ENTRY jetl_so3() { jets<SO3, TwoJetL, curves::proto::TwoJetL_SO3>(); }
SX_ENTRY jetr_so3() { jets<SO3, TwoJetR, curves::proto::TwoJetR_SO3>(); }
SX_ENTRY jetl_se3() { jets<SE3, TwoJetL, curves::proto::TwoJetL_SE3>(); }
SX_ENTRY jetr_se3() { jets<SE3, TwoJetR, curves::proto::TwoJetR_SE3>(); }
namespace {
template <typename G>
void same(const TCurve<G> &a, const TCurve<G> &b) {
  sx_assert(a.control_pts().size() == b.control_pts().size(), "control points are lost");
  for (std::size_t i = 0; i < a.control_pts().size(); i++) {
    bits(a.control_pts()[i].time, b.control_pts()[i].time, "the times of the control points are lost");
    same(a.control_pts()[i].point, b.control_pts()[i].point);
  }
  sx_assert(a.segments().size() == b.segments().size(), "segments are lost");
}
template <typename G, typename M>
void tcurve() {
  const Frame<3> i{fixed_id(1)}, f{fixed_id(40)};
  const bool framed = sx_choose("framed", 2);
  const int n = sx_choose("points", 4);
  const char *const times[3] = {"t0", "t1", "t2"};
  double t[3];
  TCurve<G> c;
  for (int k = 0; k < n; k++) {
    t[k] = sx_f64(times[k]);
    sx_assume(t[k] == t[k] and (k == 0 or t[k] > t[k - 1]));
    auto d = tangent<G>(1. + k), e = tangent<G>(7. + k);
    if (k == 1) d = any<G>(AD), e = any<G>(AE);
    c.append({t[k], TwoJetL<G>{framed ? Fix<G>::g(k, i, f) : Fix<G>::g(k), d, e}});
  }
  M m;
  put(c, &m, some_curve<G>(2));
  same(unpack(m), c);
  null<TCurve<G>, M>(c);
  sx_reach("end");
}
}  // namespace
SX_ENTRY tcurve_so3() { tcurve<SO3, curves::proto::TCurve_SO3>(); }
SX_ENTRY tcurve_se3() { tcurve<SE3, curves::proto::TCurve_SE3>(); }
namespace {
void same(const DCurve<SE3> &a, const DCurve<SE3> &b) {
  sx_assert(a.control_pts().size() == b.control_pts().size(), "control points are lost");
  for (std::size_t i = 0; i < a.control_pts().size(); i++) {
    same(*a.control_pts()[i].ref_from_control, *b.control_pts()[i].ref_from_control);
    sx_near(a.control_pts()[i].arc_length, b.control_pts()[i].arc_length, 1e-9, "the lengths along the curve are lost");
  }
}
DCurve<SE3> some_dcurve(int n, bool framed) {
  const Frame<3> i{fixed_id(1)}, f{fixed_id(40)};
  std::vector<SE3> p;
  for (int k = 0; k < n; k++) p.push_back(framed ? Fix<SE3>::g(k, i, f) : Fix<SE3>::g(k));
  return DCurve<SE3>{p};
}
}  // namespace
SX_ENTRY dcurve() {
  const int n = sx_choose("points", 5);
  const DCurve<SE3> c = n == 0 ? DCurve<SE3>{} : some_dcurve(n, sx_choose("framed", 2));
  curves::proto::DCurve_SE3 m;
  put(c, &m, some_dcurve(2, false));
  same(unpack(m), c);
  null<DCurve<SE3>, curves::proto::DCurve_SE3>(c);
  sx_reach("end");
}
SX_ENTRY long_dcurve() {
  const int n = 9 + sx_choose("points", 3) * 4;
  std::vector<SE3> p;
  for (int k = 0; k < n; k++) p.push_back(SE3{V3{1. * k, 2. - k % 3, 0.5 * (k % 2)}});
  const DCurve<SE3> c{p};
  curves::proto::DCurve_SE3 m;
  pack(c, &m);
  same(unpack(m), c);
  sx_reach("end");
}
SX_ENTRY long_tcurve() {
  const int n = 9 + sx_choose("points", 3) * 4;
  TCurve<SO3> c;
  for (int k = 0; k + 1 < n; k++) c.append({k - 3.5, TwoJetL<SO3>{Fix<SO3>::g(k % 3), tangent<SO3>(1. + k), tangent<SO3>(7. + k)}});
  const double t = sx_f64("t");
  sx_assume(t > n - 2 - 3.5);
  c.append({t, TwoJetL<SO3>{Fix<SO3>::g(1), any<SO3>(AD), any<SO3>(AE)}});
  curves::proto::TCurve_SO3 m;
  pack(c, &m);
  same(unpack(m), c);
  sx_reach("end");
}
SX_ENTRY dcurve_points() {
  const Rot r = rot("h", "u", 0.00101, 1.5);
  const SE3 a{SO3{r.q()}, vec(AX[0], AX[1], AX[2], 1e3)};
  const DCurve<SE3> c{SE3{V3{0., 1., 20.}}, a};
  curves::proto::DCurve_SE3 m;
  pack(c, &m);
  const DCurve<SE3> b = unpack(m);
  sx_assert(b.control_pts().size() == 2, "control points are lost");
  near(*b.control_pts()[0].ref_from_control, SE3{V3{0., 1., 20.}}, LOST, 1e-7);
  near(*b.control_pts()[1].ref_from_control, a, LOST, 1e-7);
  sx_reach("end");
}
namespace {
Trajectory some_trajectory(int64_t s, int n) {
  return Trajectory{some_curve<SE3>(n), time::Timestamp{time::Duration{s}}};
}
void same(const Trajectory &a, const Trajectory &b) {
  sx_assert(a.start_time() == b.start_time(), "the start of the trajectory is lost");
  same(a.curve(), b.curve());
}
}  // namespace
SX_ENTRY trajectory() {
  const int64_t s = sx_i64("s");
  const Trajectory t = some_trajectory(s, 2 + sx_choose("more", 2));
  actor::state::proto::Trajectory m;
  put(t, &m, some_trajectory(1500000000, 2));
  same(unpack(m), t);
  null<Trajectory, actor::state::proto::Trajectory>(t);
  sx_reach("end");
}
namespace {
template <typename T>
using Id = T;
void same(const Frame<3> &a, const Frame<3> &b) { sx_assert(a == b, LOST); }
void same(const FramedVector<3> &a, const FramedVector<3> &b) {
  sx_assert(a.frame() == b.frame(), "the frame of a vector is lost");
  bits(a.vector(), b.vector(), LOST);
}
ViewPrimitive primitive(int kind, const UUID &i, const Frame<3> &x, const Frame<3> &y) {
  ViewPrimitive p{.id = i};
  if (kind == 0) p.payload = Fix<SE3>::g(3, x, y);
  if (kind == 1) p.payload = Fix<SO3>::g(3, x, y);
  if (kind == 2) p.payload = some_dcurve(3, true);
  if (kind == 3) p.payload = some_curve<SE3>(3);
  if (kind == 4) p.payload = some_trajectory(-7, 2);
  if (kind == 5) p.payload = x;
  if (kind == 6) p.payload = FramedVector<3>{V3{1., 2., 3.}, y};
  p.line_number = 0;
  return p;
}
std::string text(const char *name, int max) {
  const int n = sx_choose(name, max + 1);
  char c[4] = {};
  sx_bytes(c, n, name);
  std::string s;
  for (int i = 0; i < n; i++) {
    sx_assume(c[i] > 0);
    s.push_back(c[i]);
  }
  return s;
}
void same(const ViewPrimitive &a, const ViewPrimitive &b) {
  sx_assert(a.id == b.id, "the id of a primitive is lost");
  sx_assert(a.user_defined_name == b.user_defined_name, "the name of a primitive is lost");
  sx_assert(a.file_name == b.file_name and a.line_number == b.line_number, "the place of a primitive is lost");
  sx_assert(a.payload.index() == b.payload.index(), "a primitive turned into one of another kind");
  std::visit([&](const auto &x) { same(x, std::get<std::decay_t<decltype(x)>>(b.payload)); }, a.payload);
}
}  // namespace
SX_ENTRY primitives() {
  const Frame<3> x{fixed_id(3)}, y{fixed_id(60)};
  ViewPrimitive p = primitive(sx_choose("kind", 7), id("id"), x, y);
  const int named = sx_choose("named", 3);
  if (named == 1) p.user_defined_name = std::string("a name that does not fit in the object itself") + std::string(1000, 'n') + "!";
  if (named == 2) {
    p.user_defined_name = text("name", 2);
    sx_assume(not p.user_defined_name->empty());
  }
  p.file_name = text("file", 2);
  p.line_number = sx_i32("line");
  visualization::proto::ViewPrimitive m;
  const int stale = sx_choose("stale", 8);
  if (stale > 0) {
    ViewPrimitive s = primitive(stale - 1, fixed_id(80), y, x);
    s.user_defined_name = "old";
    s.file_name = "old";
    s.line_number = 3;
    pack(s, &m);
  }
  pack(p, &m);
  same(unpack(m), p);
  sx_assert(visualization::proto::detail::unpack(m).ok(), "a valid message is reported as invalid");
  null<ViewPrimitive, visualization::proto::ViewPrimitive>(p);
  sx_reach("end");
}
SX_ENTRY updates() {
  const Frame<3> x{fixed_id(3)}, y{fixed_id(60)};
  visualization::ViewUpdate u;
  const int n = sx_choose("count", 4);
  for (int i = 0; i < n; i++) {
    const char *const ids[3] = {"id0", "id1", "id2"};
    const int k = i == 0 ? sx_choose("kind", 7) : 5 + i % 2;
    u.primitives.push_back(primitive(k, id(ids[i]), x, y));
    if (i == 1) u.primitives.back().user_defined_name = "second";
  }
  visualization::proto::ViewUpdate m;
  if (sx_choose("stale", 2)) pack(visualization::ViewUpdate{{primitive(5, fixed_id(1), y, x)}}, &m);
  pack(u, &m);
  sx_assert(m.primitive_size() == n, "an update does not carry each of its primitives once");
  const visualization::ViewUpdate b = unpack(m);
  sx_assert(b.primitives.size() == std::size_t(n), "an update does not carry each of its primitives once");
  for (int i = 0; i < n; i++) same(b.primitives[i], u.primitives[i]);
  null<visualization::ViewUpdate, visualization::proto::ViewUpdate>(u);
  sx_reach("end");
}
SX_ENTRY long_update() {
  const Frame<3> x{fixed_id(3)}, y{fixed_id(60)};
  visualization::ViewUpdate u;
  const int n = 40, at = 10 * sx_choose("where", 4), kind = sx_choose("kind", 7);
  for (int i = 0; i < n; i++) {
    u.primitives.push_back(primitive(i == at ? kind : 5 + i % 2, i == at ? id("id") : fixed_id(5 * i), x, y));
    if (i % 4 == 2) u.primitives.back().user_defined_name = "number " + std::to_string(i);
    u.primitives.back().file_name = i % 2 ? "a.cc" : std::string(300, 'x');
    u.primitives.back().line_number = 100 * i;
  }
  visualization::proto::ViewUpdate m;
  pack(u, &m);
  sx_assert(m.primitive_size() == n, "an update does not carry each of its primitives once");
  const visualization::ViewUpdate b = unpack(m);
  sx_assert(b.primitives.size() == std::size_t(n), "an update does not carry each of its primitives once");
  for (int i = 0; i < n; i++) same(b.primitives[i], u.primitives[i]);
  sx_reach("end");
}
