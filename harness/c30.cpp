#include <array>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <utility>
#include <variant>
#include <vector>
#include "geo.h"
#include "resim/actor/state/trajectory.hh"
#include "resim/assert/assert.hh"
#include "resim/utils/status.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/view_client_interface.hh"
#include "resim/visualization/view_primitive.hh"
#include "resim/visualization/view_update.hh"
// Only to install the recording client: View::set_client is private.
#define private public
#include "resim/visualization/view.hh"
#undef private
using namespace resim;
using namespace resim::transforms;
using visualization::View;
using visualization::ViewPrimitive;
using visualization::ViewUpdate;
namespace resim::visualization {
// Stand-in for the client View makes by default; it must never be used here.
ViewClient::ViewClient(std::string base_url) : base_url_{std::move(base_url)} {}
Status ViewClient::send_view_update(const ViewUpdate &) { return MAKE_STATUS("not the client that was set"); }
}  // namespace resim::visualization
namespace {
std::vector<ViewPrimitive> *sent = nullptr;
std::vector<int> *sizes = nullptr;
int calls = 0;
int fail_at = -1;
class Recorder : public visualization::ViewClientInterface {
 public:
  Status send_view_update(const ViewUpdate &u) override {
    const int k = calls;
    calls = k + 1;
    if (k == fail_at) return MAKE_STATUS("no network");
    for (const auto &p : u.primitives) sent->push_back(p);
    sizes->push_back(int(u.primitives.size()));
    return OKAY_STATUS;
  }
};
void start() {
  sent = new std::vector<ViewPrimitive>;
  sizes = new std::vector<int>;
  sent->reserve(16);
  sizes->reserve(16);
  calls = 0;
  View::get_instance().set_client(std::make_unique<Recorder>());
}
UUID fixed_id(unsigned char k) {
  std::array<unsigned char, 16> a{};
  for (int i = 0; i < 16; i++) a[i] = k + i;
  return UUID{a};
}
const Frame<3> &frame(int k) {
  static const std::array<Frame<3>, 4> f{Frame<3>{fixed_id(1)}, Frame<3>{fixed_id(30)}, Frame<3>{fixed_id(60)}, Frame<3>{fixed_id(90)}};
  return f[k];
}
curves::TCurve<SE3> tcurve(int n) {
  curves::TCurve<SE3> c;
  for (int i = 0; i < n; i++) c.append({double(i), curves::TwoJetL<SE3>{}});
  return c;
}
struct Expected {
  int kind;
  std::optional<std::string> name;
  std::string file;
  int line;
};
template <typename T>
Expected show(const T &x, int kind, int how, const std::string &name) {
  if (how == 0) {
    view << x;
    return {kind, std::nullopt, "Unknown file", 0};
  }
  if (how == 1) {
    VIEW(x) << name; const int l = __LINE__;
    return {kind, name, __FILE__, l};
  }
  if (how == 2) {
    (void)VIEW(x, name); const int l = __LINE__;
    return {kind, name, __FILE__, l};
  }
  // named at a place of its own
  visualization::ViewObject<T> o{x, "other.cc", 7};
  o << name;
  return {kind, name, "other.cc", 7};
}
Expected show(int kind, int how, const std::string &name) {
  switch (kind) {
    case 0: return show(SE3{V3{1., 2., 3.}, frame(0), frame(1)}, kind, how, name);
    case 1: return show(SO3{0.5, V3{0., 0., 1.}, frame(1), frame(2)}, kind, how, name);
    case 2: return show(curves::DCurve<SE3>{SE3{V3{1., 0., 0.}}, SE3{V3{2., 0., 0.}}}, kind, how, name);
    case 3: return show(tcurve(3), kind, how, name);
    case 4: return show(actor::state::Trajectory{tcurve(2), time::Timestamp{time::Duration{42}}}, kind, how, name);
    case 5: return show(frame(3), kind, how, name);
    default: return show(FramedVector<3>{V3{4., 5., 6.}, frame(2)}, kind, how, name);
  }
}
bool payload(const ViewPrimitive &p, int kind) {
  if (p.payload.index() != std::size_t(kind)) return false;
  if (kind == 0) return std::get<SE3>(p.payload).translation() == V3{1., 2., 3.} and std::get<SE3>(p.payload).verify_frames(frame(0), frame(1));
  if (kind == 1) return std::get<SO3>(p.payload).is_approx(SO3{0.5, V3{0., 0., 1.}, frame(1), frame(2)});
  if (kind == 2) return std::get<curves::DCurve<SE3>>(p.payload).control_pts().size() == 2 and std::get<curves::DCurve<SE3>>(p.payload).curve_length() == 1.;
  if (kind == 3) return std::get<curves::TCurve<SE3>>(p.payload).control_pts().size() == 3;
  if (kind == 4) return std::get<actor::state::Trajectory>(p.payload).start_time().time_since_epoch().count() == 42;
  if (kind == 5) return std::get<Frame<3>>(p.payload) == frame(3);
  return std::get<FramedVector<3>>(p.payload).vector() == V3{4., 5., 6.} and std::get<FramedVector<3>>(p.payload).frame() == frame(2);
}
void compare(const ViewPrimitive &p, const Expected &e) {
  sx_assert(payload(p, e.kind), "an object is not shown as it was given");
  sx_assert(p.user_defined_name == e.name, "an object is not shown under its name");
  sx_assert(p.file_name == e.file and p.line_number == e.line, "an object is not shown with the place it was viewed");
}
}  // namespace
// Each object viewed is sent at once, exactly once and in order, with its name and place.
SX_ENTRY sequence() {
  start();
  std::vector<Expected> e;
  const char *const kinds[3] = {"k0", "k1", "k2"}, *const hows[3] = {"h0", "h1", "h2"};
  const int n = 2;
  for (int i = 0; i < n; i++) {
    const int kind = sx_choose(kinds[i], 7), how = sx_choose(hows[i], 4);
    e.push_back(show(kind, how, i == 0 ? "first" : "a second name which is rather long"));
    sx_assert(sent->size() == e.size(), "an object viewed is not sent at once, or sent more than once");
  }
  for (int i = 0; i < n; i++) {
    compare((*sent)[i], e[i]);
    for (int j = 0; j < i; j++) sx_assert((*sent)[i].id != (*sent)[j].id, "two objects are sent under the same id");
  }
  // an object that is not streamed anything is not shown
  (void)VIEW(frame(0));
  sx_assert(sent->size() == std::size_t(n), "an unnamed object was shown before it got its name");
  View::get_instance().flush();
  sx_assert(sent->size() == std::size_t(n), "flushing sends objects again");
  sx_reach("end");
}
// Many objects, one after the other.
SX_ENTRY many() {
  start();
  std::vector<Expected> e;
  const int n = 24, kind = sx_choose("kind", 7), how = kind % 4;
  for (int i = 0; i < n; i++) {
    e.push_back(show(i == 20 ? kind : 5 + i % 2, i == 21 ? how : 1 + i % 3, "object " + std::to_string(i)));
    sx_assert(sent->size() == e.size(), "an object viewed is not sent at once, or sent more than once");
  }
  sx_assert(calls == n, "objects are not sent one by one");
  for (int i = 0; i < n; i++) {
    compare((*sent)[i], e[i]);
    for (int j = 0; j < i; j++) sx_assert((*sent)[i].id != (*sent)[j].id, "two objects are sent under the same id");
  }
  sx_reach("end");
}
// Names and places are shown whatever they are: empty, long, of any bytes, at any line.
SX_ENTRY names() {
  start();
  const int kind = sx_choose("kind", 7), how = sx_choose("how", 4), which = sx_choose("which", 3);
  char b[2];
  sx_bytes(b, 2, "name");
  std::string name;
  if (which == 1) name.assign(b, 2);
  if (which == 2) name = std::string(1000, 'n') + std::string(b, 2) + std::string(40, 'm');
  std::string file = which == 2 ? std::string(400, 'd') + "/file.cc" : "some/where/file.hh";
  Expected e{5, name, "", 0};
  if (how == 3) {
    const int line = sx_i32("line");
    visualization::ViewObject<Frame<3>> o{frame(3), file.c_str(), line};
    o << name;
    e.file = file, e.line = line;
  } else if (how == 2) {
    const Frame<3> &x = frame(3);
#line 70001 "here.cc"
    VIEW(x) << name;
    e.file = "here.cc", e.line = 70001;
  } else if (how == 1) {
    const Frame<3> &x = frame(3);
#line 2000000 "and/there.cc"
    (void)VIEW(x, name);
    e.file = "and/there.cc", e.line = 2000000;
#line 1 "c30.cpp"
  } else {
    e = show(kind, 3, name);
  }
  // what is shown does not depend on what becomes of the arguments
  file.assign(file.size(), '-');
  name.assign(name.size(), '-');
  sx_assert(sent->size() == 1, "an object viewed is not sent at once, or sent more than once");
  compare(sent->front(), e);
  sx_reach("end");
}
// A failed transmission is reported to the caller; it neither blocks nor repeats other objects.
SX_ENTRY failures() {
  start();
  fail_at = sx_choose("fail", 3);
  int ok[3] = {}, n = 0;
  for (int i = 0; i < 3; i++) {
    const bool threw = sx_throws_as<AssertException>([&] { view << FramedVector<3>{V3{double(i), 0., 0.}, frame(0)}; });
    sx_assert(threw == (i == fail_at), "a failed transmission is not reported, or a successful one is");
  }
  for (const auto &p : *sent) {
    const int k = int(std::get<FramedVector<3>>(p.payload).vector()(0));
    sx_assert(k >= 0 and k < 3, "something else was sent");
    ok[k]++;
  }
  for (int i = 0; i < 3; i++) sx_assert(ok[i] == 1 or (i == fail_at and ok[i] == 0), "an object was lost or sent twice");
  (void)n;
  sx_reach("end");
}
// Installing a client drops what was meant for the previous one; without a client nothing can be sent.
SX_ENTRY clients() {
  start();
  View::get_instance().set_client(nullptr);
  const bool threw = sx_throws_as<AssertException>([&] { view << frame(0); });
  sx_assert(threw, "an object was accepted although there is no client");
  start();
  view << frame(1);
  sx_assert(sent->size() == 1 and std::get<Frame<3>>((*sent)[0].payload) == frame(1), "a new client got an object viewed before");
  sx_reach("end");
}
namespace {
int count[2];
void one(void *p) {
  const int k = *static_cast<int *>(p);
  for (int i = 0; i < count[k]; i++) view << FramedVector<3>{V3{double(k), double(i), 0.}, frame(k)};
}
void parallel(int a, int b) {
  start();
  (void)frame(0);
  count[0] = a, count[1] = b;
  int id[2] = {0, 1};
  const int t0 = sx_thread(one, &id[0]), t1 = sx_thread(one, &id[1]);
  sx_join(t0), sx_join(t1);
  int got[2][3] = {};
  for (const auto &p : *sent) {
    const V3 v = std::get<FramedVector<3>>(p.payload).vector();
    const int k = int(v(0)), i = int(v(1));
    sx_assert(k >= 0 and k < 2 and i >= 0 and i < count[k], "something else was sent");
    sx_assert(got[k][i] == 0, "an object was sent twice");
    sx_assert(i == 0 or got[k][i - 1] == 1, "objects of one thread were sent out of order");
    sx_assert(std::get<FramedVector<3>>(p.payload).frame() == frame(k), "an object was mixed up with another");
    got[k][i]++;
  }
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < count[k]; i++) sx_assert(got[k][i] == 1, "an object was lost");
  sx_reach("end");
}
}  // namespace
// Objects viewed by several threads are each sent exactly once, whatever the schedule.
SX_ENTRY threads() { parallel(1, 1); }
SX_ENTRY threads_more() { parallel(2, sx_tier() ? 2 : 1); }
