#include <array>
#include <cstring>
#include <memory>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>
#include "cpr/cpr.h"
#include "geo.h"
#include "google/protobuf/util/json_util.h"
#include "resim/actor/state/trajectory.hh"
#include "resim/assert/assert.hh"
#include "resim/auth/auth_client_interface.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/utils/status.hh"
#include "resim/visualization/client/proto/view_client.pb.h"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view_primitive.hh"
#include "resim/visualization/view_update.hh"
using namespace resim;
using namespace resim::transforms;
using visualization::ViewClient;
using visualization::ViewPrimitive;
using visualization::ViewUpdate;
namespace vp = resim::visualization::proto;
extern char **environ;
extern "C" __attribute__((noinline)) char *getenv(const char *n) noexcept {
  static char home[] = "/home/u", tmp[] = "/scratch";
  if (not std::strcmp(n, "HOME")) return home;
  if (not std::strcmp(n, "TEST_TMPDIR")) return tmp;
#ifndef SX_BC
  const auto k = std::strlen(n);
  for (char **e = environ; *e != nullptr; e++)
    if (std::strncmp(*e, n, k) == 0 and (*e)[k] == '=') return *e + k + 1;
#endif
  return nullptr;
}
namespace {
std::string *made_path = nullptr;
}
namespace resim::auth {
// Stand-in for the client ViewClient makes by default, which is another property's subject.
DeviceCodeClient::DeviceCodeClient(Config config) : config_{std::move(config)} { made_path = new std::string{config_.token_path.string()}; }
std::string DeviceCodeClient::get_jwt() { sx_assert(false, "not the credentials that were set"); return {}; }
void DeviceCodeClient::refresh() { sx_assert(false, "not the credentials that were set"); }
}  // namespace resim::auth
namespace {
int version = 0, refreshes = 0;
std::string jwt() { return std::string{"jwt"} + std::to_string(version); }
class Auth : public auth::AuthClientInterface {
 public:
  std::string get_jwt() override { return jwt(); }
  void refresh() override { version++, refreshes++; }
};
// ---- the server
const std::string base = "https://api";
int attempts = 0, session_attempts = 0, sessions = 0;
int64_t last_status = 0, last_session_status = 0;
std::string session_text = "\"abc\"\n", session_id = "abc";
const char *const names[16] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15"};
int asked = 0;
int64_t (*decide)() = nullptr;
int64_t any_status() { return sx_range(names[asked++], -1, 599); }
int64_t created() { return 201; }
int posted = 0;  // updates seen so far
std::string update_url;
const ViewUpdate *current = nullptr;
bool garbage = false;
bool same(const ViewUpdate &u, const vp::ViewUpdate &m) {
  const ViewUpdate got = vp::unpack(m);
  if (got.primitives.size() != u.primitives.size()) return false;
  for (std::size_t i = 0; i < u.primitives.size(); i++) {
    const ViewPrimitive &a = got.primitives[i], &b = u.primitives[i];
    if (a.id != b.id or a.user_defined_name != b.user_defined_name or a.payload.index() != b.payload.index()) return false;
    if (std::get<FramedVector<3>>(a.payload).vector() != std::get<FramedVector<3>>(b.payload).vector()) return false;
  }
  return true;
}
}  // namespace
namespace cpr {
Response sx_serve(const Request &r) {
  sx_assert(r.method == "POST", "the server is not asked by POST");
  sx_assert(r.has_bearer and r.bearer == jwt(), "a request does not carry the current credentials");
  Response p;
  p.status_code = decide();
  if (r.url == base + "/view/sessions") {
    sx_assert(sessions == 0, "a second session is created");
    sx_assert(session_attempts == 0 or (session_attempts == 1 and last_session_status == 401 and refreshes == 1),
              "creating the session is retried without new credentials, or too often");
    session_attempts++, last_session_status = p.status_code;
    if (p.status_code == 201) sessions++;
    p.text = session_text;
    return p;
  }
  sx_assert(sessions == 1, "an update is sent without a session");
  if (attempts == 0) {
    update_url = base + "/view/sessions/" + session_id + "/updates/" + std::to_string(posted);
    posted++;
    refreshes = 0;
  } else
    sx_assert(attempts == 1 and last_status == 401 and refreshes == 1, "an update is sent again without new credentials, or too often");
  sx_assert(r.url == update_url, "an update does not go to its own place in the session");
  const auto t = r.header.find("content-type");
  sx_assert(t != r.header.end() and t->second == "application/octet-stream", "an update is not marked as binary");
  vp::ViewUpdate m;
  const bool ok = m.ParseFromString(r.body);
  sx_assert(ok and same(*current, m), "an update does not carry what was given");
  attempts++, last_status = p.status_code;
  visualization::client::proto::ViewSessionUpdateResponse a;
  a.set_view("https://app/x");
  google::protobuf::util::MessageToJsonString(a, &p.text);
  if (garbage) p.text = "<html>";
  return p;
}
}  // namespace cpr
namespace {
UUID fixed_id(unsigned char k) {
  std::array<unsigned char, 16> a{};
  for (int i = 0; i < 16; i++) a[i] = k + i;
  return UUID{a};
}
ViewUpdate update(int k, int n) {
  ViewUpdate u;
  for (int i = 0; i < n; i++)
    u.primitives.push_back(ViewPrimitive{.id = fixed_id(static_cast<unsigned char>(10 * k + i)), .payload = FramedVector<3>{V3{double(k), double(i), 0.}, Frame<3>{fixed_id(99)}},
                                         .user_defined_name = i == 0 ? std::optional<std::string>{"name"} : std::nullopt, .file_name = "file.cc", .line_number = 7 + i});
  return u;
}
// sends update k and checks how it went
void send(ViewClient &c, int k, int n) {
  const ViewUpdate u = update(k, n);
  current = &u;
  attempts = 0, session_attempts = 0, refreshes = 0;
  const bool had = sessions == 1;
  const Status s = c.send_view_update(u);
  sx_assert(not had or session_attempts == 0, "a second session is created");
  sx_assert(had or session_attempts > 0, "no session is created");
  sx_assert(attempts > 0 or sessions == 0, "the update is not sent although there is a session");
  sx_assert(s.ok() == (attempts > 0 and last_status == 201), "the outcome reported is not the server's");
  // refused credentials are renewed, and the request tried again, exactly once
  sx_assert(sessions == 1 or session_attempts == 2 or last_session_status != 401, "refused credentials are not renewed");
  sx_assert(attempts == 0 or attempts == 2 or last_status != 401, "refused credentials are not renewed");
}
std::unique_ptr<ViewClient> client() {
  auto c = std::make_unique<ViewClient>(base);
  c->set_auth_client(std::make_unique<Auth>());
  return c;
}
}  // namespace
// Whatever the server answers: one session, updates numbered in order, credentials renewed once
// when they are refused, every failure reported.
SX_ENTRY answers() {
  decide = any_status;
  garbage = false;
  const auto c = client();
  const int n = sx_tier() ? 4 : 3;
  for (int k = 0; k < n; k++) send(*c, k, 1);
  sx_reach("end");
}
SX_ENTRY content() {
  decide = created;
  garbage = sx_bool("garbage");
  const auto c = client();
  const int n = sx_choose("n", 4);
  for (int k = 0; k < 2; k++) send(*c, k, n);
  sx_assert(posted == 2 and sessions == 1, "not one session with two updates");
  sx_reach("end");
}
// A long session: numbering goes on, and an update with many objects is sent whole.
namespace {
int failing = 0;
int64_t mostly() { return posted == failing + 1 and attempts == 0 ? sx_range("s", 200, 599) : 201; }
}  // namespace
SX_ENTRY many() {
  const int n = sx_tier() ? 130 : 24;
  failing = n - 2;
  decide = mostly;
  garbage = false;
  const auto c = client();
  for (int k = 0; k < n; k++) send(*c, k, k == 3 ? 40 : k % 3 == 0);
  sx_assert(posted == n and sessions == 1, "not one session with all updates");
  sx_reach("end");
}
// The session is addressed by its bare identifier.
SX_ENTRY session() {
  decide = created;
  const int n = sx_tier() ? 4 : 3;
  std::string t(n, ' ');
  sx_bytes(t.data(), n, "text");
  session_text = t;
  session_id.clear();
  for (char ch : t)
    if (ch != '"' and ch != '\n') session_id += ch;
  sx_assume(not session_id.empty());
  const auto c = client();
  send(*c, 0, 1);
  send(*c, 1, 0);
  sx_reach("end");
}
// Nothing is sent without an address; the token is kept below the user's home, or the test's directory.
SX_ENTRY setup() {
  ViewClient c{""};
  c.set_auth_client(std::make_unique<Auth>());
  decide = created;
  const ViewUpdate u = update(0, 1);
  sx_assert(sx_throws_as<AssertException>([&] { (void)c.send_view_update(u); }), "an update was accepted although there is no address");
  sx_assert(*made_path == "/home/u/.resim/view_token", "the token is not kept below the home directory");
  sx_assert(ViewClient::determine_token_root("/x").string() == "/x/.resim/view_token", "the token is not kept below the given directory");
  sx_assert(ViewClient::determine_token_root(nullptr).string() == "/scratch/.resim/view_token", "the token is not kept below the test's directory");
  sx_reach("end");
}
