#include <time.h>
#include <chrono>
#include <string>
#include <vector>
#include "cpr/cpr.h"
#include "google/protobuf/util/json_util.h"
#include "resim/assert/assert.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/auth/proto/auth_messages.pb.h"
#include "sx.h"
using namespace resim;
using auth::DeviceCodeClient;
namespace ap = resim::auth::proto;
namespace {
// ---- the clock only moves while waiting and while a request is under way
int64_t now_ns = 1000000000000;
constexpr int64_t S = 1000000000;
int64_t slept = 0;
// ---- the server
struct Answer {
  enum { PENDING, GRANT, EMPTY, GARBAGE } what = GRANT;
  std::string token;
};
int device_requests = 0, polls = 0, expect_client = 0;
int64_t device_status = 200, poll_status = 200;
bool device_garbage = false;
int32_t expires = 600, interval = 1;
int64_t expiry = 0, last_poll = 0;
std::string code;
Answer (*answer)(int poll) = nullptr;
const std::string server = "https://auth";
template <typename M> std::string json(const M &m) {
  std::string s;
  google::protobuf::util::MessageToJsonString(m, &s);
  return s;
}
void common(const cpr::Request &r) {
  sx_assert(r.method == "POST", "the server is not asked by POST");
  const auto t = r.header.find("content-type");
  sx_assert(t != r.header.end() and t->second == "application/json", "the request is not marked as JSON");
}
cpr::Response serve_device(const cpr::Request &r) {
  common(r);
  device_requests++;
  ap::DeviceCodeRequest q;
  const bool ok = google::protobuf::util::JsonStringToMessage(r.body, &q).ok();
  sx_assert(ok and q.client_id() == "id" and q.scope() == "view:all" and q.audience() == "api", "the device code request does not carry the configured client, scope and audience");
  code = std::string{"code"} + static_cast<char>('0' + device_requests);
  ap::DeviceCodeResponse a;
  a.set_device_code(code);
  a.set_user_code("user");
  a.set_verification_uri_complete("https://auth/verify");
  a.set_expires_in(expires);
  a.set_interval(interval);
  now_ns += S;
  expiry = now_ns + expires * S;
  last_poll = -1;
  cpr::Response p;
  p.status_code = device_status;
  p.text = device_garbage ? std::string{"<html>"} : json(a);
  return p;
}
cpr::Response serve_poll(const cpr::Request &r) {
  common(r);
  sx_assert(device_requests > 0 and device_status == 200, "the server is polled without a device code");
  ap::PollingRequest q;
  const bool ok = google::protobuf::util::JsonStringToMessage(r.body, &q).ok();
  sx_assert(ok and q.grant_type() == "urn:ietf:params:oauth:grant-type:device_code" and q.device_code() == code and q.client_id() == "id",
            "a poll does not carry the grant type, device code and client");
  sx_assert(now_ns < expiry, "the server is polled after the device code expired");
  sx_assert(last_poll < 0 or now_ns - last_poll >= interval * S, "the server is polled more often than it asked for");
  last_poll = now_ns;
  now_ns += S;
  ap::PollingResponse a;
  const Answer w = answer(polls++);
  cpr::Response p;
  p.status_code = poll_status;
  if (w.what == Answer::PENDING) {
    a.set_error("authorization_pending");
    a.set_error_description("not yet");
    p.status_code = 403;
  }
  if (w.what == Answer::GRANT) {
    a.set_access_token(w.token);
    a.set_expires_in(3600);
    a.set_token_type("Bearer");
  }
  p.text = w.what == Answer::GARBAGE ? std::string{"oops"} : json(a);
  return p;
}
const std::string home = "/home/u";
const std::string token_path = "/home/u/.resim/view_token";
DeviceCodeClient::Config config() { return {.server = server, .client_id = "id", .scope = "view:all", .audience = "api", .token_path = token_path}; }
// What else is on the disk
void disk(bool with_settings = false) {
  sxfs::mkdirs(home);
  sxfs::nodes().push_back({home + "/thesis", "years of work", false});
  if (with_settings) {
    sxfs::mkdirs(home + "/.resim");
    sxfs::nodes().push_back({home + "/.resim/settings", "mine", false});
  }
}
void others(bool with_settings = false) {
  const auto *n = sxfs::find(home + "/thesis");
  sx_assert(n != nullptr and n->content == "years of work" and sxfs::is_dir(home), "other files were touched");
  if (with_settings) {
    const auto *s = sxfs::find(home + "/.resim/settings");
    sx_assert(s != nullptr and s->content == "mine", "other files were touched");
  }
  for (const auto &f : sxfs::nodes())
    sx_assert(f.dir ? f.path == "/home" or f.path == home or f.path == home + "/.resim" : f.path == home + "/thesis" or f.path == home + "/.resim/settings" or f.path == token_path, "other files were created");
}
const std::string *stored() {
  const auto *n = sxfs::find(token_path);
  return n == nullptr ? nullptr : &n->content;
}
}  // namespace
namespace cpr {
Response sx_serve(const Request &r) {
  if (r.url == server + "/oauth/device/code") return serve_device(r);
  if (r.url == server + "/oauth/token") return serve_poll(r);
  sx_assert(false, "a request goes somewhere else");
  return {};
}
}  // namespace cpr
namespace std::chrono {
inline namespace _V2 {
__attribute__((noinline)) steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{now_ns}}; }
__attribute__((noinline)) system_clock::time_point system_clock::now() noexcept { return time_point{duration{now_ns}}; }
}
}
extern "C" __attribute__((noinline)) int nanosleep(const timespec *t, timespec *) {
  now_ns += t->tv_sec * S + t->tv_nsec;
  slept++;
  return 0;
}
namespace {
const char *const steps[8] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"};
Answer pick(int poll) {
  const char *const n = steps[poll < 8 ? poll : 7];
  Answer a;
  const int k = sx_choose(n, 4);
  a.what = k == 0 ? Answer::PENDING : k == 1 ? Answer::GRANT : k == 2 ? Answer::EMPTY : Answer::GARBAGE;
  a.token = "t0ken";
  return a;
}
std::string tokens[4] = {"first", "second", "third", "fourth"};
Answer next(int poll) { return {Answer::GRANT, tokens[poll]}; }
}  // namespace
// Polls until the user has authenticated, no longer than the code is valid and no faster than
// asked; whatever goes wrong is reported and leaves no token behind.
SX_ENTRY polling() {
  disk();
  expires = int32_t(sx_range("expires", -1, sx_tier() ? 12 : 7));
  interval = int32_t(sx_range("interval", 0, sx_tier() ? 6 : 4));
  static Answer *seen = nullptr;
  static Answer keep;
  answer = [](int poll) { keep = pick(poll); seen = &keep; return keep; };
  DeviceCodeClient c{config()};
  std::string got;
  const bool threw = sx_throws_as<AssertException>([&] { got = c.get_jwt(); });
  sx_assert(device_requests == 1, "more than one device code was requested");
  if (threw) {
    const bool refused = seen != nullptr and (seen->what == Answer::EMPTY or seen->what == Answer::GARBAGE);
    sx_assert(refused or now_ns >= expiry, "gave up although the code was still valid");
    sx_assert(stored() == nullptr, "a token was stored although none was granted");
    others();
    // nothing is left behind: the next attempt starts over
    answer = next;
    polls = 0, expires = 600;
    sx_assert(c.get_jwt() == "first" and device_requests == 2, "no fresh start after a failure");
    sx_reach("failed");
    return;
  }
  sx_assert(seen != nullptr and seen->what == Answer::GRANT and got == "t0ken", "a token was returned that was not granted");
  sx_assert(stored() != nullptr and *stored() == "t0ken", "the granted token was not stored");
  others();
  sx_reach("granted");
}
// A device code that was not given out is not used.
SX_ENTRY refused() {
  disk();
  device_status = sx_range("status", -1, 599);
  device_garbage = sx_bool("garbage");
  answer = next;
  DeviceCodeClient c{config()};
  std::string got;
  const bool threw = sx_throws_as<AssertException>([&] { got = c.get_jwt(); });
  sx_assert(threw == (device_status != 200 or device_garbage), "a refused device code was used, or a good one refused");
  if (threw) sx_assert(polls == 0 and stored() == nullptr, "a refused device code was polled for, or a token stored");
  sx_reach("end");
}
// The token is returned and kept exactly as the server granted it, and asked for only once.
SX_ENTRY exact() {
  disk();
  const int n = 1 + sx_choose("n", sx_tier() ? 4 : 3);
  std::string t(n, ' ');
  sx_bytes(t.data(), n, "token");
  tokens[0] = t;
  answer = next;
  DeviceCodeClient a{config()};
  sx_assert(a.get_jwt() == t, "the token returned is not the one granted");
  sx_assert(a.get_jwt() == t, "the token returned later is not the one granted");
  DeviceCodeClient b{config()};
  sx_assert(b.get_jwt() == t, "the token kept on disk is not the one granted");
  sx_assert(device_requests == 1 and polls == 1, "the token was asked for again although it was known");
  others();
  sx_reach("end");
}
// A token already on disk is used as it is.
SX_ENTRY loaded() {
  disk();
  const int n = 1 + sx_choose("n", sx_tier() ? 4 : 3);
  std::string t(n, ' ');
  sx_bytes(t.data(), n, "token");
  sxfs::mkdirs(home + "/.resim");
  sxfs::nodes().push_back({token_path, t, false});
  answer = next;
  DeviceCodeClient a{config()};
  sx_assert(a.get_jwt() == t and a.get_jwt() == t, "the token on disk is not returned as it is");
  sx_assert(device_requests == 0 and polls == 0, "the server was asked although there is a token on disk");
  sx_assert(stored() != nullptr and *stored() == t, "the token on disk was changed");
  a.refresh();
  sx_assert(stored() == nullptr, "the stale token is still on disk after refreshing");
  sx_assert(a.get_jwt() == "first" and *stored() == "first", "no new token after refreshing");
  others();
  sx_reach("end");
}
// Any history of two clients which share a token file: the token returned is the one in memory,
// else the one on disk, else a new one; refreshing forgets both.
SX_ENTRY history() {
  const bool with_settings = sx_bool("settings");
  disk(with_settings);
  answer = next;
  DeviceCodeClient c[2] = {DeviceCodeClient{config()}, DeviceCodeClient{config()}};
  std::string mem[2];
  std::string file;
  bool have = false;
  int fetched = 0;
  const int n = sx_tier() ? 6 : 4;
  for (int i = 0; i < n; i++) {
    const int op = sx_choose(steps[i], 4), k = op & 1;
    if (op < 2) {
      if (mem[k].empty()) {
        if (not have) {
          if (fetched == 4) return;
          file = tokens[fetched++], have = true;
        }
        mem[k] = file;
      }
      sx_assert(c[k].get_jwt() == mem[k], "a wrong token is returned");
    } else {
      c[k].refresh();
      mem[k].clear();
      have = false;
    }
    sx_assert(polls == fetched and device_requests == fetched, "the server is asked too often or not at all");
    sx_assert((stored() != nullptr) == have and (not have or *stored() == file), "the token file is wrong");
  }
  others(with_settings);
  sx_reach("end");
}
// Tokens are long in practice, and may be granted after many polls.
namespace {
int patience = 0;
std::string long_token;
Answer late(int poll) { return poll < patience ? Answer{Answer::PENDING, ""} : Answer{Answer::GRANT, long_token}; }
}  // namespace
SX_ENTRY lengthy() {
  disk();
  const int sizes[4] = {255, 256, 1025, 5000};
  const int n = sizes[sx_choose("n", 4)];
  long_token.clear();
  for (int i = 0; i < n; i++) long_token.push_back(static_cast<char>('!' + (i * 31 + i / 64) % 90));
  char b[2];
  sx_bytes(b, 2, "token");
  long_token[n / 2] = b[0];
  long_token[n - 1] = b[1];
  patience = 100;
  expires = 6000;
  interval = 40;
  answer = late;
  DeviceCodeClient a{config()};
  sx_assert(a.get_jwt() == long_token, "the token returned is not the one granted");
  sx_assert(a.get_jwt() == long_token, "the token returned later is not the one granted");
  DeviceCodeClient c{config()};
  sx_assert(c.get_jwt() == long_token, "the token kept on disk is not the one granted");
  sx_assert(device_requests == 1 and polls == 101, "the token was asked for again although it was known");
  others();
  sx_reach("end");
}
