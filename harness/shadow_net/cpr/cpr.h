// Contract of the HTTP library: a request is handed, complete, to the server of the
// harness, which answers it.
#pragma once
#include <chrono>
#include <cstdint>
#include <initializer_list>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <utility>
namespace cpr {
class StringHolder {
 protected:
  std::string str_;

 public:
  StringHolder() = default;
  StringHolder(std::string s) : str_(std::move(s)) {}
  StringHolder(std::string_view s) : str_(s) {}
  StringHolder(const char *s) : str_(s) {}
  StringHolder(const char *s, std::size_t n) : str_(s, n) {}
  const std::string &str() const { return str_; }
  const char *c_str() const { return str_.c_str(); }
  const char *data() const { return str_.data(); }
  operator std::string() const { return str_; }
  void operator+=(const std::string &s) { str_ += s; }
};
class Url : public StringHolder {
 public:
  using StringHolder::StringHolder;
  Url(std::initializer_list<std::string> l) { for (const auto &s : l) str_ += s; }
};
class Body : public StringHolder {
 public:
  using StringHolder::StringHolder;
  Body(std::initializer_list<std::string> l) { for (const auto &s : l) str_ += s; }
};
class Bearer : public StringHolder {
 public:
  using StringHolder::StringHolder;
  Bearer(std::initializer_list<std::string> l) { for (const auto &s : l) str_ += s; }
  const char *GetToken() const { return c_str(); }
};
struct CaseInsensitiveCompare {
  static char low(char c) { return c >= 'A' and c <= 'Z' ? static_cast<char>(c + 32) : c; }
  bool operator()(const std::string &a, const std::string &b) const {
    for (std::size_t i = 0; i < a.size() and i < b.size(); i++)
      if (low(a[i]) != low(b[i])) return low(a[i]) < low(b[i]);
    return a.size() < b.size();
  }
};
using Header = std::map<std::string, std::string, CaseInsensitiveCompare>;
struct Timeout {
  std::chrono::milliseconds ms;
  Timeout(const std::chrono::milliseconds &d) : ms(d) {}
  Timeout(std::int32_t m) : ms(m) {}
};
struct Error {
  int code = 0;
  std::string message;
  explicit operator bool() const { return code != 0; }
};
struct Response {
  long status_code = 0;
  std::string text;
  Header header;
  Url url;
  double elapsed = 0;
  std::string status_line, reason;
  Error error;
};
struct Request {
  std::string method, url, body, bearer;
  bool has_bearer = false;
  Header header;
};
// the server of the harness
Response sx_serve(const Request &request);
class Session {
  Request r_;

 public:
  void SetOption(const Url &u) { r_.url = u.str(); }
  void SetOption(const Body &b) { r_.body = b.str(); }
  void SetOption(const Bearer &b) { r_.bearer = b.str(), r_.has_bearer = true; }
  void SetOption(const Header &h) { r_.header = h; }
  void SetOption(const Timeout &) {}
  void SetUrl(const Url &u) { SetOption(u); }
  void SetBody(const Body &b) { SetOption(b); }
  void SetBearer(const Bearer &b) { SetOption(b); }
  void SetHeader(const Header &h) { SetOption(h); }
  void UpdateHeader(const Header &h) { for (const auto &[k, v] : h) r_.header[k] = v; }
  Response send(const char *m) { r_.method = m; return sx_serve(r_); }
  Response Post() { return send("POST"); }
  Response Get() { return send("GET"); }
  Response Put() { return send("PUT"); }
  Response Patch() { return send("PATCH"); }
  Response Delete() { return send("DELETE"); }
};
template <typename... Ts> Response sx_send(const char *m, Ts &&...ts) {
  Session s;
  (s.SetOption(std::forward<Ts>(ts)), ...);
  return s.send(m);
}
template <typename... Ts> Response Post(Ts &&...ts) { return sx_send("POST", std::forward<Ts>(ts)...); }
template <typename... Ts> Response Get(Ts &&...ts) { return sx_send("GET", std::forward<Ts>(ts)...); }
template <typename... Ts> Response Put(Ts &&...ts) { return sx_send("PUT", std::forward<Ts>(ts)...); }
template <typename... Ts> Response Patch(Ts &&...ts) { return sx_send("PATCH", std::forward<Ts>(ts)...); }
template <typename... Ts> Response Delete(Ts &&...ts) { return sx_send("DELETE", std::forward<Ts>(ts)...); }
}  // namespace cpr
