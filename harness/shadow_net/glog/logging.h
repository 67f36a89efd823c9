// Logging has no effect on the properties: messages are dropped.
#pragma once
#include <cstdlib>
namespace sxlog {
enum Severity { INFO, WARNING, ERROR, FATAL };
struct Null {
  template <typename T> Null &operator<<(const T &) { return *this; }
};
struct Fatal {
  template <typename T> Fatal &operator<<(const T &) { return *this; }
  ~Fatal() { std::abort(); }
};
template <Severity S> auto log() {
  if constexpr (S == FATAL) return Fatal{};
  else return Null{};
}
struct Voidify {
  template <typename T> void operator&(T &&) {}
};
}  // namespace sxlog
#define LOG(s) ::sxlog::log<::sxlog::s>()
#define DLOG(s) LOG(s)
#define VLOG(n) ::sxlog::Null{}
#define LOG_IF(s, c) (!(c)) ? (void)0 : ::sxlog::Voidify{} & LOG(s)
#define CHECK(c) (c) ? (void)0 : ::sxlog::Voidify{} & LOG(FATAL)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_NOTNULL(p) (p)
namespace google { inline void InitGoogleLogging(const char *) {} }
