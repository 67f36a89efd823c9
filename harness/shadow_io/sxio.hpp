// Streams of characters, without formatting state: output is kept, input is consumed.
#pragma once
#include <cstdint>
#include <ios>
#include <iterator>
#include <string>
#include <memory>
#include <algorithm>
#include <chrono>
#include <thread>
#include <map>
#include <string_view>
#include <type_traits>
#include "../shadow_net/sxfs.hpp"
namespace sxio {
class Buf {
 public:
  std::string data;
  std::size_t pos = 0;
};
struct Out {
  virtual ~Out() = default;
  bool ok = true;
  virtual void write_(const char *, std::size_t) {}
  explicit operator bool() const { return ok; }
  bool operator!() const { return not ok; }
  bool good() const { return ok; }
  bool fail() const { return not ok; }
  bool bad() const { return not ok; }
  Out &write(const char *s, std::streamsize n) { write_(s, n); return *this; }
  Out &put(char c) { write_(&c, 1); return *this; }
  Out &flush() { return *this; }
  Out &operator<<(Out &(*f)(Out &)) { return f(*this); }
  Out &operator<<(Buf *b) {
    if (b->pos >= b->data.size()) ok = false;  // as the standard says: nothing inserted
    write_(b->data.data() + b->pos, b->data.size() - b->pos);
    b->pos = b->data.size();
    return *this;
  }
  Out &operator<<(char c) { return put(c); }
  Out &operator<<(const char *s) { write_(s, std::string_view(s).size()); return *this; }
  Out &operator<<(std::string_view s) { write_(s.data(), s.size()); return *this; }
  Out &operator<<(const std::string &s) { write_(s.data(), s.size()); return *this; }
  template <typename T, std::enable_if_t<std::is_integral_v<T> and not std::is_same_v<T, char>, int> = 0> Out &operator<<(T x) { return *this << std::to_string(x); }
};
struct In {
  virtual ~In() = default;
  Buf buf;
  bool ok = true, end = false;
  explicit operator bool() const { return ok; }
  bool operator!() const { return not ok; }
  bool good() const { return ok and not end; }
  bool fail() const { return not ok; }
  bool bad() const { return false; }
  bool eof() const { return end; }
  Buf *rdbuf() { return &buf; }
  int get() {
    if (buf.pos >= buf.data.size()) {
      ok = false, end = true;
      return -1;
    }
    return static_cast<unsigned char>(buf.data[buf.pos++]);
  }
  In &get(char &c) {
    const int x = get();
    if (x >= 0) c = static_cast<char>(x);
    return *this;
  }
  In &read(char *p, std::streamsize n) {
    for (std::streamsize i = 0; i < n and ok; i++) get(p[i]);
    return *this;
  }
  static bool space(char c) { return c == ' ' or (c >= 9 and c <= 13); }
  In &operator>>(std::string &s) {
    s.clear();
    while (buf.pos < buf.data.size() and space(buf.data[buf.pos])) buf.pos++;
    while (buf.pos < buf.data.size() and not space(buf.data[buf.pos])) s.push_back(buf.data[buf.pos++]);
    if (buf.pos >= buf.data.size()) end = true;
    if (s.empty()) ok = false;
    return *this;
  }
};
struct FileOut : Out {
  std::string path;
  bool open_ = false;
  void open(const std::string &p, std::ios_base::openmode m = std::ios_base::out) {
    path = p;
    open_ = sxfs::create(p, (m & std::ios_base::app) != 0) != nullptr;
    ok = open_;
  }
  FileOut() = default;
  explicit FileOut(const std::string &p, std::ios_base::openmode m = std::ios_base::out) { open(p, m); }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
  void write_(const char *s, std::size_t n) override {
    auto *f = open_ ? sxfs::find(path) : nullptr;
    if (f == nullptr) ok = false;
    else f->content.append(s, n);
  }
};
struct FileIn : In {
  bool open_ = false;
  void open(const std::string &p, std::ios_base::openmode = std::ios_base::in) {
    auto *f = sxfs::find(p);
    open_ = ok = f != nullptr and not f->dir;
    if (open_) buf = {f->content, 0};
  }
  FileIn() = default;
  explicit FileIn(const std::string &p, std::ios_base::openmode m = std::ios_base::in) { open(p, m); }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
};
struct StrOut : Out {
  std::string s_;
  StrOut() = default;
  explicit StrOut(std::string s) : s_(std::move(s)) {}
  void write_(const char *s, std::size_t n) override { s_.append(s, n); }
  std::string str() const { return s_; }
  void str(std::string s) { s_ = std::move(s); }
};
struct StrIn : In {
  StrIn() = default;
  explicit StrIn(std::string s) { buf.data = std::move(s); }
  std::string str() const { return buf.data; }
  void str(std::string s) { buf = {std::move(s), 0}; }
};
struct StrBoth : StrIn {
  using StrIn::StrIn;
  template <typename T> StrBoth &operator<<(const T &x) {
    StrOut o;
    o << x;
    buf.data += o.s_;
    return *this;
  }
  StrBoth &operator<<(Buf *b) {
    StrOut o;
    o << b;
    buf.data += o.s_;
    return *this;
  }
};
struct CharIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = char;
  using difference_type = std::ptrdiff_t;
  using pointer = char *;
  using reference = char;
  Buf *b = nullptr;
  CharIt() = default;
  CharIt(In &i) : b(i.rdbuf()) {}
  bool at_end() const { return b == nullptr or b->pos >= b->data.size(); }
  char operator*() const { return b->data[b->pos]; }
  CharIt &operator++() { b->pos++; return *this; }
  CharIt operator++(int) { CharIt r = *this; b->pos++; return r; }
  friend bool operator==(const CharIt &x, const CharIt &y) { return x.at_end() == y.at_end(); }
};
}  // namespace sxio
// The standard's names, renamed: replays link the real library, whose symbols must stay its own.
namespace std {
using sx_ofstream = sxio::FileOut;
using sx_ifstream = sxio::FileIn;
using sx_ostringstream = sxio::StrOut;
using sx_istringstream = sxio::StrIn;
using sx_stringstream = sxio::StrBoth;
template <typename T> using sx_istreambuf_iterator = sxio::CharIt;
inline sxio::Out sx_cout, sx_cerr, sx_clog;
inline sxio::Out &endl(sxio::Out &o) { return o.put('\n'); }
inline sxio::Out &flush(sxio::Out &o) { return o; }
inline sxio::In &getline(sxio::In &i, std::string &s, char d = '\n') {
  s.clear();
  bool any = false;
  for (;;) {
    if (i.buf.pos >= i.buf.data.size()) {
      i.end = true;
      if (not any) i.ok = false;
      return i;
    }
    const char c = i.buf.data[i.buf.pos++];
    any = true;
    if (c == d) return i;
    s.push_back(c);
  }
}
}  // namespace std

#define ofstream sx_ofstream
#define ifstream sx_ifstream
#define ostringstream sx_ostringstream
#define istringstream sx_istringstream
#define stringstream sx_stringstream
#define istreambuf_iterator sx_istreambuf_iterator
#define cout sx_cout
#define cerr sx_cerr
#define clog sx_clog
