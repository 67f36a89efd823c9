// Runtime support linked into every encoding: replaces message formatting with an
// empty body and supplies library routines that exist only in binary form.
#include <cstddef>
#include <cstdint>
#include <climits>
#include <cmath>
#include <cstring>
#include <new>
#include <string_view>
#include <unordered_map>
#include <list>
#include <map>
#include <fmt/core.h>
#include "resim/assert/assert.hh"

namespace resim {
#ifndef SX_REAL_ASSERT
AssertException::AssertException(std::string_view, std::string_view, int, std::string_view message) : what_{message} {}
const char *AssertException::what() const noexcept { return what_.c_str(); }
#endif
}  // namespace resim

extern "C" {
__attribute__((noinline)) size_t strlen(const char *s) noexcept {
  size_t n = 0;
  while (s[n]) n++;
  return n;
}
__attribute__((noinline)) int strcmp(const char *a, const char *b) noexcept {
  while (*a && *a == *b) a++, b++;
  return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
#define RT __attribute__((noinline))
RT int strncmp(const char *a, const char *b, size_t n) noexcept {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i] || !a[i]) return static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]);
  }
  return 0;
}
RT char *sx_strchr(const char *s, int c) noexcept __asm__("strchr");
RT char *sx_strchr(const char *s, int c) noexcept {
  for (;; s++) {
    if (*s == static_cast<char>(c)) return const_cast<char *>(s);
    if (!*s) return nullptr;
  }
}
RT char *sx_strrchr(const char *s, int c) noexcept __asm__("strrchr");
RT char *sx_strrchr(const char *s, int c) noexcept {
  const char *r = nullptr;
  for (;; s++) {
    if (*s == static_cast<char>(c)) r = s;
    if (!*s) return const_cast<char *>(r);
  }
}
RT int isdigit(int c) noexcept { return static_cast<unsigned>(c - '0') <= 9; }
RT int isupper(int c) noexcept { return static_cast<unsigned>(c - 'A') <= 25; }
RT int islower(int c) noexcept { return static_cast<unsigned>(c - 'a') <= 25; }
RT int isalpha(int c) noexcept { return static_cast<unsigned>((c | 32) - 'a') <= 25; }
RT int isalnum(int c) noexcept { return isalpha(c) | isdigit(c); }
RT int isxdigit(int c) noexcept { return isdigit(c) | (static_cast<unsigned>((c | 32) - 'a') <= 5); }
RT int isspace(int c) noexcept { return (c == ' ') | (static_cast<unsigned>(c - 9) <= 4); }
RT int isprint(int c) noexcept { return static_cast<unsigned>(c - 32) < 95; }
RT int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
RT int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
RT long lround(double x) noexcept { return static_cast<long>(__builtin_round(x)); }
RT long long llround(double x) noexcept { return static_cast<long long>(__builtin_round(x)); }
RT long lrint(double x) noexcept { return static_cast<long>(__builtin_rint(x)); }
RT long long llrint(double x) noexcept { return static_cast<long long>(__builtin_rint(x)); }
RT double fdim(double a, double b) noexcept { return a > b ? a - b : a <= b ? 0. : a + b; }
RT double modf(double x, double *ip) noexcept {
  *ip = __builtin_trunc(x);
  return x - *ip;
}
__attribute__((noinline)) void *sx_memchr(const void *p, int c, size_t n) noexcept __asm__("memchr");
__attribute__((noinline)) void *sx_memchr(const void *p, int c, size_t n) noexcept {
  const unsigned char *s = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++)
    if (s[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(s + i);
  return nullptr;
}
}
RT void *operator new(size_t n, const std::nothrow_t &) noexcept { return ::operator new(n); }
RT void *operator new[](size_t n, const std::nothrow_t &) noexcept { return ::operator new[](n); }
RT void operator delete(void *p, const std::nothrow_t &) noexcept { ::operator delete(p); }
RT void operator delete[](void *p, const std::nothrow_t &) noexcept { ::operator delete[](p); }
namespace std {
// any growth of the table is legal; powers of two keep the bucket of a hash cheap
namespace __detail {
RT size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t b = 2;
  while (b < n) b *= 2;
  _M_next_resize = b;
  return b;
}
RT pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins <= bkt && _M_next_resize != 0) return {false, 0};
  return {true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt)};
}
}  // namespace __detail
// any function of the bytes is a legal hash
__attribute__((noinline)) size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  const unsigned char *p = static_cast<const unsigned char *>(ptr);
  size_t h = seed ^ len;
  for (size_t i = 0; i < len; i++) h = ((h << 5) | (h >> 59)) ^ p[i];
  return h;
}
}  // namespace std

// Ordered containers: the library's search tree without its balancing, which is not observable.
namespace std {
using B = _Rb_tree_node_base;
__attribute__((noinline)) B *_Rb_tree_increment(B *x) noexcept {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  B *y = x->_M_parent;
  while (x == y->_M_right) x = y, y = y->_M_parent;
  return x->_M_right != y ? y : x;
}
__attribute__((noinline)) const B *_Rb_tree_increment(const B *x) noexcept { return _Rb_tree_increment(const_cast<B *>(x)); }
__attribute__((noinline)) B *_Rb_tree_decrement(B *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  B *y = x->_M_parent;
  while (x == y->_M_left) x = y, y = y->_M_parent;
  return y;
}
__attribute__((noinline)) const B *_Rb_tree_decrement(const B *x) noexcept { return _Rb_tree_decrement(const_cast<B *>(x)); }
__attribute__((noinline)) void _Rb_tree_insert_and_rebalance(const bool left, B *x, B *p, B &h) noexcept {
  x->_M_parent = p, x->_M_left = x->_M_right = nullptr, x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) h._M_parent = x, h._M_right = x;
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
__attribute__((noinline)) B *_Rb_tree_rebalance_for_erase(B *const z, B &h) noexcept {
  B *const next = _Rb_tree_increment(z), *const prev = z == h._M_left ? nullptr : _Rb_tree_decrement(z);
  auto replace = [&](B *o, B *n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  const bool first = z == h._M_left, last = z == h._M_right;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    B *const y = next;  // leftmost of the right subtree
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right, y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left, y->_M_left->_M_parent = y;
  }
  if (first) h._M_left = next;
  if (last) h._M_right = prev ? prev : &h;
  if (!h._M_parent) h._M_left = h._M_right = &h;
  return z;
}
namespace __detail {
__attribute__((noinline)) void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
  _M_next = p, _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this, p->_M_prev = this;
}
__attribute__((noinline)) void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next, _M_next->_M_prev = _M_prev; }
__attribute__((noinline)) void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this, f->_M_prev->_M_next = l, _M_prev->_M_next = f;
  _List_node_base *const t = _M_prev;
  _M_prev = l->_M_prev, l->_M_prev = f->_M_prev, f->_M_prev = t;
}
}  // namespace __detail
}  // namespace std
