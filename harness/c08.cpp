#include "sx.h"
#include <array>
#include <string>
#include "resim/assert/assert.hh"
#include "resim/utils/uuid.hh"
using namespace resim;
namespace {
std::array<unsigned char, 16> arb(const char *name) {
  std::array<unsigned char, 16> a{};
  sx_bytes(a.data(), 16, name);
  return a;
}
bool same(const std::array<unsigned char, 16> &a, const std::array<unsigned char, 16> &b) {
  unsigned d = 0;
  for (int i = 0; i < 16; i++) d |= a[i] ^ b[i];
  return d == 0;
}
bool zero(const std::array<unsigned char, 16> &a) {
  unsigned d = 0;
  for (int i = 0; i < 16; i++) d |= a[i];
  return d == 0;
}
unsigned hexok(unsigned char c) { return (static_cast<unsigned>(c - '0') <= 9) | (static_cast<unsigned>((c | 32) - 'a') <= 5); }
unsigned hexval(unsigned char c) { return static_cast<unsigned>(c - '0') <= 9 ? c - '0' : (c | 32) - 'a' + 10; }
bool dash(int i) { return i == 8 or i == 13 or i == 18 or i == 23; }
}  // namespace

SX_ENTRY roundtrip() {
  const auto raw = arb("id");
  const UUID u{raw};
  sx_assert(same(u.id(), raw), "raw id not stored");
  const std::string s = u.to_string();
  sx_assert(s.size() == 36, "string form is not 36 characters");
  unsigned ok = 1;
  int k = 0;
  for (int i = 0; i < 36; i++) {
    const unsigned char c = s[i];
    if (dash(i)) {
      ok &= c == '-';
    } else {
      const unsigned nib = k % 2 == 0 ? raw[k / 2] >> 4 : raw[k / 2] & 15;
      ok &= c == (nib < 10 ? '0' + nib : 'a' + nib - 10);
      k++;
    }
  }
  sx_assert(ok, "string form is not canonical lower case");
  const UUID v{s};
  sx_assert(same(v.id(), raw), "parsing the string form gives another id");
  sx_assert(v == u and not(v != u), "round trip is not equal");
  sx_assert(std::hash<UUID>()(u) == std::hash<UUID>()(v), "equal ids hash differently");
  sx_reach("roundtrip");
}
SX_ENTRY equality() {
  const auto ra = arb("a"), rb = arb("b");
  const UUID a{ra}, b{rb};
  const bool eq = same(ra, rb);
  sx_assert((a == b) == eq, "== does not compare all bytes");
  sx_assert((a != b) == not eq, "!= is not the negation of equality");
  sx_assert(a.is_null() == zero(ra), "is_null is not 'all bytes zero'");
  sx_assert(UUID{}.is_null(), "default id is not null");
  sx_assert((UUID{} == a) == zero(ra), "null id equals another id");
  if (eq) {
    sx_reach("equal");
  } else {
    sx_reach("different");
  }
}
// Any string of up to 38 bytes: accepted exactly when it is 8-4-4-4-12 hex digits
// (either case), and then denotes those digits; otherwise rejected.
namespace {
void parse(int len) {
  char buf[40];
  sx_bytes(buf, len, "s");
  const std::string s(buf, len);
  unsigned good = len == 36;
  unsigned char want[16] = {0};
  if (len == 36) {
    int k = 0;
    for (int i = 0; i < 36; i++) {
      if (dash(i)) {
        good &= buf[i] == '-';
      } else {
        good &= hexok(buf[i]);
        want[k / 2] = want[k / 2] * 16 + hexval(buf[i]);
        k++;
      }
    }
  }
  bool threw = false;
  UUID u;
  try {
    u = UUID{s};
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == not good, "accepted an invalid string or rejected a valid one");
  if (not threw) {
    unsigned d = 0;
    for (int i = 0; i < 16; i++) d |= u.id()[i] ^ want[i];
    sx_assert(d == 0, "the parsed id is not the one written");
  }
}
}  // namespace
SX_ENTRY parse36() { parse(36); }
SX_ENTRY parse_other() {
  const int n[] = {0, 1, 32, 35, 37, 38};
  parse(n[sx_choose("len", 6)]);
}
SX_ENTRY generate() {
  const UUID a = UUID::new_uuid(), b = UUID::new_uuid();
  sx_assert(not a.is_null() and not b.is_null(), "a generated id is null");
  sx_assert(a != b and not(a == b), "two generated ids are equal");
  sx_reach("generated");
}
