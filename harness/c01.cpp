#include "sx.h"
#include "resim/assert/assert.hh"
#include "resim/math/safe_integer_utils.hh"
using namespace resim;

namespace {
using W = __int128;
constexpr W MAXW = INT64_MAX, MINW = INT64_MIN;
template <typename F>
void judge(W exact, F &&f, const char *msg_exact, const char *msg_throw) {
  bool threw = false;
  int64_t r = 0;
  try {
    r = f();
  } catch (const AssertException &) {
    threw = true;
  }
  const bool fits = exact <= MAXW and exact >= MINW;
  if (threw) {
    sx_reach("rejected");
    sx_assert(not fits, msg_throw);
  } else {
    sx_reach("returned");
    sx_assert(fits and static_cast<W>(r) == exact, msg_exact);
  }
}
}  // namespace

SX_ENTRY sum() {
  const int64_t a = sx_i64("a"), b = sx_i64("b");
  judge(static_cast<W>(a) + b, [&] { return math::safe_sum(a, b); }, "safe_sum returned a value other than a+b",
        "safe_sum rejected a representable sum");
}
SX_ENTRY difference() {
  const int64_t a = sx_i64("a"), b = sx_i64("b");
  judge(static_cast<W>(a) - b, [&] { return math::safe_difference(a, b); },
        "safe_difference returned a value other than a-b", "safe_difference rejected a representable difference");
}
SX_ENTRY absolute() {
  const int64_t a = sx_i64("a");
  const W w = a;
  judge(w < 0 ? -w : w, [&] { return math::safe_abs(a); }, "safe_abs returned a value other than |a|",
        "safe_abs rejected a representable magnitude");
}
