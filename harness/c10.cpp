#include "sx.h"
#include <string>
#include <variant>
#include <vector>
#include "resim/assert/assert.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/match.hh"
#include "resim/utils/nullable_reference.hh"
using namespace resim;
namespace {
struct P {
  int a = 0;
  int b = 0;
};
}  // namespace
SX_ENTRY nullable() {
  P x, y;
  x.a = sx_i32("x");
  y.a = sx_i32("y");
  const int w = sx_i32("w");
  NullableReference<P> n;
  sx_assert(not n.has_value() and not static_cast<bool>(n), "a default reference is populated");
  sx_assert(not null_reference<P>.has_value(), "the null reference is populated");
  NullableReference<P> r{x};
  sx_assert(r.has_value() and static_cast<bool>(r), "a populated reference is empty");
  sx_assert(&*r == &x and r.operator->() == &x, "dereferencing gives another object");
  n = sx_bool("assign") ? r : null_reference<P>;
  if (n.has_value()) {
    sx_reach("populated");
    n->b = w;
    sx_assert(x.b == w and (*n).b == w, "writes do not reach the referenced object");
  } else {
    sx_reach("empty");
    sx_assert(sx_throws_as<AssertException>([&] { (void)*n; }), "dereferencing an empty reference does not throw");
    sx_assert(sx_throws_as<AssertException>([&] { (void)n->a; }), "member access through an empty reference does not throw");
  }
  // the const form is as strict
  const NullableReference<const P> c{y};
  sx_assert(c->a == y.a, "const reference reads another object");
}
SX_ENTRY inout() {
  P x;
  x.a = sx_i32("x");
  const int v = sx_i32("v");
  InOut<P> io{x};
  InOut<P> io2 = io;
  sx_assert(&*io == &x and io.operator->() == &x, "InOut refers to another object");
  io2->a = v;
  (*io).b = v;
  sx_assert(x.a == v and x.b == v, "writes through InOut are lost");
  sx_reach("inout");
}
// match calls exactly the branch of the held alternative, once, with the held value.
SX_ENTRY matching() {
  using V = std::variant<int, P, std::string, double>;
  const int k = sx_choose("alt", 4);
  const int v = sx_i32("v");
  V var = k == 0 ? V{v} : k == 1 ? V{P{v, ~v}} : k == 2 ? V{std::string("s")} : V{1.5};
  int calls[4] = {0, 0, 0, 0};
  const int r = match(
      var, [&](const int &i) -> int { calls[0]++; return i; }, [&](const P &p) -> int { calls[1]++; return p.a ^ 1; },
      [&](const std::string &s) -> int { calls[2]++; return static_cast<int>(s.size()); },
      [&](const double &) -> int { calls[3]++; return -5; });
  for (int i = 0; i < 4; i++) sx_assert(calls[i] == (i == k ? 1 : 0), "match called another branch or not once");
  sx_assert(r == (k == 0 ? v : k == 1 ? (v ^ 1) : k == 2 ? 1 : -5), "match returned another result");
  // the branch sees the held object itself, an lvalue is neither copied nor moved from
  sx_assert(match(var, [&](auto &&x) -> bool { return &x == &std::get<std::decay_t<decltype(x)>>(var); }), "the branch does not see the held object");
  const V &cvar = var;
  sx_assert(match(
                cvar, [&](const int &i) -> bool { return &i == &std::get<int>(var); }, [&](const P &p) -> bool { return &p == &std::get<P>(var); },
                [&](const std::string &s) -> bool { return &s == &std::get<std::string>(var); }, [&](const double &d) -> bool { return &d == &std::get<double>(var); }),
            "the branch does not see the held object of a constant variant");
  std::variant<std::vector<int>, int> lv{std::vector<int>(2, v)};
  const int sum = match(
      lv, [](std::vector<int> x) -> int { return x[0] ^ x[1] ^ static_cast<int>(x.size()); }, [](int) -> int { return 7; });
  sx_assert(sum == 2, "a branch by value sees another value");
  sx_assert(lv.index() == 0 and std::get<0>(lv).size() == 2 and std::get<0>(lv)[0] == v, "match moved the value out of an lvalue");
  match(lv, [&](auto &&x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::vector<int>>) x.push_back(~v);
  });
  sx_assert(std::get<0>(lv).size() == 3 and std::get<0>(lv)[2] == ~v, "a write by a branch does not reach the variant");
  // moves the held value out of an rvalue
  std::variant<std::vector<int>, int> mv{std::vector<int>(2, v)};
  const int *p = std::get<0>(mv).data();
  std::vector<int> out = match(
      std::move(mv), [](std::vector<int> &&x) -> std::vector<int> { return std::move(x); },
      [](int) -> std::vector<int> { return {}; });
  sx_assert(out.data() == p and out.size() == 2, "match copied the value of an rvalue");
  // catch-all branch only when nothing better matches
  int generic = 0;
  match(
      var, [&](const int &) {}, [&](const auto &) { generic++; });
  sx_assert(generic == (k == 0 ? 0 : 1), "the catch-all branch was preferred or skipped");
  sx_reach("matched");
}
