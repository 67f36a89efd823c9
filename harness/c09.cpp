#include "sx.h"
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "resim/assert/assert.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"
using namespace resim;

// Statuses: a bad status stays bad, carries file, line and message, and survives copies.
SX_ENTRY status_text() {
  static const int lines[] = {0, 7, 42, 100, 99999, 2147483647};
  static const char *msgs[] = {"", "x", "Oh no!", "50% {0} {}"};
  static const char *files[] = {"f.cc", "resim/a/b.cc"};
  const int l = lines[sx_choose("line", 6)];
  const char *m = msgs[sx_choose("msg", 4)];
  const char *f = files[sx_choose("file", 2)];
  const Status s = Status::make_at_line(f, l, m);
  sx_assert(not s.ok(), "a made status is ok");
  const std::string want = std::string("<") + f + ":" + std::to_string(l) + "> " + m;
  sx_assert(s.what() == want, "text of a bad status is not <file:line> message");
  Status c;
  sx_assert(c.ok() and c.what() == "OKAY", "default status is not okay");
  c = s;
  sx_assert(not c.ok() and c.what() == want, "copying a status changed it");
  c = OKAY_STATUS;
  sx_assert(c.ok() and c.what() == "OKAY", "overwriting with an okay status left an error");
  Status d{s};
  Status e{std::move(d)};
  sx_assert(not e.ok() and e.what() == want, "moving a status changed it");
  sx_reach("text");
}
// Texts of any length.
SX_ENTRY long_text() {
  static const int sizes[] = {127, 255, 499, 1023, 5000};
  const int n = sizes[sx_choose("size", 5)];
  std::string m, f;
  for (int i = 0; i < n; i++) m.push_back(char('!' + i % 90)), f.push_back(char('a' + i % 26));
  m[n - 1] = sx_bool("x") ? 'X' : 'Y';
  const int line = 2147483647;
  const Status s = Status::make_at_line(f.c_str(), line, m.c_str());
  sx_assert(s.what() == "<" + f + ":2147483647> " + m, "text of a bad status is not <file:line> message");
  std::string w;
  try {
    throw AssertException{"a == b", f, line, m};
  } catch (const AssertException &e) {
    w = e.what();
  }
  sx_assert(w.find(m) != std::string::npos, "the message of a failed assertion is lost");
  sx_assert(w.find(f + ":2147483647") != std::string::npos, "the location of a failed assertion is lost");
  sx_assert(w.find("(a == b)") != std::string::npos, "the condition of a failed assertion is lost");
  w.clear();
  try {
    CHECK_STATUS_OK(s);
  } catch (const AssertException &e) {
    w = e.what();
  }
  sx_assert(w.find(s.what()) != std::string::npos, "CHECK_STATUS_OK does not tell what failed");
  sx_reach("text");
}
namespace {
Status step(bool bad, int *count, int line) {
  ++*count;
  return bad ? Status::make_at_line("s", line, "step") : OKAY_STATUS;
}
Status chain(const bool *bad, int n, int *count, bool *end) {
  for (int i = 0; i < n; i++) {
    RETURN_IF_NOT_OK(step(bad[i], count, i + 1));
  }
  *end = true;
  return OKAY_STATUS;
}
StatusValue<int> get(bool bad, int v, int *count, int line) {
  ++*count;
  if (bad) {
    return Status::make_at_line("g", line, "get");
  }
  return v;
}
StatusValue<int> total(const bool *bad, const int *v, int n, int *count) {
  int t = 0;
  for (int i = 0; i < n; i++) {
    t ^= RETURN_OR_ASSIGN(get(bad[i], v[i], count, i + 1));
  }
  return t;
}
StatusValue<std::vector<int>> list(bool bad, int v, int n) {
  if (bad) return Status::make_at_line("l", n, "list");
  return std::vector<int>(n, v);
}
StatusValue<std::vector<int>> lists(const bool *bad, const int *v, int n) {
  std::vector<int> all;
  for (int i = 0; i < n; i++) {
    const std::vector<int> x = RETURN_OR_ASSIGN(list(bad[i], v[i], i + 1));
    all.insert(all.end(), x.begin(), x.end());
  }
  return all;
}
StatusValue<int> last(const StatusValue<std::vector<int>> &l) {
  const std::vector<int> &x = RETURN_OR_ASSIGN(l);  // a constant lvalue is not copied
  sx_assert(&x == &l.value(), "the value of an object is copied");
  return x.back();
}
StatusValue<int *> take(StatusValue<std::unique_ptr<int>> &&p) {
  const std::unique_ptr<int> x = RETURN_OR_ASSIGN(std::move(p));
  return x.get();
}
}  // namespace
// Values that own memory travel through a chain intact.
SX_ENTRY propagate_owning() {
  constexpr int N = 3;
  bool bad[N];
  int v[N];
  int first = N;
  for (int i = 0; i < N; i++) {
    bad[i] = sx_bool("bad");
    v[i] = sx_i32("v");
  }
  for (int i = N - 1; i >= 0; i--)
    if (bad[i]) first = i;
  const StatusValue<std::vector<int>> t = lists(bad, v, N);
  sx_assert(t.ok() == (first == N), "value chain: wrong status");
  const StatusValue<int> b = last(t);
  sx_assert(b.ok() == t.ok(), "value chain: wrong status");
  if (first == N) {
    sx_reach("value");
    const std::vector<int> &a = t.value();
    sx_assert(a.size() == 6, "value chain: wrong size");
    for (int i = 0, k = 0; i < N; i++)
      for (int j = 0; j <= i; j++, k++) sx_assert(a[k] == v[i], "value chain: wrong value");
    sx_assert(b.value() == v[N - 1], "value chain: wrong value");
  } else {
    sx_assert(t.status().what() == "<l:" + std::to_string(first + 1) + "> list", "value chain: another failure was reported");
    sx_assert(b.status().what() == t.status().what(), "value chain: another failure was reported");
  }
  auto owned = std::make_unique<int>(v[0]);
  const int *const raw = owned.get();
  const StatusValue<int *> k = take(bad[0] ? StatusValue<std::unique_ptr<int>>{Status::make_at_line("l", 1, "p")} : StatusValue<std::unique_ptr<int>>{std::move(owned)});
  sx_assert(k.ok() == not bad[0], "value chain: wrong status");
  if (k.ok()) sx_assert(k.value() == raw, "a moved value is copied");
}
// Early return: stops at the first failure, evaluates each operand once, passes on that failure.
SX_ENTRY propagate() {
  constexpr int N = 4;
  bool bad[N];
  int v[N];
  int first = N;
  for (int i = 0; i < N; i++) {
    bad[i] = sx_bool("bad");
    v[i] = sx_i32("v");
  }
  for (int i = N - 1; i >= 0; i--)
    if (bad[i]) first = i;
  int count = 0;
  bool end = false;
  const Status s = chain(bad, N, &count, &end);
  sx_assert(s.ok() == (first == N), "status of a chain is not the conjunction");
  sx_assert(end == (first == N), "code behind a failure ran, or code behind success did not");
  sx_assert(count == (first == N ? N : first + 1), "a step ran twice, was skipped or ran after a failure");
  if (first < N) {
    sx_reach("failed");
    sx_assert(s.what() == "<s:" + std::to_string(first + 1) + "> step", "another failure was reported");
  }
  count = 0;
  const StatusValue<int> t = total(bad, v, N, &count);
  sx_assert(t.ok() == (first == N), "value chain: wrong status");
  sx_assert(count == (first == N ? N : first + 1), "value chain: an operand was evaluated twice or after a failure");
  if (first == N) {
    sx_reach("value");
    int x = 0;
    for (int i = 0; i < N; i++) x ^= v[i];
    sx_assert(t.value() == x, "value chain: wrong value");
    sx_assert(t.status().ok(), "a value has a bad status");
  } else {
    sx_assert(t.status().what() == "<g:" + std::to_string(first + 1) + "> get", "value chain: another failure was reported");
  }
}
// A result is either a value or a bad status; reading the wrong one throws.
SX_ENTRY value_or_status() {
  const int v = sx_i32("v");
  const StatusValue<int> good{v};
  sx_assert(good.ok() and good.status().ok() and good.value() == v, "a value is not returned unchanged");
  const Status st = Status::make_at_line("f", 3, "m");
  const StatusValue<int> bad{st};
  sx_assert(not bad.ok() and not bad.status().ok() and bad.status().what() == st.what(), "a bad status is not kept");
  sx_assert(sx_throws_as<AssertException>([&] { (void)bad.value(); }), "reading the value of a failure does not throw");
  sx_assert(sx_throws_as<AssertException>([&] { (void)StatusValue<int>{st}.value(); }),
            "moving the value out of a failure does not throw");
  sx_assert(sx_throws_as<AssertException>([&] { StatusValue<int> x{OKAY_STATUS}; }), "an okay status without a value was accepted");
  sx_assert(sx_throws_as<AssertException>([&] { StatusValue<int> x{Status{}}; }), "an okay status without a value was accepted");
  const StatusValue<int> none;
  sx_assert(not none.ok(), "an uninitialised result is ok");
  sx_assert(sx_throws_as<AssertException>([&] { (void)none.value(); }), "reading an uninitialised result does not throw");
  // assignment in every direction
  StatusValue<int> x = sx_bool("xgood") ? good : bad;
  const StatusValue<int> y = sx_bool("ygood") ? good : bad;
  x = y;
  sx_assert(x.ok() == y.ok(), "assignment kept the old state");
  if (x.ok()) sx_assert(x.value() == v, "assignment changed the value");
  // references refer to the original object
  int target = 0;
  StatusValue<int &> ref{target};
  std::move(ref).value() = v;
  sx_assert(target == v, "a reference result does not refer to the original");
  // move-only and heap values
  std::vector<int> big(3, v);
  const int *p = big.data();
  StatusValue<std::vector<int>> sv{std::move(big)};
  std::vector<int> out = std::move(sv).value();
  sx_assert(out.size() == 3 and out[2] == v and out.data() == p, "a moved-in value is copied or lost");
  sx_reach("values");
}
SX_ENTRY check_macro() {
  const bool bad = sx_bool("bad");
  const Status s = bad ? Status::make_at_line("f", 3, "m") : OKAY_STATUS;
  sx_assert(sx_throws_as<AssertException>([&] { CHECK_STATUS_OK(s); }) == bad, "CHECK_STATUS_OK throws exactly on bad statuses");
  int evaluated = 0;
  const auto f = [&]() -> Status { return evaluated++, s; };
  std::string w;
  try {
    CHECK_STATUS_OK(f());
  } catch (const AssertException &e) {
    w = e.what();
  }
  sx_assert(w.empty() == not bad, "CHECK_STATUS_OK throws exactly on bad statuses");
  sx_assert(w.empty() or (w.find("f()") != std::string::npos and w.find(s.what()) != std::string::npos), "CHECK_STATUS_OK does not tell what failed");
  sx_assert(evaluated == 1, "CHECK_STATUS_OK does not evaluate its operand exactly once");
  sx_reach("checked");
}
// The operand is judged as it was evaluated, also when it is the status of a temporary which is gone afterwards.
namespace {
struct Lease {
  Status *s;
  ~Lease() { *s = s->ok() ? Status::make_at_line("gone", 1, "gone") : OKAY_STATUS; }
  const Status &status() const { return *s; }
};
Status follow(Status *s, bool *past) {
  RETURN_IF_NOT_OK(Lease{s}.status());
  *past = true;
  return OKAY_STATUS;
}
}  // namespace
SX_ENTRY temporaries() {
  const bool bad = sx_bool("bad");
  const Status given = bad ? Status::make_at_line("f", 3, "m") : OKAY_STATUS;
  Status s = given;
  bool past = false;
  const Status r = follow(&s, &past);
  sx_assert(past == not bad, "RETURN_IF_NOT_OK does not judge the status its operand evaluated to");
  sx_assert(r.ok() == not bad and r.what() == given.what(), "RETURN_IF_NOT_OK does not return the status its operand evaluated to");
  s = given;
  sx_assert(sx_throws_as<AssertException>([&] { CHECK_STATUS_OK(Lease{&s}.status()); }) == bad,
            "CHECK_STATUS_OK does not judge the status its operand evaluated to");
  sx_reach("judged");
}
SX_ENTRY reassert() {
  const bool c = sx_bool("cond");
  bool threw = false;
  const auto located = [](const std::string &w, const std::string &file, int line) {
    const std::string at = file + ":" + std::to_string(line);
    const auto p = w.find(at);
    return p != std::string::npos and (p + at.size() == w.size() or w[p + at.size()] < '0' or w[p + at.size()] > '9');
  };
  int evaluated = 0;
  const int line = __LINE__ + 2;
  try {
    REASSERT((++evaluated, c), "why");
  } catch (const AssertException &e) {
    threw = true;
    const std::string w = e.what();
    sx_assert(w.find("why") != std::string::npos, "the message of a failed assertion is lost");
    sx_assert(w.find("((++evaluated, c))") != std::string::npos, "the condition of a failed assertion is lost");
    sx_assert(located(w, "c09.cpp", line), "the location of a failed assertion is lost");
    const AssertException copy{e};
    sx_assert(std::string(copy.what()) == w, "copying the exception changed its text");
  }
  sx_assert(threw == not c, "an assertion throws exactly when its condition is false");
  sx_assert(evaluated == 1, "an assertion does not evaluate its condition exactly once");
  const int line2 = __LINE__ + 2;
  try {
    REASSERT(c);
  } catch (const AssertException &e) {
    const std::string w = e.what();
    sx_assert(w.find("(c)") != std::string::npos, "the condition of a failed assertion is lost");
    sx_assert(located(w, "c09.cpp", line2), "the location of a failed assertion is lost");
  }
  static const int lines[] = {0, 1, 9, 10, 4711, 99999, 2147483647};
  const int l = lines[sx_choose("line", 7)];
  const std::string w = AssertException{"x < 3", "dir/file.cc", l, "what happened"}.what();
  sx_assert(located(w, "dir/file.cc", l) and w.find("x < 3") != std::string::npos and w.find("what happened") != std::string::npos,
            "an assertion's text lacks location, condition or message");
  sx_assert(sx_throws_as<AssertException>([&] { REASSERT(c); }) == not c, "an assertion without message throws exactly when false");
  sx_reach("reassert");
}
