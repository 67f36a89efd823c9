// Native replay runtime: sx_* inputs are read from the counterexample file named by
// SX_VALUES (lines "name<TAB>value"); a failed assertion prints SX-FAIL and exits 99,
// a violated assumption exits 77.
#include "sx.h"
#include <pthread.h>
#include <ucontext.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
#include <cxxabi.h>
#include <typeinfo>

static std::map<std::string, std::string> &vals() {
  static std::map<std::string, std::string> v = [] {
    std::map<std::string, std::string> m;
    if (const char *f = getenv("SX_VALUES")) {
      std::string all, line;
      if (FILE *in = fopen(f, "r")) {
        for (int c; (c = fgetc(in)) != EOF;) all += static_cast<char>(c);
        fclose(in);
      }
      for (size_t b = 0, e; b < all.size(); b = e + 1) {
        e = all.find('\n', b);
        if (e == std::string::npos) e = all.size();
        line = all.substr(b, e - b);
        auto t = line.find('\t');
        if (t != std::string::npos) m[line.substr(0, t)] = line.substr(t + 1);
      }
    }
    return m;
  }();
  return v;
}
static std::map<std::string, int> &cnt() {
  static std::map<std::string, int> c;
  return c;
}
static const std::string *find(const std::string &n) {
  int k = cnt()[n]++;
  std::string full = k == 0 ? n : n + "#" + std::to_string(k);
  auto it = vals().find(full);
  return it == vals().end() ? nullptr : &it->second;
}
static double dbl(const std::string &n, double dflt) {
  auto *s = find(n);
  if (!s) return dflt;
  return strtod(s->c_str(), nullptr);
}
static long long integer(const std::string &n) {
  auto *s = find(n);
  return s ? strtoll(s->c_str(), nullptr, 10) : 0;
}
extern "C" {
int64_t sx_i64(const char *n) { return integer(n); }
int64_t sx_range(const char *n, int64_t lo, int64_t hi) {
  const int64_t v = integer(n);
  sx_assume(v >= lo and v <= hi);
  return v;
}
int32_t sx_i32(const char *n) { return (int32_t)integer(n); }
int16_t sx_i16(const char *n) { return (int16_t)integer(n); }
uint8_t sx_u8(const char *n) { return (uint8_t)integer(n); }
bool sx_bool(const char *n) { return integer(n) & 1; }
void sx_bytes(void *p, long n, const char *name) {
  for (long i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)integer(std::string(name) + "[" + std::to_string(i) + "]");
}
double sx_real(const char *n, double lo, double hi) {
  double d = dbl(n, lo <= 0 && hi >= 0 ? 0 : lo);
  return d < lo ? lo : d > hi ? hi : d;
}
double sx_f64(const char *n) { return dbl(n, 0); }
double sx_exact(int64_t v) { return (double)v; }
int sx_choose(const char *n, int k) {
  int v = (int)integer(n);
  return v < 0 ? 0 : v >= k ? k - 1 : v;
}
void sx_unit3(const char *n, double *o) {
  std::string s = n;
  o[0] = dbl(s + ".x", 1), o[1] = dbl(s + ".y", 0), o[2] = dbl(s + ".z", 0);
  double l = std::sqrt(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]);
  if (l < 1e-3) o[0] = 1, o[1] = o[2] = 0, l = 1;
  for (int i = 0; i < 3; i++) o[i] /= l;
}
double sx_trig(const char *n, double lo, double hi, double *s, double *c) {
  double h = sx_real(n, lo, hi);
  *s = std::sin(h), *c = std::cos(h);
  return h;
}
void sx_trig_of(double a, double *s, double *c) { *s = std::sin(a), *c = std::cos(a); }
void sx_assume(bool b) {
  if (!b) {
    fprintf(stderr, "SX-ASSUME violated\n");
    fflush(stderr);
    _exit(77);
  }
}
void sx_assert(bool b, const char *msg) {
  if (!b) {
    fprintf(stderr, "SX-FAIL %s\n", msg);
    fflush(stderr);
    _exit(99);
  }
}
void sx_near(double a, double b, double eps, const char *msg) {
  // replay tolerance: the stated one, widened by floating point rounding
  double tol = eps * 1.0 + 1e-9 * (1 + std::fabs(a) + std::fabs(b)) * 0.001;
  if (!(std::fabs(a - b) <= tol)) {
    fprintf(stderr, "SX-FAIL %s: %.17g vs %.17g (|diff| %.3g > %.3g)\n", msg, a, b, std::fabs(a - b), tol);
    fflush(stderr);
    _exit(99);
  }
}
void sx_reach(const char *l) { fprintf(stderr, "SX-REACH %s\n", l); }
int sx_engine() { return 0; }
int sx_tier() {
  const char *t = getenv("SX_TIER");
  return t && !strcmp(t, "thorough");
}
void sx_dump(const char *l, double v) { fprintf(stderr, "SX-DUMP %s %.17g\n", l, v); }
}

#ifdef SX_TSAN
#include <thread>
static std::vector<std::thread *> real_threads{nullptr};
extern "C" {
int sx_thread(void (*fn)(void *), void *arg) {
  real_threads.push_back(new std::thread(fn, arg));
  return (int)real_threads.size() - 1;
}
void sx_join(int t) { real_threads[t]->join(); }
void sx_yield() { std::this_thread::yield(); }
void sx_norace(int) {}
}
#else
// ---- deterministic replay of a schedule: threads are coroutines which switch at
// the same points as in the encoding (mutex acquisition, sx_yield, thread end).
namespace {
struct Co {
  ucontext_t ctx;
  std::vector<char> stack;
  void (*fn)(void *) = nullptr;
  void *arg = nullptr;
  bool done = false;
  int waitJoin = -1;
  pthread_mutex_t *waitMutex = nullptr;
  __cxxabiv1::__cxa_eh_globals *dummy = nullptr;
  char eh[32] = {0};
};
std::vector<Co *> coros;
int curCo = 0;
std::map<pthread_mutex_t *, int> owner;
int schedN = 0;
bool active = false;
void ensure() {
  if (coros.empty()) coros.push_back(new Co);
}
bool ready(int i) {
  Co *c = coros[i];
  if (c->done) return false;
  if (c->waitJoin >= 0 && !coros[c->waitJoin]->done) return false;
  if (c->waitMutex && owner.count(c->waitMutex)) return false;
  return true;
}
void switchTo(int t) {
  if (t == curCo) return;
  int o = curCo;
  memcpy(coros[o]->eh, __cxxabiv1::__cxa_get_globals(), 16);
  curCo = t;
  memcpy(__cxxabiv1::__cxa_get_globals(), coros[t]->eh, 16);
  swapcontext(&coros[o]->ctx, &coros[t]->ctx);
}
void pick() {
  std::vector<int> r;
  for (size_t i = 0; i < coros.size(); i++)
    if (ready((int)i)) r.push_back((int)i);
  if (r.empty()) {
    fprintf(stderr, "SX-FAIL deadlock\n");
    fflush(stderr);
    _exit(99);
  }
  int t = r[0];
  if (r.size() > 1) {
    auto it = vals().find("sched#" + std::to_string(schedN++));
    int want = it == vals().end() ? 0 : atoi(it->second.c_str());
    bool ok = false;
    for (int x : r)
      if (x == want) ok = true;
    t = ok ? want : r[0];
  }
  switchTo(t);
}
void tramp(unsigned lo, unsigned hi) {
  Co *c = (Co *)(((uint64_t)hi << 32) | lo);
  c->fn(c->arg);
  c->done = true;
  pick();
  abort();
}
}  // namespace
extern "C" {
int sx_thread(void (*fn)(void *), void *arg) {
  ensure();
  active = true;
  Co *c = new Co;
  c->stack.resize(1 << 20);
  c->fn = fn;
  c->arg = arg;
  getcontext(&c->ctx);
  c->ctx.uc_stack.ss_sp = c->stack.data();
  c->ctx.uc_stack.ss_size = c->stack.size();
  makecontext(&c->ctx, (void (*)())tramp, 2, (unsigned)(uint64_t)c, (unsigned)((uint64_t)c >> 32));
  coros.push_back(c);
  return (int)coros.size() - 1;
}
void sx_join(int t) {
  while (!coros[t]->done) {
    coros[curCo]->waitJoin = t;
    pick();
  }
  coros[curCo]->waitJoin = -1;
}
void sx_yield() {
  if (active) pick();
}
void sx_norace(int) {}
#ifdef SX_COOP_MUTEX
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active) {
    return 0;
  }
  pick();
  while (owner.count(m)) {
    coros[curCo]->waitMutex = m;
    pick();
  }
  coros[curCo]->waitMutex = nullptr;
  owner[m] = curCo;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!active) return 0;
  owner.erase(m);
  return 0;
}
#endif
}
#endif

extern "C" void SX_MAIN();
int main() {
  try {
    SX_MAIN();
  } catch (const std::exception &e) {
    fprintf(stderr, "SX-FAIL uncaught exception: %s\n", e.what());
    fflush(stderr);
    _exit(99);
  } catch (...) {
    fprintf(stderr, "SX-FAIL uncaught exception\n");
    fflush(stderr);
    _exit(99);
  }
  fprintf(stderr, "SX-OK\n");
  fflush(stderr);
  _exit(0);
}
