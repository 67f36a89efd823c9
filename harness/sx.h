// Harness interface.  The same harness source is (a) compiled to LLVM bitcode and
// executed symbolically by engine/symx, where sx_* inputs are symbolic, and (b)
// compiled natively together with native.cpp to replay a solver counterexample.
#pragma once
#include <cstdint>
#include <exception>
#include <stdexcept>
extern "C" {
int64_t sx_i64(const char *name);
int64_t sx_range(const char *name, int64_t lo, int64_t hi);
int32_t sx_i32(const char *name);
int16_t sx_i16(const char *name);
uint8_t sx_u8(const char *name);
bool sx_bool(const char *name);
void sx_bytes(void *p, long n, const char *name);
double sx_real(const char *name, double lo, double hi);
double sx_f64(const char *name);
double sx_exact(int64_t v);
int sx_choose(const char *name, int n);
void sx_unit3(const char *name, double *out);
double sx_trig(const char *name, double lo, double hi, double *s, double *c);
void sx_trig_of(double angle, double *s, double *c);
void sx_assume(bool b);
void sx_assert(bool b, const char *msg);
void sx_near(double a, double b, double eps, const char *msg);
void sx_reach(const char *label);
int sx_engine();
int sx_tier();
void sx_dump(const char *label, double v);
int sx_thread(void (*fn)(void *), void *arg);
void sx_join(int tid);
void sx_yield();
void sx_norace(int on);
}
#define SX_ENTRY extern "C" __attribute__((used, noinline)) void

// Runs f; true when it threw an exception (of any type).
template <typename F>
inline bool sx_throws(F &&f) {
  try {
    f();
  } catch (...) {
    return true;
  }
  return false;
}
// true when f threw an exception of type E
template <typename E, typename F>
inline bool sx_throws_as(F &&f) {
  try {
    f();
  } catch (const E &) {
    return true;
  } catch (...) {
    return false;
  }
  return false;
}
