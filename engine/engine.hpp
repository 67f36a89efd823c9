// Symbolic execution engine over LLVM bitcode (core data structures).
#pragma once
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

#include <chrono>
#include <cstdint>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include "poly.hpp"

namespace sx {

struct Val;
struct Payload {
  std::optional<z3::expr> e;
  std::optional<Poly> p;
  std::vector<Val> agg;
};

enum class K : uint8_t { None, Int, Dbl, Flt, SInt, SFp, SReal, Agg, Undef };

// A value.  Integers (and pointers) of width `bits`; 1-bit symbolic integers are
// z3 Bools.  Doubles are concrete (Dbl), IEEE terms (SFp) or polynomials (SReal).
struct Val {
  K k = K::None;
  uint16_t bits = 0;
  uint64_t c = 0;
  std::shared_ptr<const Payload> p;

  static Val I(unsigned bits, uint64_t v) {
    Val r;
    r.k = K::Int;
    r.bits = bits;
    r.c = bits >= 64 ? v : (v & ((1ULL << bits) - 1));
    return r;
  }
  static Val D(double d) {
    Val r;
    r.k = K::Dbl;
    r.bits = 64;
    std::memcpy(&r.c, &d, 8);
    return r;
  }
  static Val F(float f) {
    Val r;
    r.k = K::Flt;
    r.bits = 32;
    uint32_t u;
    std::memcpy(&u, &f, 4);
    r.c = u;
    return r;
  }
  static Val E(K k, unsigned bits, const z3::expr &e) {
    Val r;
    r.k = k;
    r.bits = bits;
    auto pp = std::make_shared<Payload>();
    pp->e = e;
    r.p = pp;
    return r;
  }
  static Val R(const Poly &poly) {
    Val r;
    r.k = K::SReal;
    r.bits = 64;
    auto pp = std::make_shared<Payload>();
    pp->p = poly;
    r.p = pp;
    return r;
  }
  static Val A(std::vector<Val> v) {
    Val r;
    r.k = K::Agg;
    auto pp = std::make_shared<Payload>();
    pp->agg = std::move(v);
    r.p = pp;
    return r;
  }
  static Val U(unsigned bits) {
    Val r;
    r.k = K::Undef;
    r.bits = bits;
    return r;
  }
  double d() const {
    double x;
    std::memcpy(&x, &c, 8);
    return x;
  }
  float fl() const {
    float x;
    uint32_t u = (uint32_t)c;
    std::memcpy(&x, &u, 4);
    return x;
  }
  int64_t s() const {
    if (bits >= 64) return (int64_t)c;
    uint64_t m = 1ULL << (bits - 1);
    return (int64_t)((c ^ m) - m);
  }
  bool conc() const { return k == K::Int; }
  const z3::expr &e() const { return *p->e; }
  const Poly &poly() const { return *p->p; }
};

struct Byte {
  // v == nullptr: concrete byte c (if init) ; otherwise byte idx of value v
  std::shared_ptr<const Val> v;
  uint8_t c = 0;
  uint8_t idx = 0;
  bool init = false;
};

struct Obj {
  uint64_t base = 0, size = 0;
  bool ro = false;
  uint8_t kind = 0;  // 0 global, 1 stack, 2 heap
  std::string name;
  std::vector<Byte> b;
};

struct Operand {
  bool isReg = false, ptr = false;
  unsigned reg = 0;
  Val c;
};

struct FnInfo;
struct InstInfo {
  llvm::Instruction *I = nullptr;
  unsigned op = 0;
  int dst = -1;
  unsigned bits = 0;  // result bits for ints
  std::vector<Operand> ops;
};
struct BBInfo {
  unsigned start = 0;
};
struct FnInfo {
  llvm::Function *F = nullptr;
  std::vector<InstInfo> insts;
  llvm::DenseMap<const llvm::BasicBlock *, unsigned> bbStart;
  llvm::DenseMap<const llvm::Value *, unsigned> reg;
  unsigned nregs = 0;
  bool executed = false;
};

struct Frame {
  FnInfo *fn = nullptr;
  std::vector<Val> regs;
  unsigned pc = 0;
  const llvm::BasicBlock *prev = nullptr;
  std::vector<uint64_t> allocas;
  llvm::CallBase *call = nullptr;  // call site in the caller
};

struct Exc {
  uint64_t obj = 0;
  uint64_t tinfo = 0;
};

struct Thread {
  std::vector<Frame> frames;
  bool done = false;
  uint64_t waitMutex = 0;
  int waitJoin = -1;
  std::vector<Exc> caught;
  Exc inflight;
  std::vector<unsigned> clock;
};

struct Input {
  std::string name;
  int kind = 0;  // 0 int, 1 double(fp), 2 real atom, 3 concrete
  unsigned bits = 64;
  std::optional<z3::expr> e;
  int atom = -1;
  bool isInt = false;
  std::string conc;
};

struct Access {
  int wTid = -1;
  unsigned wClk = 0;
  std::vector<unsigned> r;
};

struct State {
  std::map<uint64_t, std::shared_ptr<Obj>> mem;
  std::vector<Thread> threads;
  int cur = 0;
  std::vector<z3::expr> pc;
  std::unordered_map<unsigned, bool> decided;
  std::vector<Input> inputs;
  std::map<std::string, int> nameCount;
  uint64_t next = 0;
  uint64_t steps = 0;
  unsigned forks = 0;
  std::vector<std::string> trace;
  std::map<uint64_t, std::pair<int, std::vector<unsigned>>> mutexes;  // addr -> owner tid, clock
  std::map<uint64_t, Access> acc;
  std::map<std::string, uint64_t> counters;
  int schedN = 0;
  bool schedDone = false;
  Thread &th() { return threads[cur]; }
  Frame &fr() { return threads[cur].frames.back(); }
};

}  // namespace sx
