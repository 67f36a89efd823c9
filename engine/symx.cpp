// symx: a symbolic executor for LLVM bitcode produced from the repository's own
// sources.  Every feasible path of a harness is explored; branch conditions and
// assertions are decided by an SMT solver (z3 in process, z3/cvc5 as portfolio).
#include "engine.hpp"
#include "bvint.hpp"

#include <llvm/ADT/SmallString.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;

namespace sx {

struct PathEnd { std::string why; };
struct PathError { std::string msg; };
struct EngineError { std::string msg; };

enum class Res { SAT, UNSAT, UNK };

struct Options {
  std::string entry, module, out = "out.json", tmp = "/tmp";
  bool real = false, round = false, fpabs = false, absRound = false;
  unsigned branchMs = 10000, assertMs = 20000, portfolioS = 120;
  double totalS = 600;
  uint64_t maxPaths = 200000, maxSteps = 200000000;
  unsigned seed = 1;
  unsigned candidates = 12;
  bool verbose = false;
};

struct Candidate {
  std::string msg, loc, kind;  // kind: assert | error
  std::vector<std::pair<std::string, std::string>> inputs;
};
struct Failure {
  std::string msg, loc, kind, verdict;  // verdict: sat | unknown
  std::vector<Candidate> cands;
};

class Engine {
 public:
  Options opt;
  z3::context ctx;
  Field fld{ctx};
  std::unique_ptr<Module> M;
  const DataLayout *DL = nullptr;
  DenseMap<const Function *, std::unique_ptr<FnInfo>> fns;
  DenseMap<const GlobalValue *, uint64_t> gaddr;
  std::map<uint64_t, Function *> faddr;
  std::map<uint64_t, const GlobalVariable *> addr2gv;
  std::vector<std::unique_ptr<State>> work;
  std::unique_ptr<State> cur;
  std::map<std::string, std::function<Val(State &, CallBase *, std::vector<Val> &)>> ext;
  std::unordered_map<std::string, int> atomByName;
  std::map<std::string, int> realInputs;
  std::mt19937_64 rng{1};
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

  // stats
  uint64_t nQueries = 0, nSat = 0, nUnsat = 0, nUnk = 0, nPaths = 0, nSteps = 0, nAsserts = 0, nAssertQ = 0,
           nIdent = 0, nExt = 0, nBranchUnk = 0, nForks = 0, nDivCut = 0;
  double solverS = 0;
  std::map<std::string, uint64_t> reached;
  std::set<std::string> stubs;
  std::map<std::string, Failure> failures;
  std::set<std::string> undecided;
  std::vector<std::string> engineErrors;
  std::map<std::string, uint64_t> assertCount;
  std::deque<z3::model> models;

  double elapsed() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  }

  // ------------------------------------------------------------ module setup
  FnInfo *info(Function *F) {
    auto &slot = fns[F];
    if (!slot) {
      slot = std::make_unique<FnInfo>();
      prepare(*slot, F);
    }
    return slot.get();
  }
  void prepare(FnInfo &fi, Function *F) {
    fi.F = F;
    unsigned n = 0;
    for (auto &a : F->args()) fi.reg[&a] = n++;
    for (auto &bb : *F)
      for (auto &I : bb)
        if (!I.getType()->isVoidTy()) fi.reg[&I] = n++;
    fi.nregs = n;
    for (auto &bb : *F) {
      fi.bbStart[&bb] = fi.insts.size();
      for (auto &I : bb) {
        InstInfo ii;
        ii.I = &I;
        ii.op = I.getOpcode();
        if (!I.getType()->isVoidTy()) ii.dst = fi.reg[&I];
        ii.bits = tbits(I.getType());
        for (auto &o : I.operands()) {
          Operand op;
          Value *v = o.get();
          auto it = fi.reg.find(v);
          if (it != fi.reg.end()) {
            op.isReg = true;
            op.reg = it->second;
          } else if (auto *c = dyn_cast<Constant>(v)) {
            if (!isa<PHINode>(&I)) op.c = constVal(c);
            op.ptr = v->getType()->isPointerTy();
          }
          ii.ops.push_back(op);
        }
        if (auto *phi = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < phi->getNumIncomingValues(); k++)
            if (auto *c = dyn_cast<Constant>(phi->getIncomingValue(k))) ii.ops[k].c = constVal(c);
        }
        fi.insts.push_back(std::move(ii));
      }
    }
  }
  unsigned tbits(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
  }
  Val zeroOf(Type *t) {
    if (t->isIntegerTy() || t->isPointerTy()) return mkInt(tbits(t), 0);
    if (t->isDoubleTy()) return Val::D(0);
    if (t->isFloatTy()) return Val::F(0);
    std::vector<Val> v;
    if (auto *st = dyn_cast<StructType>(t)) {
      for (auto *e : st->elements()) v.push_back(zeroOf(e));
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
    } else
      throw EngineError{"zeroOf type"};
    return Val::A(v);
  }
  Val mkInt(unsigned bits, uint64_t v) {
    if (bits <= 64) return Val::I(bits, v);
    return Val::E(K::SInt, bits, ctx.bv_val((uint64_t)v, bits));
  }
  Val undefOf(Type *t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      // aggregate undef: zero is a legal refinement
      return zeroOf(t);
    }
    return zeroOf(t);
  }
  Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() <= 64) return Val::I(ci->getBitWidth(), ci->getZExtValue());
      SmallString<64> s;
      ci->getValue().toString(s, 10, false);
      return Val::E(K::SInt, ci->getBitWidth(), ctx.bv_val(s.c_str(), ci->getBitWidth()));
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      if (c->getType()->isDoubleTy()) return Val::D(cf->getValueAPF().convertToDouble());
      if (c->getType()->isFloatTy()) return Val::F(cf->getValueAPF().convertToFloat());
      return Val{};  // long double etc.: unsupported unless never executed
    }
    if (isa<ConstantPointerNull>(c)) return Val::I(64, 0);
    if (isa<UndefValue>(c)) {
      if (c->getType()->isX86_FP80Ty()) return Val{};
      return undefOf(c->getType());
    }
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto *gv = dyn_cast<GlobalValue>(c)) {
      if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
      auto it = gaddr.find(gv);
      if (it == gaddr.end()) return Val{};
      return Val::I(64, it->second);
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      std::vector<Val> v;
      for (auto &o : ca->operands()) v.push_back(constVal(cast<Constant>(o.get())));
      return Val::A(v);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      std::vector<Val> v;
      for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
      return Val::A(v);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          Val b = constVal(ce->getOperand(0));
          APInt off(64, 0);
          if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return Val{};
          return Val::I(64, b.c + off.getZExtValue());
        }
        case Instruction::BitCast:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::AddrSpaceCast: {
          Val v = constVal(ce->getOperand(0));
          if (ce->getType()->isIntegerTy()) return Val::I(tbits(ce->getType()), v.c);
          return v;
        }
        case Instruction::Sub:
          return Val::I(tbits(ce->getType()), constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
        case Instruction::Add:
          return Val::I(tbits(ce->getType()), constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
        case Instruction::Trunc:
          return Val::I(tbits(ce->getType()), constVal(ce->getOperand(0)).c);
        case Instruction::ICmp: {
          uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
          if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val::I(1, a == b);
          if (ce->getPredicate() == CmpInst::ICMP_NE) return Val::I(1, a != b);
          return Val{};
        }
        case Instruction::Select: {
          Val a = constVal(ce->getOperand(0));
          return a.c ? constVal(ce->getOperand(1)) : constVal(ce->getOperand(2));
        }
        default:
          return Val{};
      }
    }
    return Val{};
  }
  uint64_t allocObj(State &st, uint64_t size, uint8_t kind, const std::string &name, uint64_t align = 16) {
    auto o = std::make_shared<Obj>();
    st.next = (st.next + align - 1) / align * align;
    o->base = st.next;
    o->size = size;
    o->kind = kind;
    o->name = name;
    o->b.resize(size);
    st.next += size + 32;
    uint64_t a = o->base;
    st.mem[a] = std::move(o);
    return a;
  }
  void storeConst(State &st, uint64_t addr, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) {
      auto &o = *st.mem.lower_bound(addr)->second;
      (void)o;
      uint64_t n = DL->getTypeAllocSize(t);
      Obj *ob = findObj(st, addr);
      for (uint64_t i = 0; i < n; i++) {
        ob->b[addr - ob->base + i].init = true;
        ob->b[addr - ob->base + i].c = 0;
      }
      return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
      auto *sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++)
        storeConst(st, addr + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
      uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(st, addr + i * es, ca->getOperand(i));
      return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = cd->getElementByteSize();
      for (unsigned i = 0; i < cd->getNumElements(); i++)
        storeConst(st, addr + i * es, cd->getElementAsConstant(i));
      return;
    }
    Val v = constVal(c);
    if (v.k == K::None) return;
    if (v.k == K::Agg) throw EngineError{"const vector init"};
    rawStore(*findObj(st, addr), addr, v, DL->getTypeStoreSize(t));
  }
  void setup(State &st) {
    st.next = 0x100000;
    for (auto &F : *M) {
      gaddr[&F] = st.next;
      faddr[st.next] = &F;
      st.next += 16;
    }
    st.next += 4096;
    auto place = [&](GlobalVariable &G) {
      uint64_t sz = G.hasInitializer() || G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
      if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 512);
      return allocObj(st, sz, 0, G.getName().str(), std::max<uint64_t>(16, G.getAlign().valueOrOne().value()));
    };
    auto init = [&](GlobalVariable &G, uint64_t a) {
      Obj *o = findObj(st, a);
      if (G.hasInitializer()) storeConst(st, a, G.getInitializer());
      for (auto &b : o->b) b.init = true;
      o->ro = G.isConstant();
    };
    for (auto &G : M->globals())
      if (!G.isThreadLocal()) addr2gv[gaddr[&G] = place(G)] = &G;
    // thread-local variables: one copy per thread, tlsStride apart
    std::vector<std::pair<GlobalVariable *, uint64_t>> copies;
    for (int t = 0; t < MAX_THREADS; t++) {
      st.next = (st.next + 4095) / 4096 * 4096;
      if (t == 0) tlsLo = st.next;
      if (t == 1) tlsStride = st.next - tlsLo;
      for (auto &G : M->globals())
        if (G.isThreadLocal()) {
          uint64_t a = place(G);
          if (t == 0) addr2gv[gaddr[&G] = a] = &G;
          copies.push_back({&G, a});
        }
    }
    for (auto &G : M->globals())
      if (!G.isThreadLocal()) init(G, gaddr[&G]);
    for (auto &[G, a] : copies) init(*G, a);
  }
  static constexpr int MAX_THREADS = 8;
  uint64_t tlsLo = 0, tlsStride = 0;

  // ------------------------------------------------------------ memory
  Obj *findObj(State &st, uint64_t addr) {
    auto it = st.mem.upper_bound(addr);
    if (it == st.mem.begin()) return nullptr;
    --it;
    Obj *o = it->second.get();
    if (addr < o->base + o->size || (o->size == 0 && addr == o->base)) return o;
    return nullptr;
  }
  Obj *writable(State &st, uint64_t addr) {
    auto it = st.mem.upper_bound(addr);
    if (it == st.mem.begin()) return nullptr;
    --it;
    if (addr >= it->second->base + it->second->size) return nullptr;
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return it->second.get();
  }
  void rawStore(Obj &o, uint64_t addr, const Val &v, uint64_t n) {
    uint64_t off = addr - o.base;
    if (v.k == K::Int || v.k == K::Dbl || v.k == K::Flt) {
      for (uint64_t i = 0; i < n; i++) {
        Byte &b = o.b[off + i];
        b.v.reset();
        b.c = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0;
        b.init = true;
      }
      return;
    }
    if (v.k == K::Undef) {
      for (uint64_t i = 0; i < n; i++) {
        o.b[off + i] = Byte{};
      }
      return;
    }
    Val w = v;
    if (w.bits != n * 8) {
      z3::expr e = bv(w);
      w = Val::E(K::SInt, n * 8, z3::zext(e, n * 8 - e.get_sort().bv_size()));
    }
    auto sp = std::make_shared<const Val>(w);
    for (uint64_t i = 0; i < n; i++) {
      Byte &b = o.b[off + i];
      b.v = sp;
      b.idx = (uint8_t)i;
      b.init = true;
    }
  }
  // BV term of an integer-like value (1-bit values become 1-bit vectors)
  z3::expr bv(const Val &v) {
    switch (v.k) {
      case K::Int:
        return ctx.bv_val((uint64_t)v.c, v.bits);
      case K::Dbl:
        return ctx.bv_val((uint64_t)v.c, 64);
      case K::Flt:
        return ctx.bv_val((uint64_t)v.c, 32);
      case K::SInt:
        if (v.bits == 1) return z3::ite(v.e(), ctx.bv_val(1, 1), ctx.bv_val(0, 1));
        return v.e();
      case K::SFp:
        return z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, v.e()));
      case K::SReal:
        throw EngineError{"bit-level access to an exact-arithmetic real value"};
      case K::Undef:
        return ctx.bv_val(0, v.bits);
      default:
        throw EngineError{"bv of aggregate/none"};
    }
  }
  z3::expr boolE(const Val &v) {
    if (v.k == K::Int) return ctx.bool_val(v.c & 1);
    if (v.k == K::SInt && v.bits == 1) return v.e();
    if (v.k == K::SInt) return v.e() != ctx.bv_val(0, v.bits);
    throw EngineError{"boolE"};
  }
  Val fromBV(const z3::expr &e0, unsigned bits) {
    z3::expr e = e0.simplify();
    if (bits == 1) {
      z3::expr b = e.is_bool() ? e : (e == ctx.bv_val(1, 1)).simplify();
      if (b.is_true()) return Val::I(1, 1);
      if (b.is_false()) return Val::I(1, 0);
      return Val::E(K::SInt, 1, b);
    }
    if (bits <= 64 && e.is_numeral()) return Val::I(bits, e.get_numeral_uint64());
    return Val::E(K::SInt, bits, e);
  }
  Val fromBool(const z3::expr &e0) {
    z3::expr e = e0.simplify();
    if (e.is_true()) return Val::I(1, 1);
    if (e.is_false()) return Val::I(1, 0);
    return Val::E(K::SInt, 1, e);
  }
  z3::expr byteE(const Byte &b) {
    if (!b.v) return ctx.bv_val((unsigned)b.c, 8);
    z3::expr e = bv(*b.v);
    return e.extract(8 * b.idx + 7, 8 * b.idx);
  }
  Val coerce(const Val &v, Type *t) {
    unsigned n = tbits(t);
    if (t->isDoubleTy()) {
      if (v.k == K::Int) {
        Val r = v;
        r.k = K::Dbl;
        return r;
      }
      if (v.k == K::Dbl || v.k == K::SFp || v.k == K::SReal) return v;
      if (v.k == K::SInt) {
        if (opt.real) throw EngineError{"symbolic integer reinterpreted as real"};
        return Val::E(K::SFp, 64,
                      z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, v.e(), f64())));
      }
      if (v.k == K::Undef) return Val::D(0);
    }
    if (t->isFloatTy()) {
      if (v.k == K::Int) {
        Val r = v;
        r.k = K::Flt;
        return r;
      }
      if (v.k == K::Flt) return v;
      if (v.k == K::SFp) return v;
      if (v.k == K::SInt)
        return Val::E(K::SFp, 32, z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, v.e(), f32())));
    }
    if (t->isIntegerTy() || t->isPointerTy()) {
      if (v.k == K::Dbl || v.k == K::Flt) return Val::I(n, v.c);
      if (v.k == K::Int) return v.bits == n ? v : Val::I(n, v.c);
      if ((v.k == K::SInt) && v.bits == n) return v;
      if (v.k == K::SInt && v.bits > n) return fromBV(bv(v).extract(n - 1, 0), n);
      if ((v.k == K::SFp || v.k == K::SReal) && v.bits == n) return v;  // boxed
      if (v.k == K::Undef) return Val::I(n, 0);
    }
    throw EngineError{"coerce"};
  }
  void race(State &st, uint64_t addr, uint64_t n, bool wr) {
    if (st.threads.size() < 2 || st.counters["norace"]) return;
    int tid = st.cur;
    auto &ck = st.threads[tid].clock;
    for (uint64_t g = addr >> 3; g <= (addr + n - 1) >> 3; ++g) {
      Access &a = st.acc[g];
      auto get = [&](std::vector<unsigned> &v, int i) { return i < (int)v.size() ? v[i] : 0u; };
      if (a.wTid >= 0 && a.wTid != tid && a.wClk > get(ck, a.wTid))
        throw PathError{"data race: unsynchronised conflicting accesses"};
      if (wr) {
        for (int t = 0; t < (int)a.r.size(); t++)
          if (t != tid && a.r[t] > get(ck, t)) throw PathError{"data race: unsynchronised conflicting accesses"};
        a.wTid = tid;
        a.wClk = get(ck, tid);
        a.r.clear();
      } else {
        if ((int)a.r.size() <= tid) a.r.resize(tid + 1, 0);
        a.r[tid] = get(ck, tid);
      }
    }
  }
  uint64_t concAddr(State &st, const Val &a) {
    if (a.k == K::Int) return a.c;
    if (a.k != K::SInt) throw EngineError{"address kind"};
    return concretize(st, a, 4096).c;
  }
  // Enumerate the feasible values of a symbolic integer by forking.
  Val concretize(State &st, const Val &a, unsigned limit) {
    if (a.k == K::Int) return a;
    z3::expr e = bv(a);
    // already pinned?
    unsigned id = Z3_get_ast_id(ctx, e);
    auto it = pinned.find({&st, id});
    (void)it;
    z3::model m(ctx);
    Res r = check(st, ctx.bool_val(true), &m, opt.branchMs, &e);
    if (r == Res::UNSAT) throw PathEnd{"infeasible"};
    if (r == Res::UNK) throw EngineError{"concretize: solver unknown"};
    z3::expr v = m.eval(e, true).simplify();
    if (!v.is_numeral()) throw EngineError{"concretize: no numeral"};
    uint64_t x = v.get_numeral_uint64();
    z3::expr cond = (e == ctx.bv_val((uint64_t)x, a.bits == 0 ? 64 : a.bits));
    if (st.counters["conc"]++ > limit) throw EngineError{"concretize: too many values"};
    decide(st, cond, true);
    return Val::I(a.bits, x);
  }
  std::map<std::pair<State *, unsigned>, uint64_t> pinned;

  Obj *checkAccess(State &st, uint64_t addr, uint64_t n, bool wr) {
    Obj *o = wr ? writable(st, addr) : findObj(st, addr);
    if (!o || addr + n > o->base + o->size) {
      if (addr < 4096) throw PathError{"null pointer access"};
      throw PathError{"out-of-bounds or use-after-free memory access"};
    }
    if (wr && o->ro) throw PathError{"write to constant memory"};
    return o;
  }
  Val load(State &st, uint64_t addr, Type *t, bool atomic = false) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      std::vector<Val> v;
      if (auto *s = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
          v.push_back(load(st, addr + sl->getElementOffset(i), s->getElementType(i)));
      } else if (auto *a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); i++) v.push_back(load(st, addr + i * es, a->getElementType()));
      } else {
        auto *a2 = cast<FixedVectorType>(t);
        uint64_t es = DL->getTypeStoreSize(a2->getElementType());
        for (uint64_t i = 0; i < a2->getNumElements(); i++)
          v.push_back(load(st, addr + i * es, a2->getElementType()));
      }
      return Val::A(v);
    }
    uint64_t n = DL->getTypeStoreSize(t);
    Obj *o = checkAccess(st, addr, n, false);
    if (!atomic) race(st, addr, n, false);
    uint64_t off = addr - o->base;
    bool allc = true, same = true, uninit = false;
    for (uint64_t i = 0; i < n; i++) {
      Byte &b = o->b[off + i];
      if (!b.init) uninit = true;
      if (b.v) allc = false;
      if (!(b.v && b.v == o->b[off].v && b.idx == i)) same = false;
    }
    if (uninit) {
      // uninitialised memory: an arbitrary (but then stable) value
      Obj *w = writable(st, addr);
      if (opt.real && n == 8 && (t->isDoubleTy())) {
        std::string nm = "uninit!" + std::to_string(addr) + "!" + std::to_string(uninitN++);
        int a = newRealAtom(nm, AtomKind::Fresh);
        Val v = Val::R(fld.var(a));
        rawStore(*w, addr, v, n);
        return v;
      }
      for (uint64_t i = 0; i < n; i++) {
        Byte &b = w->b[off + i];
        if (!b.init) {
          std::string nm = "uninit!" + std::to_string(uninitN++);
          Val v = Val::E(K::SInt, 8, ctx.bv_const(nm.c_str(), 8));
          if (opt.real) v = Val::I(8, 0xCD);
          rawStore(*w, addr + i, v, 1);
        }
      }
      return load(st, addr, t, true);
    }
    unsigned tb = tbits(t);
    if (allc) {
      uint64_t v = 0;
      if (n <= 8) {
        for (uint64_t i = 0; i < n; i++) v |= (uint64_t)o->b[off + i].c << (8 * i);
        if (t->isDoubleTy() || t->isFloatTy()) return coerce(Val::I(tb, v), t);
        return Val::I(tb, v);
      }
    }
    if (same && o->b[off].v->bits == n * 8) {
      const Val &v = *o->b[off].v;
      if (tb == n * 8) return coerce(v, t);
      return fromBV(bv(v).extract(tb - 1, 0), tb);
    }
    if (t->isX86_FP80Ty()) throw EngineError{"long double load"};
    z3::expr e = byteE(o->b[off]);
    for (uint64_t i = 1; i < n; i++) e = z3::concat(byteE(o->b[off + i]), e);
    if (tb != n * 8) e = e.extract(tb - 1, 0);
    return coerce(fromBV(e, tb), t);
  }
  uint64_t uninitN = 0;
  void store(State &st, uint64_t addr, const Val &v, Type *t, bool atomic = false) {
    if (v.k == K::Agg) {
      if (auto *s = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++)
          store(st, addr + sl->getElementOffset(i), v.p->agg[i], s->getElementType(i));
      } else if (auto *a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); i++) store(st, addr + i * es, v.p->agg[i], a->getElementType());
      } else {
        auto *a2 = cast<FixedVectorType>(t);
        uint64_t es = DL->getTypeStoreSize(a2->getElementType());
        for (uint64_t i = 0; i < a2->getNumElements(); i++)
          store(st, addr + i * es, v.p->agg[i], a2->getElementType());
      }
      return;
    }
    uint64_t n = DL->getTypeStoreSize(t);
    Obj *o = checkAccess(st, addr, n, true);
    if (!atomic) race(st, addr, n, true);
    rawStore(*o, addr, v, n);
  }
  void memcopy(State &st, uint64_t d, uint64_t s, uint64_t n) {
    if (n == 0 || d == s) return;
    Obj *so = checkAccess(st, s, n, false);
    race(st, s, n, false);
    std::vector<Byte> tmp(so->b.begin() + (s - so->base), so->b.begin() + (s - so->base) + n);
    Obj *dobj = checkAccess(st, d, n, true);
    race(st, d, n, true);
    std::copy(tmp.begin(), tmp.end(), dobj->b.begin() + (d - dobj->base));
  }

  // ------------------------------------------------------------ solver
  int newRealAtom(const std::string &nm, AtomKind k) {
    int a = fld.newAtom(nm, k);
    return a;
  }
  const std::vector<unsigned> &constsOf(const z3::expr &e) {
    unsigned id = Z3_get_ast_id(ctx, e);
    auto it = constCache.find(id);
    if (it != constCache.end()) return it->second.second;
    std::set<unsigned> out;
    std::unordered_set<unsigned> seen;
    std::vector<z3::expr> stk{e};
    while (!stk.empty()) {
      z3::expr x = stk.back();
      stk.pop_back();
      if (!seen.insert(Z3_get_ast_id(ctx, x)).second) continue;
      if (x.is_app()) {
        if (x.num_args() == 0 && x.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
          unsigned d = Z3_get_ast_id(ctx, x);
          if (!declName.count(d)) {
            declName.emplace(d, x.decl().name().str());
            pins.push_back(x);
          }
          out.insert(d);
        }
        for (unsigned i = 0; i < x.num_args(); i++) stk.push_back(x.arg(i));
      }
    }
    auto r = constCache.emplace(id, std::make_pair(e, std::vector<unsigned>(out.begin(), out.end())));
    return r.first->second.second;
  }
  std::unordered_map<unsigned, std::pair<z3::expr, std::vector<unsigned>>> constCache;
  std::unordered_map<unsigned, std::string> declName;
  std::vector<z3::expr> pins;
  size_t atomIndexed = 0;

  void refreshAtomIndex() {
    for (; atomIndexed < fld.atoms.size(); ++atomIndexed) {
      atomByName[fld.atoms[atomIndexed].name] = (int)atomIndexed;
      atomByName[fld.atoms[atomIndexed].name + "^-1"] = (int)atomIndexed;
    }
  }
  // constraints relevant to the seeds (cone of influence), including axioms
  std::vector<z3::expr> cone(State &st, const std::vector<z3::expr> &seeds, bool full) {
    std::vector<z3::expr> out;
    std::set<unsigned> vars;
    std::set<int> usedAtoms;
    std::vector<char> used(st.pc.size(), 0);
    std::vector<z3::expr> queue = seeds;
    refreshAtomIndex();
    auto addVars = [&](const z3::expr &e) {
      std::vector<z3::expr> ws{e};
      while (!ws.empty()) {
        z3::expr w = ws.back();
        ws.pop_back();
        for (unsigned d : constsOf(w)) {
          if (!vars.insert(d).second) continue;
          auto it = atomByName.find(declName[d]);
          if (it != atomByName.end() && usedAtoms.insert(it->second).second) {
            for (size_t k = 0; k < fld.atoms[it->second].axioms.size(); k++) {
              z3::expr ax = fld.atoms[it->second].axioms[k];
              out.push_back(ax);
              ws.push_back(ax);
            }
          }
        }
      }
    };
    for (auto &q : queue) addVars(q);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < st.pc.size(); i++) {
        if (used[i]) continue;
        const auto &cs = constsOf(st.pc[i]);
        bool hit = full;
        for (unsigned d : cs)
          if (vars.count(d)) {
            hit = true;
            break;
          }
        if (hit) {
          used[i] = 1;
          out.push_back(st.pc[i]);
          addVars(st.pc[i]);
          ch = true;
        }
      }
    }
    return out;
  }
  struct Sorts {
    bool real = false, fp = false, bv = false, heavy = false;
  };
  void sortsOf(const z3::expr &e, Sorts &s, std::unordered_set<unsigned> &seen) {
    std::vector<z3::expr> stk{e};
    while (!stk.empty()) {
      z3::expr x = stk.back();
      stk.pop_back();
      if (!seen.insert(Z3_get_ast_id(ctx, x)).second) continue;
      auto k = x.get_sort().sort_kind();
      if (k == Z3_REAL_SORT || k == Z3_INT_SORT) s.real = true;
      if (k == Z3_FLOATING_POINT_SORT) s.fp = true;
      if (k == Z3_BV_SORT) s.bv = true;
      if (x.is_app()) {
        auto dk = x.decl().decl_kind();
        if (dk == Z3_OP_BMUL || dk == Z3_OP_BSDIV || dk == Z3_OP_BSREM || dk == Z3_OP_BUDIV || dk == Z3_OP_BUREM ||
            dk == Z3_OP_BSDIV_I || dk == Z3_OP_BSREM_I || dk == Z3_OP_BUDIV_I || dk == Z3_OP_BUREM_I)
          if (x.get_sort().bv_size() >= 32) s.heavy = true;
        for (unsigned i = 0; i < x.num_args(); i++) stk.push_back(x.arg(i));
      }
    }
  }
  // The same query over the integers (see bvint.hpp).  A model is only accepted
  // after the bit-vector solver has confirmed it.
  uint64_t nIntQ = 0;
  Res intCheck(const std::vector<z3::expr> &cs, z3::model *out, unsigned ms, std::string *smt) {
    try {
      BvInt B(ctx);
      for (auto &c : cs) B.collect(c, false);
      z3::expr_vector v(ctx);
      for (auto &c : cs) v.push_back(B.bl(c));
      z3::solver s(ctx);
      z3::params p(ctx);
      p.set("timeout", ms);
      s.set(p);
      for (unsigned i = 0; i < v.size(); i++) s.add(v[i]);
      for (unsigned i = 0; i < B.side.size(); i++) s.add(B.side[i]);
      if (smt) *smt = s.to_smt2();
      nIntQ++;
      auto r = s.check();
      if (r == z3::unsat) return Res::UNSAT;
      if (r == z3::sat) {
        z3::model m = s.get_model();
        z3::solver b(ctx, "QF_BV");
        z3::params p2(ctx);
        p2.set("timeout", 10000u);
        b.set(p2);
        for (auto &c : cs) b.add(c);
        for (auto &x : B.vars) {
          z3::expr val = m.eval(x.second, true);
          mpz_class z(Z3_get_numeral_string(ctx, val));
          unsigned w = x.first.get_sort().bv_size();
          if (z < 0) z += BvInt::p2(w);
          b.add(x.first == ctx.bv_val(z.get_str().c_str(), w));
        }
        if (b.check() == z3::sat) {
          if (out) *out = b.get_model();
          models.push_back(b.get_model());
          if (models.size() > 12) models.pop_front();
          return Res::SAT;
        }
      }
    } catch (BvInt::Unsupported &) {
      if (opt.verbose) std::cerr << "[int] unsupported term\n";
    } catch (z3::exception &) {
    }
    return Res::UNK;
  }
  unsigned clampMs(unsigned ms) {
    double left = (opt.totalS - elapsed()) * 1000;
    if (left < 500) left = 500;
    return left < ms ? (unsigned)left : ms;
  }
  Res check(State &st, const z3::expr &cond, z3::model *out, unsigned ms, const z3::expr *seedExtra = nullptr,
            bool full = false, bool portfolio = false, std::map<std::string, std::string> *extModel = nullptr) {
    std::vector<z3::expr> seeds{cond};
    if (seedExtra) seeds.push_back(*seedExtra);
    std::vector<z3::expr> cs = cone(st, seeds, full);
    cs.push_back(cond);
    // model reuse
    if (!opt.real && !full) {
      int n = 0;
      for (auto it = models.rbegin(); it != models.rend() && n < 6; ++it, ++n) {
        bool ok = true;
        for (auto jt = cs.rbegin(); jt != cs.rend(); ++jt)
          if (!it->eval(*jt, true).is_true()) {
            ok = false;
            break;
          }
        if (ok) {
          if (out) *out = *it;
          return Res::SAT;
        }
      }
    }
    Sorts so;
    {
      std::unordered_set<unsigned> seen;
      for (auto &c : cs) sortsOf(c, so, seen);
    }
    nQueries++;
    auto a = std::chrono::steady_clock::now();
    const char *logic = so.real ? (so.bv || so.fp ? nullptr : "QF_NRA") : so.fp ? "QF_BVFP" : "QF_BV";
    z3::solver s = logic ? z3::solver(ctx, logic) : z3::solver(ctx);
    z3::params p(ctx);
    ms = clampMs(ms);
    const bool tryInt = so.heavy && !so.real && !so.fp;
    p.set("timeout", tryInt ? std::min(ms, 150u) : ms);
    s.set(p);
    for (auto &c : cs) s.add(c);
    Res r = Res::UNK;
    std::string intSmt;
    try {
      auto cr = s.check();
      r = cr == z3::sat ? Res::SAT : cr == z3::unsat ? Res::UNSAT : Res::UNK;
    } catch (z3::exception &ex) {
      r = Res::UNK;
    }
    if (r == Res::SAT) {
      z3::model m = s.get_model();
      if (out) *out = m;
      if (!opt.real) {
        models.push_back(m);
        if (models.size() > 12) models.pop_front();
      }
    }
    if (r == Res::UNK && tryInt) r = intCheck(cs, out, ms, &intSmt);
    if (r == Res::UNK && portfolio && !timeUp()) r = external(s, so, extModel, st, intSmt);
    solverS += std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
    (r == Res::SAT ? nSat : r == Res::UNSAT ? nUnsat : nUnk)++;
    if (opt.verbose) {
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
      if (dt > 1)
        std::cerr << "[q] " << dt << "s res=" << (int)r << " cs=" << cs.size() << " " << (logic ? logic : "-") << "\n";
    }
    return r;
  }
  // Portfolio of external solvers on the SMT-LIB2 dump of the query.
  Res external(z3::solver &s, const Sorts &so, std::map<std::string, std::string> *model, State &st,
               const std::string &intSmt) {
    nExt++;
    static int cnt = 0;
    std::string base = opt.tmp + "/q" + std::to_string(getpid()) + "_" + std::to_string(cnt++);
    std::string smt = s.to_smt2();
    size_t pos = smt.rfind("(check-sat)");
    std::string body = pos == std::string::npos ? smt : smt.substr(0, pos);
    std::string names;
    std::set<std::string> in;
    for (auto &i : st.inputs)
      if (i.e && body.find(i.e->decl().name().str()) != std::string::npos) in.insert(i.e->to_string());
    for (auto &n : in) names += n + " ";
    std::string logic = so.real ? "ALL" : so.fp ? "QF_BVFP" : "QF_BV";
    {
      std::ofstream f(base + ".smt2");
      f << "(set-option :produce-models true)\n(set-logic " << logic << ")\n" << body << "(check-sat)\n";
      if (!names.empty()) f << "(get-value (" << names << "))\n";
    }
    unsigned ps = clampMs(opt.portfolioS * 1000) / 1000 + 1;
    std::string T = std::to_string(ps);
    std::vector<std::string> cmds;
    cmds.push_back("z3-new -T:" + T + " " + base + ".smt2");
    cmds.push_back("cvc5 --tlimit=" + std::to_string(ps * 1000) + (so.fp ? " --fp-exp" : "") + " " + base + ".smt2");
    if (so.bv && !so.fp && !so.real)
      cmds.push_back("cvc5 --solve-bv-as-int=sum --tlimit=" + std::to_string(ps * 1000) + " " + base + ".smt2");
    if (so.bv && !so.real) cmds.push_back("z3 -T:" + T + " " + base + ".smt2");
    size_t firstInt = cmds.size();
    if (!intSmt.empty()) {
      std::ofstream f(base + "i.smt2");
      f << "(set-logic ALL)\n" << intSmt;
      cmds.push_back("z3-new -T:" + T + " " + base + "i.smt2");
      cmds.push_back("cvc5 --nl-ext-tplanes --tlimit=" + std::to_string(ps * 1000) + " " + base + "i.smt2");
    }
    std::vector<pid_t> pids;
    for (size_t i = 0; i < cmds.size(); i++) {
      pid_t p = fork();
      if (p == 0) {
        setpgid(0, 0);
        std::string c = "exec " + cmds[i] + " > " + base + "." + std::to_string(i) + ".out 2>&1";
        execl("/bin/sh", "sh", "-c", c.c_str(), (char *)nullptr);
        _exit(127);
      }
      pids.push_back(p);
    }
    Res r = Res::UNK;
    std::set<size_t> live;
    for (size_t i = 0; i < pids.size(); i++) live.insert(i);
    auto start = std::chrono::steady_clock::now();
    while (!live.empty() && r == Res::UNK) {
      for (auto it = live.begin(); it != live.end();) {
        int stt;
        pid_t w = waitpid(pids[*it], &stt, WNOHANG);
        if (w == pids[*it]) {
          std::ifstream f(base + "." + std::to_string(*it) + ".out");
          std::string first, all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
          std::istringstream is(all);
          while (std::getline(is, first))
            if (first == "sat" || first == "unsat" || first == "unknown") break;
          bool err = all.find("(error") != std::string::npos &&
                     !(first == "unsat");  // get-value after unsat reports an error
          if (all.find("(error") != std::string::npos && all.find("(error") < all.find(first)) err = true;
          if (first == "unsat" && !err) r = Res::UNSAT;
          if (first == "sat" && !err && *it < firstInt) {
            r = Res::SAT;
            if (model) parseValues(all, *model);
          }
          it = live.erase(it);
          if (r != Res::UNK) break;
        } else
          ++it;
      }
      usleep(20000);
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > ps + 10) break;
    }
    for (size_t i : live) {
      kill(-pids[i], SIGKILL);
      kill(pids[i], SIGKILL);
      waitpid(pids[i], nullptr, 0);
    }
    for (size_t i = 0; i < cmds.size(); i++) unlink((base + "." + std::to_string(i) + ".out").c_str());
    unlink((base + ".smt2").c_str());
    if (!intSmt.empty()) unlink((base + "i.smt2").c_str());
    return r;
  }
  static void parseValues(const std::string &s, std::map<std::string, std::string> &m) {
    // s-expression list of (name value)
    size_t i = s.find("((");
    if (i == std::string::npos) return;
    i++;
    while (i < s.size()) {
      while (i < s.size() && s[i] != '(' && s[i] != ')') i++;
      if (i >= s.size() || s[i] == ')') break;
      int d = 0;
      size_t j = i;
      bool q = false;
      for (; j < s.size(); j++) {
        if (s[j] == '|') q = !q;
        if (q) continue;
        if (s[j] == '(') d++;
        if (s[j] == ')' && --d == 0) break;
      }
      std::string it = s.substr(i + 1, j - i - 1);
      size_t k;
      std::string name;
      if (it[0] == '|') {
        k = it.find('|', 1);
        name = it.substr(1, k - 1);
        k++;
      } else {
        k = it.find_first_of(" \n");
        name = it.substr(0, k);
      }
      std::string v = it.substr(k);
      while (!v.empty() && isspace(v[0])) v.erase(0, 1);
      m[name] = v;
      i = j + 1;
    }
  }

  bool timeUp() { return elapsed() > opt.totalS; }

  // Decide a condition in this state; forks when both sides are feasible.
  bool decide(State &st, const z3::expr &c0, bool prefer = true) {
    z3::expr c = c0.simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    unsigned id = Z3_get_ast_id(ctx, c);
    auto it = st.decided.find(id);
    if (it != st.decided.end()) return it->second;
    pins.push_back(c);
    z3::expr nc = (!c).simplify();
    pins.push_back(nc);
    unsigned nid = Z3_get_ast_id(ctx, nc);
    Res rt = check(st, c, nullptr, opt.branchMs);
    Res rf = rt == Res::UNSAT ? Res::SAT : check(st, nc, nullptr, opt.branchMs);
    if (rt == Res::UNK || rf == Res::UNK) nBranchUnk++;
    if (rt == Res::UNSAT) {
      st.decided[id] = false;
      st.decided[nid] = true;
      return false;
    }
    if (rf == Res::UNSAT) {
      st.decided[id] = true;
      st.decided[nid] = false;
      return true;
    }
    // fork
    nForks++;
    auto other = std::make_unique<State>(st);
    other->forks++;
    st.forks++;
    z3::expr cc = prefer ? c : nc, oc = prefer ? nc : c;
    st.pc.push_back(cc);
    other->pc.push_back(oc);
    st.decided[id] = prefer;
    st.decided[nid] = !prefer;
    other->decided[id] = !prefer;
    other->decided[nid] = prefer;
    work.push_back(std::move(other));
    return prefer;
  }
  // Is c implied by the path condition (no fork)?
  bool implied(State &st, const z3::expr &c0) {
    z3::expr c = c0.simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    auto it = st.decided.find(Z3_get_ast_id(ctx, c));
    if (it != st.decided.end()) return it->second;
    return check(st, !c, nullptr, opt.branchMs) == Res::UNSAT;
  }

  // ------------------------------------------------------------ reals
  Poly realOf(const Val &v) {
    if (v.k == K::SReal) return v.poly();
    if (v.k == K::Dbl) {
      double d = v.d();
      if (!std::isfinite(d)) throw PathError{"arithmetic on a non-finite value"};
      return Poly(Q(d));
    }
    if (v.k == K::Undef) return Poly(Q(0));
    throw EngineError{"realOf"};
  }
  Val mkReal(const Poly &p) {
    if (p.isConst()) {
      double d = p.constVal().get_d();
      // keep exact rationals that are not doubles symbolic only if needed
      if (Q(d) == p.constVal()) return Val::D(d);
    }
    return Val::R(p);
  }
  // ---- floating-point rounding as bounded perturbations (--round): the result of an
  // operation is exact*(1+d)+h with |d| <= 2^-53 and |h| <= 1e-300 (no overflow).
  std::map<std::tuple<int, Poly, Poly>, Poly> roundKey;
  static bool pow2(const Poly &p) {
    if (!p.isConst() || p.zero()) return false;
    Q q = abs(p.constVal());
    return mpz_popcount(q.get_num().get_mpz_t()) == 1 && mpz_popcount(q.get_den().get_mpz_t()) == 1;
  }
  int smallAtom(const char *nm, const Q &lim) {
    int a = fld.newAtom(std::string(nm) + "!" + std::to_string(fld.atoms.size()), AtomKind::Fresh);
    Interval b;
    b.hasLo = b.hasHi = true;
    b.lo = -lim;
    b.hi = lim;
    fld.setBounds(a, b);
    return a;
  }
  z3::expr isInt(const z3::expr &v) {
    z3::expr k = ctx.int_const((v.decl().name().str() + "!int").c_str());
    return v == z3::to_real(k);
  }
  // a polynomial with integer coefficients in integer-valued atoms
  bool integral(const Poly &p) {
    for (auto &[m, c] : p.t) {
      if (c.get_den() != 1) return false;
      for (auto &f : m.f) {
        bool ok = false;
        if (f.second < 0) return false;
        for (auto &kv : intKey) ok = ok || kv.second == f.first;
        for (auto &kv : bvAtom) ok = ok || kv.second == f.first;
        if (!ok) return false;
      }
    }
    return true;
  }
  Poly rounded(int op, const Poly &x, const Poly &y, const Poly &r) {
    if (!opt.round || r.isConst()) return r;
    if ((op == Instruction::FAdd || op == Instruction::FSub) && (x.zero() || y.zero())) return r;
    if (op == Instruction::FMul && (pow2(x) || pow2(y))) return r;
    if (op == Instruction::FDiv && pow2(y)) return r;
    auto key = std::make_tuple(op, x, y);
    auto it = roundKey.find(key);
    if (it != roundKey.end()) return it->second;
    static const Q u = [] {
      Q q(1, 1);
      mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), 53);
      return q;
    }();
    // the rounding error: relative, or (--abs-round, which keeps the constraints linear) bounded
    // by that of the largest value the term can take
    int ra;
    Poly res;
    Interval rb = fld.bound(r);
    bool linear = opt.absRound && rb.hasLo && rb.hasHi;
    if (linear) {
      Q big = std::max(Q(abs(rb.lo)), Q(abs(rb.hi)));
      ra = smallAtom("rnd", big * u);
      res = fld.add(r, fld.var(ra));
      z3::expr er = fld.toZ3(r), es = fld.toZ3(res);
      fld.atoms[ra].axioms.push_back(z3::implies(er >= 0, es >= 0) && z3::implies(er <= 0, es <= 0));
    } else {
      ra = smallAtom("rnd", u);
      res = fld.add(r, fld.mul(r, fld.var(ra)));
    }
    // an integer over a moderate constant is zero or far from the subnormal range
    bool noUnderflow = op == Instruction::FDiv && y.isConst() && abs(y.constVal()) < Q(mpz_class("1000000000000000000000000")) && integral(x);
    if ((op == Instruction::FMul || op == Instruction::FDiv) && !noUnderflow) {
      mpz_class big;
      mpz_ui_pow_ui(big.get_mpz_t(), 10, 300);
      res = fld.add(res, fld.var(smallAtom("udf", Q(1, big))));
    }
    // rounding is monotone: quotients by the same positive constant keep their order
    if (op == Instruction::FDiv && y.isConst() && sgn(y.constVal()) > 0) {
      for (auto &[k, v] : roundKey) {
        if (std::get<0>(k) != op || !(std::get<2>(k) == y)) continue;
        z3::expr a = fld.toZ3(x), b = fld.toZ3(std::get<1>(k)), fa = fld.toZ3(res), fb = fld.toZ3(v);
        fld.atoms[ra].axioms.push_back(z3::implies(a <= b, fa <= fb) && z3::implies(a >= b, fa >= fb));
      }
    }
    roundKey[key] = res;
    return res;
  }
  // integer part functions of a real term
  std::map<std::pair<std::string, Poly>, int> intKey;
  std::map<unsigned, int> bvAtom;  // bit-vector constant (ast id) -> integer-valued atom
  int integerPart(const std::string &kind, const Poly &p) {
    auto key = std::make_pair(kind, p);
    auto it = intKey.find(key);
    if (it != intKey.end()) return it->second;
    int a = fld.newAtom(kind + "!" + std::to_string(fld.atoms.size()), AtomKind::Fresh);
    z3::expr n = fld.atoms[a].var, x = fld.toZ3(p);
    Interval b = fld.bound(p), r;
    if (b.hasLo) { r.hasLo = true; r.lo = b.lo - 1; }
    if (b.hasHi) { r.hasHi = true; r.hi = b.hi + 1; }
    fld.setBounds(a, r);
    auto &ax = fld.atoms[a].axioms;
    ax.push_back(isInt(n));
    if (kind == "ceil") ax.push_back(n >= x && n < x + 1);
    else if (kind == "floor") ax.push_back(n <= x && n > x - 1);
    else if (kind == "trunc") ax.push_back(z3::ite(x >= 0, n <= x && n > x - 1, n >= x && n < x + 1));
    else if (kind == "round") ax.push_back(n >= x - ctx.real_val(1, 2) && n <= x + ctx.real_val(1, 2));
    else throw EngineError{"integerPart " + kind};
    for (auto &kv : p.t) for (auto &f : kv.first.f) fld.atoms[a].deps.insert(f.first);
    intKey[key] = a;
    return a;
  }
  Val realToInt(State &st, const Poly &p, unsigned bits) {
    // already integral?
    int a = -1;
    if (p.t.size() == 1 && p.t.begin()->second == 1 && p.t.begin()->first.f.size() == 1 && p.t.begin()->first.f[0].second == 1) {
      for (auto &kv : intKey) if (kv.second == p.t.begin()->first.f[0].first) a = kv.second;
      for (auto &kv : bvAtom) if (kv.second == p.t.begin()->first.f[0].first) a = kv.second;
    }
    if (a < 0) a = integerPart("trunc", p);
    z3::expr n = fld.atoms[a].var;
    Q h(1);
    mpq_mul_2exp(h.get_mpq_t(), h.get_mpq_t(), bits - 1);
    Interval bi = fld.atoms[a].b;
    if (!bi.hasLo || bi.lo < -h || !bi.hasHi || bi.hi > h - 1) {
      if (!decide(st, n >= fld.num(-h) && n <= fld.num(h - 1)))
        throw PathError{"conversion of a floating-point value outside the range of the integer type"};
    }
    z3::model m(ctx);
    if (check(st, ctx.bool_val(true), &m, opt.branchMs, &n) == Res::SAT) {
      double v = realNum(m.eval(n, true));
      if (std::fabs(v) < 1e9) {
        z3::expr k = fld.num(Q(std::round(v)));
        bool wide = check(st, n > k + 40 || n < k - 40, nullptr, opt.branchMs) != Res::UNSAT;
        if (!wide) {
          if (!decide(st, n == k)) return realToInt(st, p, bits);
          return Val::I(bits, (uint64_t)(int64_t)std::round(v));
        }
      }
    }
    z3::expr e = ctx.bv_const(("f2i!" + std::to_string(a)).c_str(), bits);
    pins.push_back(e);
    bvAtom[e.id()] = a;
    return Val::E(K::SInt, bits, e);
  }
  Val intToReal(State &st, const Val &v, bool round) {
    z3::expr e = v.e();
    if (!e.is_const()) {
      // a linear combination of integer atoms that cannot wrap
      std::function<Poly(const z3::expr &)> lin = [&](const z3::expr &x) -> Poly {
        mpz_class u;
        if (BvInt::bvNum(x, u)) return Poly(Q(BvInt::sgn(u, x.get_sort().bv_size())));
        if (x.is_const()) return realOf(intToReal(st, Val::E(K::SInt, x.get_sort().bv_size(), x), false));
        auto k = x.decl().decl_kind();
        if (k == Z3_OP_ITE) return lin(decide(st, x.arg(0)) ? x.arg(1) : x.arg(2));
        if (k == Z3_OP_CONCAT) {  // a sign extension, rewritten by the simplifier
          z3::expr lo = x.arg(x.num_args() - 1);
          unsigned w = lo.get_sort().bv_size();
          for (unsigned i = 0; i + 1 < x.num_args(); i++) {
            z3::expr y = x.arg(i);
            if (y.decl().decl_kind() == Z3_OP_REPEAT) y = y.arg(0);
            if (!z3::eq(y, lo.extract(w - 1, w - 1).simplify()) && !z3::eq(y, lo.extract(w - 1, w - 1)))
              throw EngineError{"int-to-real of a composite term " + x.to_string().substr(0, 200)};
          }
          return lin(lo);
        }
        if (k != Z3_OP_SIGN_EXT && k != Z3_OP_BNEG && k != Z3_OP_BADD && k != Z3_OP_BSUB && k != Z3_OP_BMUL && k != Z3_OP_BSHL)
          throw EngineError{"int-to-real of a composite term " + x.decl().name().str()};
        Poly r = lin(x.arg(0));
        if (k == Z3_OP_SIGN_EXT) return r;
        if (k == Z3_OP_BSHL) {
          mpz_class n;
          if (!BvInt::bvNum(x.arg(1), n) || n >= 62) throw EngineError{"int-to-real of a shift"};
          Q f(1);
          mpq_mul_2exp(f.get_mpq_t(), f.get_mpq_t(), n.get_ui());
          return fld.mul(r, Poly(f));
        }
        if (k == Z3_OP_BNEG) return fld.neg(r);
        for (unsigned i = 1; i < x.num_args(); i++) {
          Poly y = lin(x.arg(i));
          if (k == Z3_OP_BADD) r = fld.add(r, y);
          else if (k == Z3_OP_BSUB) r = fld.sub(r, y);
          else if (k == Z3_OP_BMUL) r = fld.mul(r, y);
          else throw EngineError{"int-to-real of a composite term"};
        }
        return r;
      };
      Poly p = lin(e);
      Interval b = fld.bound(p);
      Q h(1);
      mpq_mul_2exp(h.get_mpq_t(), h.get_mpq_t(), v.bits - 1);
      if (!b.hasLo || !b.hasHi || b.lo < -h || b.hi > h - 1) throw EngineError{"int-to-real of a term that may wrap"};
      Q l2(1);
      mpq_mul_2exp(l2.get_mpq_t(), l2.get_mpq_t(), 53);
      if (!opt.round || !round || (b.lo >= -l2 && b.hi <= l2)) return mkReal(p);
      return mkReal(rounded(Instruction::SIToFP, p, Poly(Q(7)), p));
    }
    auto it = bvAtom.find(e.id());
    int a;
    if (it != bvAtom.end()) a = it->second;
    else {
      a = fld.newAtom("i2r(" + e.decl().name().str() + ")", AtomKind::Fresh);
      Interval b;
      b.hasLo = b.hasHi = true;
      Q h(1);
      mpq_mul_2exp(h.get_mpq_t(), h.get_mpq_t(), v.bits - 1);
      b.lo = -h;
      b.hi = h - 1;
      fld.setBounds(a, b);
      fld.atoms[a].axioms.push_back(isInt(fld.atoms[a].var));
      pins.push_back(e);
      bvAtom[e.id()] = a;
    }
    for (auto &in : st.inputs)
      if (in.e && in.e->id() == e.id() && in.kind == 0) {
        in.kind = 2;
        in.isInt = true;
        in.atom = a;
        in.e = fld.atoms[a].var;
      }
    Poly p = fld.var(a);
    if (!opt.round || !round) return Val::R(p);
    Q lim(1);
    mpq_mul_2exp(lim.get_mpq_t(), lim.get_mpq_t(), 53);
    Interval b = fld.atoms[a].b;
    if (b.hasLo && b.hasHi && b.lo >= -lim && b.hi <= lim) return Val::R(p);
    return mkReal(rounded(Instruction::SIToFP, p, Poly(Q(7)), p));
  }
  z3::expr cmpZero(const Poly &p, CmpInst::Predicate pr) {
    // p <pred> 0
    if (p.isConst()) {
      int s = sgn(p.constVal());
      bool r = false;
      switch (pr) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = s == 0; break;
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = s != 0; break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = s < 0; break;
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = s <= 0; break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = s > 0; break;
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = s >= 0; break;
        default: throw EngineError{"cmpZero"};
      }
      return ctx.bool_val(r);
    }
    Interval b = fld.bound(p);
    bool pos = b.hasLo && b.lo > 0, neg = b.hasHi && b.hi < 0, nn = b.hasLo && b.lo >= 0, np = b.hasHi && b.hi <= 0;
    switch (pr) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ:
        if (pos || neg) return ctx.bool_val(false);
        return normCmp(p, 0);
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE:
        if (pos || neg) return ctx.bool_val(true);
        return !normCmp(p, 0);
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT:
        if (nn) return ctx.bool_val(false);
        if (neg) return ctx.bool_val(true);
        return normCmp(p, -1);
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE:
        if (nn) return ctx.bool_val(true);
        if (neg) return ctx.bool_val(false);
        return !normCmp(p, -1);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT:
        if (np) return ctx.bool_val(false);
        if (pos) return ctx.bool_val(true);
        return normCmp(p, 1);
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE:
        if (np) return ctx.bool_val(true);
        if (pos) return ctx.bool_val(false);
        return !normCmp(p, 1);
      default:
        throw EngineError{"cmpZero pred"};
    }
  }
  // p < 0 (sg=-1), p > 0 (sg=1), p == 0 (sg=0), scaled so that syntactically
  // equal comparisons map to the same term
  z3::expr normCmp(const Poly &p, int sg) {
    Q lc = p.t.rbegin()->second;
    Poly q = fld.scale(p, 1 / lc);
    int s = lc < 0 ? -sg : sg;
    z3::expr e = fld.toZ3(q);
    if (s == 0) return e == 0;
    return s < 0 ? e < 0 : e > 0;
  }
  // results of x*x and sums of such: non-negative by construction
  std::set<Poly> sos;
  bool isSos(const Poly &p) { return p.isConst() ? p.constVal() >= 0 : sos.count(p) > 0; }
  bool nonneg(State &st, const Poly &p) {
    if (isSos(p)) return true;
    Interval b = fld.bound(p);
    if (b.hasLo && b.lo >= 0) return true;
    if (p.isConst()) return p.constVal() >= 0;
    if (b.hasHi && b.hi < 0) return false;
    return implied(st, cmpZero(p, CmpInst::FCMP_OGE));
  }
  Poly absR(State &st, const Poly &p) {
    if (p.isConst()) return Poly(Q(abs(p.constVal())));
    Interval b = fld.bound(p);
    if (b.hasLo && b.lo >= 0) return p;
    if (b.hasHi && b.hi <= 0) return fld.neg(p);
    bool ng = decide(st, cmpZero(p, CmpInst::FCMP_OLT), false);
    return ng ? fld.neg(p) : p;
  }
  Poly sqrtR(State &st, const Poly &p) {
    if (!nonneg(st, p)) {
      bool ng = decide(st, cmpZero(p, CmpInst::FCMP_OLT), false);
      if (ng) throw PathError{"square root of a negative number"};
    }
    auto [r, needAbs] = fld.sqrtOf(p);
    return needAbs ? absR(st, r) : r;
  }
  Poly divR(State &st, const Poly &a, const Poly &b) {
    if (b.zero()) throw PathError{"floating-point division by zero"};
    if (!b.isConst()) {
      Interval bi = fld.bound(b);
      bool nz = (bi.hasLo && bi.lo > 0) || (bi.hasHi && bi.hi < 0);
      if (!nz) {
        bool z = decide(st, cmpZero(b, CmpInst::FCMP_OEQ), false);
        if (z) {
          if (fld.isZero(b)) throw PathError{"floating-point division by zero"};
          throw PathError{"floating-point division by zero"};
        }
      }
    }
    return fld.div(a, b);
  }

  // ------------------------------------------------------------ execution helpers
  Val get(State &st, const Operand &o) {
    if (o.isReg) return st.fr().regs[o.reg];
    if (st.cur > 0 && tlsStride && o.c.k == K::Int && o.c.bits == 64 && o.ptr && o.c.c >= tlsLo && o.c.c < tlsLo + tlsStride)
      return Val::I(64, o.c.c + st.cur * tlsStride);
    return o.c;
  }
  void set(State &st, const InstInfo &ii, Val v) {
    if (ii.dst >= 0) st.fr().regs[ii.dst] = std::move(v);
  }
  std::string locOf(State &st) {
    // innermost frame with debug location inside the repository or harness
    std::string first;
    for (auto it = st.th().frames.rbegin(); it != st.th().frames.rend(); ++it) {
      if (it->pc >= it->fn->insts.size()) continue;
      Instruction *I = it->fn->insts[it->pc].I;
      DebugLoc d = I->getDebugLoc();
      while (d) {
        std::string f = d->getFilename().str();
        std::string s = f + ":" + std::to_string(d.getLine());
        if (first.empty()) first = s;
        if (f.find("resim/") != std::string::npos || f.find("/harness") != std::string::npos ||
            f.rfind("harness", 0) == 0 || f.find("verif") != std::string::npos)
          return s;
        d = d->getInlinedAt();
      }
    }
    return first.empty() ? "?" : first;
  }
  std::string cString(State &st, uint64_t a) {
    std::string s;
    for (int i = 0; i < 4096; i++) {
      Obj *o = findObj(st, a + i);
      if (!o) break;
      Byte &b = o->b[a + i - o->base];
      if (b.v) {
        s += '?';
        continue;
      }
      if (!b.c) break;
      s += (char)b.c;
    }
    return s;
  }

  // ---- failures
  static std::string jsonEsc(const std::string &s) {
    std::string r;
    for (char ch : s) {
      if (ch == '"' || ch == '\\') {
        r += '\\';
        r += ch;
      } else if (ch == '\n')
        r += "\\n";
      else if ((unsigned char)ch < 32)
        r += ' ';
      else
        r += ch;
    }
    return r;
  }
  static std::string dblStr(double d) {
    char buf[64];
    snprintf(buf, sizeof buf, "%a", d);
    return buf;
  }
  std::string valueOf(const Input &in, z3::model &m) {
    if (in.kind == 3) return in.conc;
    z3::expr v = m.eval(*in.e, true);
    if (in.kind == 0) {
      z3::expr n = v.simplify();
      if (in.bits == 1) return n.is_true() ? "1" : "0";
      if (in.bits <= 64 && n.is_numeral()) {
        uint64_t x = n.get_numeral_uint64();
        return std::to_string((int64_t)Val::I(in.bits, x).s());
      }
      return "0";
    }
    if (in.kind == 1) {
      z3::expr b = z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, v)).simplify();
      if (b.is_numeral()) {
        uint64_t x = b.get_numeral_uint64();
        double d;
        memcpy(&d, &x, 8);
        return dblStr(d);
      }
      return "nan";
    }
    if (in.isInt) return std::to_string((int64_t)std::llround(realNum(v)));
    return dblStr(realNum(v));
  }
  double realNum(const z3::expr &v) {
    if (v.is_numeral()) {
      std::string s = v.to_string();
      Q q;
      try {
        std::string num = Z3_get_numeral_string(ctx, v);
        q = Q(num);
        q.canonicalize();
        return q.get_d();
      } catch (...) {
      }
    }
    if (v.is_algebraic()) {
      std::string s = v.get_decimal_string(20);
      if (!s.empty() && s.back() == '?') s.pop_back();
      return strtod(s.c_str(), nullptr);
    }
    return 0;
  }
  Candidate candOf(State &st, z3::model &m, const std::string &msg, const std::string &loc, const std::string &kind) {
    Candidate c{msg, loc, kind, {}};
    for (auto &in : st.inputs) c.inputs.push_back({in.name, valueOf(in, m)});
    return c;
  }
  size_t candLimit() { return opt.round ? 10 * opt.candidates : opt.candidates; }
  void addFailure(State &st, const z3::expr &neg, const std::string &msg, const std::string &kind, Res known,
                  z3::model *m0, std::map<std::string, std::string> *extModel) {
    std::string loc = locOf(st);
    std::string key = kind + "|" + msg + "|" + loc;
    Failure &f = failures[key];
    f.msg = msg;
    f.loc = loc;
    f.kind = kind;
    if (f.verdict.empty() || known == Res::SAT) f.verdict = known == Res::SAT ? "sat" : "unknown";
    if (f.cands.size() >= candLimit()) return;
    if (known == Res::SAT && extModel && !extModel->empty()) {
      Candidate c{msg, loc, kind, {}};
      for (auto &in : st.inputs) {
        std::string v = in.conc;
        if (in.kind != 3 && in.e) {
          auto it = extModel->find(in.e->decl().name().str());
          v = it == extModel->end() ? "0" : smtVal(it->second, in);
        }
        c.inputs.push_back({in.name, v});
      }
      f.cands.push_back(c);
      return;
    }
    if (m0) f.cands.push_back(candOf(st, *m0, msg, loc, kind));
    if (opt.real) sampleCandidates(st, f, msg, loc, kind, m0);
  }
  std::string smtVal(const std::string &v, const Input &in) {
    if (v.rfind("#x", 0) == 0 || v.rfind("#b", 0) == 0) {
      uint64_t x = strtoull(v.c_str() + 2, nullptr, v[1] == 'x' ? 16 : 2);
      return std::to_string((int64_t)Val::I(in.bits, x).s());
    }
    if (v == "true") return "1";
    if (v == "false") return "0";
    if (v.rfind("(fp", 0) == 0) {
      uint64_t parts[3] = {0, 0, 0};
      int np = 0;
      std::istringstream is(v.substr(3));
      std::string t;
      int bl[3] = {1, 11, 52};
      while (is >> t && np < 3) {
        while (!t.empty() && t.back() == ')') t.pop_back();
        parts[np++] = strtoull(t.c_str() + 2, nullptr, t[1] == 'x' ? 16 : 2);
      }
      (void)bl;
      uint64_t x = (parts[0] << 63) | (parts[1] << 52) | parts[2];
      double d;
      memcpy(&d, &x, 8);
      return dblStr(d);
    }
    if (v.find("+oo") != std::string::npos) return "inf";
    if (v.find("-oo") != std::string::npos) return "-inf";
    if (v.find("NaN") != std::string::npos) return "nan";
    if (v.find("+zero") != std::string::npos) return "0x0p+0";
    if (v.find("-zero") != std::string::npos) return "-0x0p+0";
    return "0";
  }
  // Restricted queries: pick values for the real inputs at random and let the
  // solver decide whether the path condition admits them.
  std::map<int, std::array<int, 3>> unitGroups;  // first atom -> atoms
  std::map<int, std::array<int, 3>> trigGroups;  // angle atom -> (h, s, c)
  void sampleCandidates(State &st, Failure &f, const std::string &msg, const std::string &loc, const std::string &kind,
                        z3::model *m0) {
    std::uniform_real_distribution<double> U(0, 1);
    // With every rounding allowed the solver's witness need not be one the hardware rounds to: try
    // more, also values close to the witness.
    const int tries = opt.round && m0 ? 200 : 40;
    const size_t limit = opt.round && m0 ? std::min(candLimit(), f.cands.size() + 2 * opt.candidates) : opt.candidates;
    const double stop = elapsed() + 20;
    for (int k = 0; k < tries && f.cands.size() < limit && elapsed() < stop; k++) {
      const bool nearby = opt.round && m0 && k % 2 == 1;
      Candidate c{msg, loc, kind, {}};
      z3::expr_vector fix(ctx);
      std::map<int, double> val;
      for (auto &in : st.inputs) {
        if (in.kind != 2) continue;
        if (val.count(in.atom)) continue;
        auto ug = unitGroups.find(in.atom);
        if (ug != unitGroups.end()) {
          // rational point on the sphere by stereographic projection
          int A = (int)(U(rng) * 21) - 10, B = (int)(U(rng) * 21) - 10, D = 1 + (int)(U(rng) * 10);
          Q s(A, D), t(B, D);
          s.canonicalize();
          t.canonicalize();
          Q n = 1 + s * s + t * t;
          Q q[3] = {2 * s / n, 2 * t / n, (s * s + t * t - 1) / n};
          int r = (int)(U(rng) * 3);
          for (int i = 0; i < 3; i++) {
            int at = ug->second[i];
            val[at] = q[(i + r) % 3].get_d();
            fix.push_back(fld.atoms[at].var == fld.num(q[(i + r) % 3]));
          }
          continue;
        }
        const Interval &b = fld.atoms[in.atom].b;
        double lo = b.hasLo ? b.lo.get_d() : -10, hi = b.hasHi ? b.hi.get_d() : 10;
        double v;
        switch (k % 4) {
          case 0: v = lo + (hi - lo) * U(rng); break;
          case 1: v = std::round(8 * (lo + (hi - lo) * U(rng))) / 8; break;
          case 2: v = (U(rng) < 0.3) ? lo : (U(rng) < 0.3 ? hi : lo + (hi - lo) * U(rng)); break;
          default: v = lo + (hi - lo) * std::pow(10.0, -6 * U(rng)); break;
        }
        if (nearby) {
          const std::string w = valueOf(in, *m0);
          const double d = strtod(w.c_str(), nullptr);
          if (k / 2 % 3 == 0)
            v = d * (1 + (U(rng) - .5) * std::pow(2., -1 - 50 * U(rng)));
          else if (k / 2 % 3 == 1)
            v = d + (hi - lo) * (U(rng) - .5) * std::pow(2., -1 - 30 * U(rng));
          else if (U(rng) < .5)
            continue;  // left to the solver
          if (in.isInt || !std::isfinite(v)) v = d;
        }
        if (v < lo) v = lo;
        if (v > hi) v = hi;
        if (in.isInt) v = std::floor(v);
        val[in.atom] = v;
        auto tg = trigGroups.find(in.atom);
        fix.push_back(fld.atoms[in.atom].var == fld.num(Q(v)));
        if (tg != trigGroups.end()) {
          double s = std::sin(v), co = std::cos(v);
          z3::expr sv = fld.atoms[tg->second[1]].var, cv = fld.atoms[tg->second[2]].var;
          Q e("1/1000000000");
          fix.push_back(sv >= fld.num(Q(s) - e) && sv <= fld.num(Q(s) + e));
          fix.push_back(cv >= fld.num(Q(co) - e) && cv <= fld.num(Q(co) + e));
        }
      }
      z3::model m(ctx);
      Res r = check(st, fix.empty() ? ctx.bool_val(true) : z3::mk_and(fix), &m, 1500, nullptr, true);
      if (r == Res::UNSAT) continue;
      for (auto &in : st.inputs) {
        if (in.kind == 2 && !val.count(in.atom))
          c.inputs.push_back({in.name, r == Res::SAT ? valueOf(in, m) : valueOf(in, *m0)});
        else if (in.kind == 2)
          c.inputs.push_back({in.name, in.isInt ? std::to_string((int64_t)val[in.atom]) : dblStr(val[in.atom])});
        else if (r == Res::SAT)
          c.inputs.push_back({in.name, valueOf(in, m)});
        else
          c.inputs.push_back({in.name, in.kind == 3 ? in.conc : "0"});
      }
      f.cands.push_back(c);
      if (fix.empty()) break;
    }
  }
  void doAssert(State &st, const Val &v, const std::string &msg) {
    nAsserts++;
    assertCount[msg]++;
    if (v.k == K::Int && (v.c & 1)) return;
    z3::expr c = boolE(v);
    z3::expr neg = (!c).simplify();
    if (neg.is_false()) return;
    // already failed on other paths with enough candidates: just assume
    z3::model m(ctx);
    std::map<std::string, std::string> em;
    nAssertQ++;
    Res r = check(st, neg, &m, opt.assertMs, nullptr, true, true, &em);
    if (r == Res::UNSAT) return;
    addFailure(st, neg, msg, "assert", r, r == Res::SAT && em.empty() ? &m : nullptr, &em);
    Res rr = neg.is_true() ? Res::UNSAT : check(st, c, nullptr, opt.branchMs);
    if (rr == Res::UNSAT) throw PathEnd{"assertion failed on the whole path"};
    st.pc.push_back(c);
  }
  void doNear(State &st, const Val &a, const Val &b, double eps, const std::string &msg) {
    nAsserts++;
    assertCount[msg]++;
    if (a.k == K::Dbl && b.k == K::Dbl) {
      if (std::fabs(a.d() - b.d()) <= eps) return;
      addFailure(st, ctx.bool_val(true), msg, "assert", Res::SAT, modelNow(st), nullptr);
      throw PathEnd{"assertion failed"};
    }
    if (!opt.real) {
      // |a-b| <= eps in IEEE arithmetic
      z3::expr x = fp(a), y = fp(b);
      z3::expr d(ctx, Z3_mk_fpa_abs(ctx, z3::expr(ctx, Z3_mk_fpa_sub(ctx, rne(), x, y))));
      z3::expr ok(ctx, Z3_mk_fpa_leq(ctx, d, fpc(eps)));
      z3::expr eq(ctx, Z3_mk_fpa_eq(ctx, x, y));
      doAssert(st, fromBool(ok || eq), msg);
      return;
    }
    Poly d = fld.sub(realOf(a), realOf(b));
    nAssertQ++;
    if (fld.isZero(d)) {
      // Discharged by the solver on the normal form: 0 > eps is unsatisfiable.
      nIdent++;
      z3::solver s(ctx);
      s.add(fld.num(Q(0)) > fld.num(Q(eps)));
      nQueries++;
      if (s.check() == z3::unsat) nUnsat++;
      return;
    }
    // linear abstraction: every monomial is a fresh bounded variable
    {
      z3::solver s(ctx, "QF_LRA");
      z3::expr_vector sum(ctx);
      int k = 0;
      for (auto &kv : d.t) {
        z3::expr v = ctx.real_const(("m!" + std::to_string(k++)).c_str());
        Interval bi = fld.boundMono(kv.first);
        if (bi.hasLo) s.add(v >= fld.num(bi.lo));
        if (bi.hasHi) s.add(v <= fld.num(bi.hi));
        sum.push_back(fld.num(kv.second) * v);
      }
      z3::expr t = z3::sum(sum);
      z3::expr E = fld.num(Q(eps));
      s.add(t > E || t < -E);
      auto t1 = std::chrono::steady_clock::now();
      nQueries++;
      auto r = s.check();
      solverS += std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count();
      if (r == z3::unsat) {
        nUnsat++;
        return;
      }
      nSat++;
    }
    z3::expr t = fld.toZ3(d), E = fld.num(Q(eps));
    z3::expr neg = t > E || t < -E;
    z3::model m(ctx);
    if (opt.verbose) std::cerr << "[near] " << msg << " residual " << fld.str(d) << " @" << locOf(st) << "\n";
    std::string key = "assert|" + msg + "|" + locOf(st);
    auto fit = failures.find(key);
    bool enough = fit != failures.end() && fit->second.cands.size() >= candLimit();
    Res r = enough ? Res::UNK : check(st, neg, &m, opt.assertMs, nullptr, true, false);
    if (r == Res::UNSAT) return;
    addFailure(st, neg, msg, "assert", r, r == Res::SAT ? &m : nullptr, nullptr);
  }
  std::optional<z3::model> nowModel;
  z3::model *modelNow(State &st) {
    z3::model m(ctx);
    Res r = check(st, ctx.bool_val(true), &m, opt.assertMs, nullptr, true);
    if (r != Res::SAT) return nullptr;
    nowModel = m;
    return &*nowModel;
  }
  void errorHere(State &st, const std::string &msg) {
    z3::model m(ctx);
    std::map<std::string, std::string> em;
    Res r = check(st, ctx.bool_val(true), &m, opt.assertMs, nullptr, true, !opt.real, &em);
    if (r == Res::UNSAT) return;  // infeasible (over-approximated branch)
    addFailure(st, ctx.bool_val(true), msg, "error", r, r == Res::SAT && em.empty() ? &m : nullptr, &em);
  }

  // ------------------------------------------------------------ FP helpers
  // kept alive for the whole run: the C interface does not hold references for us
  std::optional<z3::expr> rneKeep;
  std::optional<z3::sort> f64Keep, f32Keep;
  const z3::expr &rne() {
    if (!rneKeep) rneKeep = z3::expr(ctx, Z3_mk_fpa_round_nearest_ties_to_even(ctx));
    return *rneKeep;
  }
  const z3::sort &f64() {
    if (!f64Keep) f64Keep = z3::sort(ctx, Z3_mk_fpa_sort_double(ctx));
    return *f64Keep;
  }
  const z3::sort &f32() {
    if (!f32Keep) f32Keep = z3::sort(ctx, Z3_mk_fpa_sort_single(ctx));
    return *f32Keep;
  }
  // --fpabs: the result of floating-point arithmetic on symbolic operands is any double
  // (the same one for the same operation on the same operands); comparisons stay exact.
  std::map<std::tuple<std::string, unsigned, unsigned>, z3::expr> fpAbsMemo;
  std::vector<z3::expr> fpAbsKeep;
  Val fpAbs(const std::string &op, const Val &a, const Val &b, unsigned bits) {
    z3::expr x = fp(a), y = fp(b);
    auto key = std::make_tuple(op, Z3_get_ast_id(ctx, x), Z3_get_ast_id(ctx, y));
    auto it = fpAbsMemo.find(key);
    if (it == fpAbsMemo.end()) {
      fpAbsKeep.push_back(x);
      fpAbsKeep.push_back(y);
      z3::expr v(ctx, Z3_mk_fresh_const(ctx, "fpabs", x.get_sort()));
      it = fpAbsMemo.emplace(key, v).first;
    }
    return Val::E(K::SFp, bits, it->second);
  }
  z3::expr fpc(double d) { return z3::expr(ctx, Z3_mk_fpa_numeral_double(ctx, d, f64())); }
  z3::expr fp(const Val &v) {
    if (v.k == K::Dbl) return fpc(v.d());
    if (v.k == K::Flt) return z3::expr(ctx, Z3_mk_fpa_numeral_float(ctx, v.fl(), f32()));
    if (v.k == K::SFp) return v.e();
    throw EngineError{"fp operand"};
  }

#include "exec.inc"
#include "externals.inc"
};

}  // namespace sx

int main(int argc, char **argv) {
  sx::Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") o.entry = nxt();
    else if (a == "--out") o.out = nxt();
    else if (a == "--tmp") o.tmp = nxt();
    else if (a == "--real") o.real = true;
    else if (a == "--round") o.real = o.round = true;
    else if (a == "--fpabs") o.fpabs = true;
    else if (a == "--abs-round") o.absRound = true;
    else if (a == "--branch-ms") o.branchMs = std::stoul(nxt());
    else if (a == "--assert-ms") o.assertMs = std::stoul(nxt());
    else if (a == "--portfolio-s") o.portfolioS = std::stoul(nxt());
    else if (a == "--total-s") o.totalS = std::stod(nxt());
    else if (a == "--max-paths") o.maxPaths = std::stoull(nxt());
    else if (a == "--max-steps") o.maxSteps = std::stoull(nxt());
    else if (a == "--seed") o.seed = std::stoul(nxt());
    else if (a == "-v") o.verbose = true;
    else o.module = a;
  }
  sx::Engine e;
  e.opt = o;
  e.rng.seed(o.seed);
  int rc = e.run();
  std::cout.flush();
  _exit(rc);
}
