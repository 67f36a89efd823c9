// Instruction semantics (member functions of Engine).

Val intBin(State &st, unsigned op, const Val &a, const Val &b, unsigned bits) {
  if (a.k == K::Int && b.k == K::Int && bits <= 64) {
    uint64_t x = a.c, y = b.c;
    int64_t sx_ = a.s(), sy = b.s();
    switch (op) {
      case Instruction::Add: return Val::I(bits, x + y);
      case Instruction::Sub: return Val::I(bits, x - y);
      case Instruction::Mul: return Val::I(bits, x * y);
      case Instruction::And: return Val::I(bits, x & y);
      case Instruction::Or: return Val::I(bits, x | y);
      case Instruction::Xor: return Val::I(bits, x ^ y);
      case Instruction::Shl: return Val::I(bits, y >= bits ? 0 : x << y);
      case Instruction::LShr: return Val::I(bits, y >= bits ? 0 : x >> y);
      case Instruction::AShr: return Val::I(bits, (uint64_t)(sx_ >> (y >= bits ? bits - 1 : y)));
      case Instruction::UDiv: if (!y) throw PathError{"integer division by zero"}; return Val::I(bits, x / y);
      case Instruction::URem: if (!y) throw PathError{"integer division by zero"}; return Val::I(bits, x % y);
      case Instruction::SDiv:
        if (!y) throw PathError{"integer division by zero"};
        if (sy == -1) return Val::I(bits, -(uint64_t)sx_);
        return Val::I(bits, (uint64_t)(sx_ / sy));
      case Instruction::SRem:
        if (!y) throw PathError{"integer division by zero"};
        if (sy == -1) return Val::I(bits, 0);
        return Val::I(bits, (uint64_t)(sx_ % sy));
    }
  }
  if (bits == 1) {
    z3::expr x = boolE(a), y = boolE(b);
    switch (op) {
      case Instruction::And: return fromBool(x && y);
      case Instruction::Or: return fromBool(x || y);
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(x != y);
      case Instruction::Mul: return fromBool(x && y);
      default: throw EngineError{"i1 op"};
    }
  }
  if ((a.k == K::SReal || b.k == K::SReal)) {
    // sign-bit manipulation of a boxed real
    const Val &r = a.k == K::SReal ? a : b;
    const Val &m = a.k == K::SReal ? b : a;
    if (m.k == K::Int && op == Instruction::Xor && m.c == (1ULL << 63)) return mkReal(fld.neg(r.poly()));
    if (m.k == K::Int && op == Instruction::And && m.c == ~(1ULL << 63)) return mkReal(absR(st, r.poly()));
    throw EngineError{"integer operation on an exact-arithmetic real value"};
  }
  z3::expr x = bv(a), y = bv(b);
  auto divCheck = [&]() {
    z3::expr z = (y == ctx.bv_val(0, bits));
    if (b.k == K::Int) {
      if (!b.c) throw PathError{"integer division by zero"};
    } else if (decide(st, z, false))
      throw PathError{"integer division by zero"};
  };
  switch (op) {
    case Instruction::Add: return fromBV(x + y, bits);
    case Instruction::Sub: return fromBV(x - y, bits);
    case Instruction::Mul: return fromBV(x * y, bits);
    case Instruction::And: return fromBV(x & y, bits);
    case Instruction::Or: return fromBV(x | y, bits);
    case Instruction::Xor: return fromBV(x ^ y, bits);
    case Instruction::Shl: return fromBV(z3::shl(x, y), bits);
    case Instruction::LShr: return fromBV(z3::lshr(x, y), bits);
    case Instruction::AShr: return fromBV(z3::ashr(x, y), bits);
    case Instruction::UDiv: divCheck(); return fromBV(z3::udiv(x, y), bits);
    case Instruction::URem: divCheck(); return fromBV(z3::urem(x, y), bits);
    case Instruction::SDiv: divCheck(); return fromBV(x / y, bits);
    case Instruction::SRem: divCheck(); return fromBV(z3::srem(x, y), bits);
  }
  throw EngineError{"int op"};
}

Val fpBin(State &st, unsigned op, const Val &a, const Val &b) {
  if (a.k == K::Flt && b.k == K::Flt) {
    float x = a.fl(), y = b.fl();
    switch (op) {
      case Instruction::FAdd: return Val::F(x + y);
      case Instruction::FSub: return Val::F(x - y);
      case Instruction::FMul: return Val::F(x * y);
      case Instruction::FDiv: return Val::F(x / y);
      case Instruction::FRem: return Val::F(std::fmod(x, y));
    }
  }
  if (a.k == K::Dbl && b.k == K::Dbl) {
    double x = a.d(), y = b.d();
    switch (op) {
      case Instruction::FAdd: return Val::D(x + y);
      case Instruction::FSub: return Val::D(x - y);
      case Instruction::FMul: return Val::D(x * y);
      case Instruction::FDiv: return Val::D(x / y);
      case Instruction::FRem: return Val::D(std::fmod(x, y));
    }
  }
  if (opt.real) {
    Poly x = realOf(a), y = realOf(b);
    switch (op) {
      case Instruction::FAdd: {
        Poly r = fld.add(x, y);
        if (!opt.round && isSos(x) && isSos(y)) sos.insert(r);
        return mkReal(rounded(op, x, y, r));
      }
      case Instruction::FSub: return mkReal(rounded(op, x, y, fld.sub(x, y)));
      case Instruction::FMul: {
        Poly r = fld.mul(x, y);
        if (!opt.round && x == y) sos.insert(r);
        return mkReal(rounded(op, x, y, r));
      }
      case Instruction::FDiv: return mkReal(rounded(op, x, y, divR(st, x, y)));
    }
    throw EngineError{"real op"};
  }
  if (opt.fpabs) return fpAbs(std::to_string(op), a, b, a.bits);
  z3::expr x = fp(a), y = fp(b);
  Z3_ast r;
  switch (op) {
    case Instruction::FAdd: r = Z3_mk_fpa_add(ctx, rne(), x, y); break;
    case Instruction::FSub: r = Z3_mk_fpa_sub(ctx, rne(), x, y); break;
    case Instruction::FMul: r = Z3_mk_fpa_mul(ctx, rne(), x, y); break;
    case Instruction::FDiv: r = Z3_mk_fpa_div(ctx, rne(), x, y); break;
    default: throw EngineError{"fp op"};
  }
  return Val::E(K::SFp, a.bits, z3::expr(ctx, r));
}

Val icmp(State &st, CmpInst::Predicate p, const Val &a, const Val &b) {
  if (a.k == K::Int && b.k == K::Int) {
    uint64_t x = a.c, y = b.c;
    int64_t s = a.s(), t = b.s();
    bool r = false;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = s > t; break;
      case CmpInst::ICMP_SGE: r = s >= t; break;
      case CmpInst::ICMP_SLT: r = s < t; break;
      case CmpInst::ICMP_SLE: r = s <= t; break;
      default: break;
    }
    return Val::I(1, r);
  }
  if (a.bits == 1 && b.bits == 1) {
    z3::expr x = boolE(a), y = boolE(b);
    if (p == CmpInst::ICMP_EQ) return fromBool(x == y);
    if (p == CmpInst::ICMP_NE) return fromBool(x != y);
    if (p == CmpInst::ICMP_ULT) return fromBool(!x && y);
    if (p == CmpInst::ICMP_UGT) return fromBool(x && !y);
    throw EngineError{"icmp i1"};
  }
  if (a.k == K::SReal || b.k == K::SReal) {
    // bitwise (in)equality of boxed reals: treat as numeric equality
    if (a.k == K::SReal && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
      Val bb = b;
      if (bb.k == K::Int) bb = Val::D(Val{K::Dbl, 64, b.c, nullptr}.d());
      Poly d = fld.sub(a.poly(), realOf(bb));
      return fromBool(cmpZero(d, p == CmpInst::ICMP_EQ ? CmpInst::FCMP_OEQ : CmpInst::FCMP_ONE));
    }
    throw EngineError{"icmp on real"};
  }
  z3::expr x = bv(a), y = bv(b);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromBool(x == y);
    case CmpInst::ICMP_NE: return fromBool(x != y);
    case CmpInst::ICMP_UGT: return fromBool(z3::ugt(x, y));
    case CmpInst::ICMP_UGE: return fromBool(z3::uge(x, y));
    case CmpInst::ICMP_ULT: return fromBool(z3::ult(x, y));
    case CmpInst::ICMP_ULE: return fromBool(z3::ule(x, y));
    case CmpInst::ICMP_SGT: return fromBool(x > y);
    case CmpInst::ICMP_SGE: return fromBool(x >= y);
    case CmpInst::ICMP_SLT: return fromBool(x < y);
    case CmpInst::ICMP_SLE: return fromBool(x <= y);
    default: throw EngineError{"icmp pred"};
  }
}

Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (p == CmpInst::FCMP_TRUE) return Val::I(1, 1);
  if (p == CmpInst::FCMP_FALSE) return Val::I(1, 0);
  bool conc = (a.k == K::Dbl || a.k == K::Flt) && (b.k == K::Dbl || b.k == K::Flt);
  if (conc) {
    double x = a.k == K::Dbl ? a.d() : a.fl(), y = b.k == K::Dbl ? b.d() : b.fl();
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
      case CmpInst::FCMP_OEQ: r = !un && x == y; break;
      case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break;
      case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break;
      case CmpInst::FCMP_UNE: r = un || x != y; break;
      default: break;
    }
    return Val::I(1, r);
  }
  if (opt.real) {
    if (p == CmpInst::FCMP_ORD) return Val::I(1, 1);
    if (p == CmpInst::FCMP_UNO) return Val::I(1, 0);
    // comparisons against infinities
    auto inf = [&](const Val &v) { return v.k == K::Dbl && !std::isfinite(v.d()); };
    if (inf(a) || inf(b)) {
      if ((inf(a) && std::isnan(a.d())) || (inf(b) && std::isnan(b.d()))) return Val::I(1, p >= CmpInst::FCMP_UNO);
      bool less = inf(a) ? a.d() < 0 : b.d() > 0;  // a < b
      switch (p) {
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE:
          return Val::I(1, less);
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE:
          return Val::I(1, !less);
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return Val::I(1, 0);
        default: return Val::I(1, 1);
      }
    }
    Poly d = fld.sub(realOf(a), realOf(b));
    return fromBool(cmpZero(d, p));
  }
  z3::expr x = fp(a), y = fp(b);
  auto E = [&](Z3_ast t) { return z3::expr(ctx, t); };
  z3::expr un = E(Z3_mk_fpa_is_nan(ctx, x)) || E(Z3_mk_fpa_is_nan(ctx, y));
  z3::expr r(ctx);
  switch (p) {
    case CmpInst::FCMP_OEQ: r = E(Z3_mk_fpa_eq(ctx, x, y)); break;
    case CmpInst::FCMP_OGT: r = E(Z3_mk_fpa_gt(ctx, x, y)); break;
    case CmpInst::FCMP_OGE: r = E(Z3_mk_fpa_geq(ctx, x, y)); break;
    case CmpInst::FCMP_OLT: r = E(Z3_mk_fpa_lt(ctx, x, y)); break;
    case CmpInst::FCMP_OLE: r = E(Z3_mk_fpa_leq(ctx, x, y)); break;
    case CmpInst::FCMP_ONE: r = !un && !E(Z3_mk_fpa_eq(ctx, x, y)); break;
    case CmpInst::FCMP_ORD: r = !un; break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = un || E(Z3_mk_fpa_eq(ctx, x, y)); break;
    case CmpInst::FCMP_UGT: r = !E(Z3_mk_fpa_leq(ctx, x, y)); break;
    case CmpInst::FCMP_UGE: r = !E(Z3_mk_fpa_lt(ctx, x, y)); break;
    case CmpInst::FCMP_ULT: r = !E(Z3_mk_fpa_geq(ctx, x, y)); break;
    case CmpInst::FCMP_ULE: r = !E(Z3_mk_fpa_gt(ctx, x, y)); break;
    case CmpInst::FCMP_UNE: r = !E(Z3_mk_fpa_eq(ctx, x, y)); break;
    default: throw EngineError{"fcmp"};
  }
  return fromBool(r);
}

Val castOp(State &st, unsigned op, const Val &a0, Type *from, Type *to) {
  if (a0.k == K::Agg) {
    std::vector<Val> v;
    if (op == Instruction::BitCast) throw EngineError{"vector bitcast"};
    for (auto &x : a0.p->agg)
      v.push_back(castOp(st, op, x, cast<FixedVectorType>(from)->getElementType(),
                         cast<FixedVectorType>(to)->getElementType()));
    return Val::A(v);
  }
  Val a = a0;
  unsigned n = tbits(to);
  switch (op) {
    case Instruction::Trunc:
      if (a.k == K::Int && n <= 64) return Val::I(n, a.c);
      if (n == 1) return fromBV(bv(a).extract(0, 0), 1);
      return fromBV(bv(a).extract(n - 1, 0), n);
    case Instruction::ZExt:
      if (a.k == K::Int && n <= 64) return Val::I(n, a.c);
      if (a.bits == 1 && n <= 64) return fromBV(z3::ite(boolE(a), ctx.bv_val(1, n), ctx.bv_val(0, n)), n);
      return fromBV(z3::zext(bv(a), n - a.bits), n);
    case Instruction::SExt:
      if (a.k == K::Int && n <= 64) return Val::I(n, (uint64_t)a.s());
      if (a.bits == 1) return fromBV(z3::ite(boolE(a), ctx.bv_val(-1, n), ctx.bv_val(0, n)), n);
      return fromBV(z3::sext(bv(a), n - a.bits), n);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (a.k == K::Int) return Val::I(n, a.c);
      if (a.bits == n) return a;
      throw EngineError{"ptr cast"};
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
      return coerce(a, to);
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
      if (a.k == K::SInt && opt.round && op == Instruction::SIToFP && !to->isFloatTy()) return intToReal(st, a, true);
      if (a.k == K::SInt && opt.real) a = concretize(st, a, 4096);
      if (a.k == K::Int) {
        double d = op == Instruction::SIToFP ? (double)a.s() : (double)a.c;
        if (to->isFloatTy()) return Val::F(op == Instruction::SIToFP ? (float)a.s() : (float)a.c);
        return Val::D(d);
      }
      z3::expr x = bv(a);
      const z3::sort srt = to->isFloatTy() ? f32() : f64();
      Z3_ast r = op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(ctx, rne(), x, srt)
                                           : Z3_mk_fpa_to_fp_unsigned(ctx, rne(), x, srt);
      return Val::E(K::SFp, n, z3::expr(ctx, r));
    }
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
      if (a.k == K::Dbl || a.k == K::Flt) {
        double d = a.k == K::Dbl ? a.d() : a.fl();
        if (!(std::fabs(d) < 1.9e19)) return Val::I(n, 1ULL << (n - 1));
        if (op == Instruction::FPToSI) return Val::I(n, (uint64_t)(int64_t)d);
        return Val::I(n, (uint64_t)d);
      }
      if (a.k == K::SReal) return realToInt(st, a.poly(), n);
      z3::expr rtz(ctx, Z3_mk_fpa_round_toward_zero(ctx));
      Z3_ast r = op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(ctx, rtz, fp(a), n) : Z3_mk_fpa_to_ubv(ctx, rtz, fp(a), n);
      return Val::E(K::SInt, n, z3::expr(ctx, r));
    }
    case Instruction::FPExt:
      if (a.k == K::Flt) return Val::D(a.fl());
      return Val::E(K::SFp, 64, z3::expr(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fp(a), f64())));
    case Instruction::FPTrunc:
      if (a.k == K::Dbl) return Val::F((float)a.d());
      if (opt.real) throw EngineError{"fptrunc in exact-arithmetic mode"};
      return Val::E(K::SFp, 32, z3::expr(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fp(a), f32())));
  }
  throw EngineError{"cast"};
}

Val selectV(State &st, const Val &c, const Val &a, const Val &b) {
  if (c.k == K::Int) return (c.c & 1) ? a : b;
  if (a.k == K::Agg || a.k == K::SReal || b.k == K::SReal || (opt.real && (a.k == K::Dbl || b.k == K::Dbl)))
    return decide(st, boolE(c)) ? a : b;
  if (a.k == K::SFp || b.k == K::SFp || a.k == K::Dbl || a.k == K::Flt) {
    // same double?
    return Val::E(K::SFp, a.bits, z3::ite(boolE(c), fp(a), fp(b)));
  }
  if (a.bits == 1) return fromBool((boolE(c) && boolE(a)) || (!boolE(c) && boolE(b)));
  if (a.k == K::Int && b.k == K::Int && a.c == b.c) return a;
  // pointers: fork so that addresses stay concrete
  if (a.bits == 64 && a.k == K::Int && b.k == K::Int && (a.c >= 0x100000 || b.c >= 0x100000))
    return decide(st, boolE(c)) ? a : b;
  return fromBV(z3::ite(boolE(c), bv(a), bv(b)), a.bits);
}

Val binop(State &st, const InstInfo &ii, const Val &a, const Val &b) {
  if (a.k == K::Agg) {
    std::vector<Val> v;
    auto *et = cast<FixedVectorType>(ii.I->getType())->getElementType();
    InstInfo jj = ii;
    jj.bits = tbits(et);
    for (size_t i = 0; i < a.p->agg.size(); i++) v.push_back(binop(st, jj, a.p->agg[i], b.p->agg[i]));
    return Val::A(v);
  }
  switch (ii.op) {
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      return fpBin(st, ii.op, a, b);
    default:
      return intBin(st, ii.op, a, b, ii.bits);
  }
}

void gotoBB(State &st, const BasicBlock *to) {
  Frame &f = st.fr();
  const BasicBlock *from = f.fn->insts[f.pc].I->getParent();
  f.prev = from;
  unsigned pc = f.fn->bbStart[to];
  // evaluate phis in parallel
  std::vector<std::pair<int, Val>> vals;
  while (f.fn->insts[pc].op == Instruction::PHI) {
    const InstInfo &ii = f.fn->insts[pc];
    auto *phi = cast<PHINode>(ii.I);
    int k = phi->getBasicBlockIndex(from);
    if (k < 0) throw EngineError{"phi"};
    vals.push_back({ii.dst, get(st, ii.ops[k])});
    pc++;
  }
  for (auto &v : vals) f.regs[v.first] = v.second;
  f.pc = pc;
}

void pushFrame(State &st, Function *F, const std::vector<Val> &args, CallBase *cb) {
  FnInfo *fi = info(F);
  fi->executed = true;
  if (st.th().frames.size() > 400) throw EngineError{"call depth"};
  Frame f;
  f.fn = fi;
  f.regs.resize(fi->nregs);
  for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) f.regs[i] = args[i];
  f.call = cb;
  f.pc = 0;
  st.th().frames.push_back(std::move(f));
  // byval arguments get their own copy
  unsigned i = 0;
  for (auto &a : F->args()) {
    if (a.hasByValAttr()) {
      uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
      uint64_t p = allocObj(st, n, 1, "byval");
      memcopy(st, p, concAddr(st, st.fr().regs[i]), n);
      st.fr().allocas.push_back(p);
      st.fr().regs[i] = Val::I(64, p);
    }
    i++;
  }
}
void popFrame(State &st) {
  for (uint64_t a : st.fr().allocas) st.mem.erase(a);
  st.th().frames.pop_back();
}
// finish a call instruction in the current frame with result v
void finishCall(State &st, CallBase *cb, const Val &v) {
  Frame &f = st.fr();
  if (!cb->getType()->isVoidTy()) f.regs[f.fn->reg[cb]] = v;
  if (auto *inv = dyn_cast<InvokeInst>(cb))
    gotoBB(st, inv->getNormalDest());
  else
    f.pc++;
}

// ---- exceptions
int typeId(uint64_t ti) {
  auto it = typeIds.find(ti);
  if (it != typeIds.end()) return it->second;
  int n = (int)typeIds.size() + 1;
  typeIds[ti] = n;
  return n;
}
std::map<uint64_t, int> typeIds;
uint64_t gvAddr(const std::string &n) {
  auto *g = M->getNamedGlobal(n);
  if (!g) return 0;
  return gaddr[g];
}
// Is type `t` equal to or derived from `c` (by name)?
bool typeMatches(uint64_t t, uint64_t c) {
  if (t == c) return true;
  static const std::map<std::string, std::string> known = {
      {"_ZTISt12out_of_range", "_ZTISt11logic_error"},   {"_ZTISt12length_error", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
      {"_ZTISt13runtime_error", "_ZTISt9exception"},     {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
      {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
      {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
      {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}};
  std::string cn;
  auto ic = addr2gv.find(c);
  if (ic != addr2gv.end()) cn = ic->second->getName().str();
  std::function<bool(const GlobalVariable *, int)> walk = [&](const GlobalVariable *g, int d) -> bool {
    if (!g || d > 8) return false;
    if (g->getName() == cn) return true;
    if (g->hasInitializer()) {
      auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
      if (!cs) return false;
      for (unsigned i = 2; i < cs->getNumOperands(); i++)
        if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()))
          if (walk(b, d + 1)) return true;
      return false;
    }
    std::string n = g->getName().str();
    while (known.count(n)) {
      n = known.at(n);
      if (n == cn) return true;
    }
    return false;
  };
  auto it = addr2gv.find(t);
  if (it != addr2gv.end()) return walk(it->second, 0);
  return false;
}
uint64_t fakeTypeInfo(const std::string &name) {
  // type info of a library exception; uses the module's external global if present
  uint64_t a = gvAddr(name);
  if (a) return a;
  auto it = fakeTI.find(name);
  if (it != fakeTI.end()) return it->second;
  auto *G = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, name);
  uint64_t addr = 0xF0000000ULL + 64 * fakeTI.size();
  fakeTI[name] = addr;
  gaddr[G] = addr;
  addr2gv[addr] = G;
  return addr;
}
std::map<std::string, uint64_t> fakeTI;

void throwNow(State &st, uint64_t obj, uint64_t ti) {
  st.th().inflight = Exc{obj, ti};
  unwind(st, true);
}
void throwLib(State &st, const std::string &ti) {
  uint64_t o = allocObj(st, 64, 2, "exception");
  for (auto &b : writable(st, o)->b) b.init = true;
  throwNow(st, o, fakeTypeInfo(ti));
}
void unwind(State &st, bool atCall) {
  Thread &t = st.th();
  CallBase *site = nullptr;
  if (atCall) site = dyn_cast<CallBase>(st.fr().fn->insts[st.fr().pc].I);
  while (true) {
    if (site)
      if (auto *inv = dyn_cast<InvokeInst>(site)) {
        auto *lp = inv->getLandingPadInst();
        bool go = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses() && !go; i++) {
          if (lp->isCatch(i)) {
            Val c = constVal(lp->getClause(i));
            if (c.k == K::Int && (c.c == 0 || typeMatches(t.inflight.tinfo, c.c))) go = true;
          } else
            go = true;  // filter
        }
        if (go) {
          gotoBB(st, inv->getUnwindDest());
          return;
        }
      }
    site = st.fr().call;
    popFrame(st);
    if (t.frames.empty()) {
      std::string n = "?";
      auto it = addr2gv.find(t.inflight.tinfo);
      if (it != addr2gv.end()) n = llvm::demangle(it->second->getName().str());
      throw PathError{"uncaught exception (" + n + ")"};
    }
  }
}
Val landingPad(State &st, LandingPadInst *lp) {
  Thread &t = st.th();
  int sel = 0;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) {
      Val c = constVal(lp->getClause(i));
      if (c.c == 0 || typeMatches(t.inflight.tinfo, c.c)) {
        sel = typeId(c.c);
        break;
      }
    } else {
      sel = -1;
      break;
    }
  }
  return Val::A({Val::I(64, t.inflight.obj), Val::I(32, (uint32_t)sel)});
}

// ---- threads
std::vector<int> runnable(State &st) {
  std::vector<int> r;
  for (int i = 0; i < (int)st.threads.size(); i++) {
    auto &t = st.threads[i];
    if (t.done) continue;
    if (t.waitMutex) {
      auto it = st.mutexes.find(t.waitMutex);
      if (it != st.mutexes.end() && it->second.first >= 0) continue;
    }
    if (t.waitJoin >= 0 && !st.threads[t.waitJoin].done) continue;
    r.push_back(i);
  }
  return r;
}
// Choose the thread to run next; returns true if the current thread continues.
void chooseThread(State &st) {
  auto rs = runnable(st);
  if (rs.empty()) {
    bool all = true;
    for (auto &t : st.threads) all = all && t.done;
    if (all) throw PathEnd{"done"};
    throw PathError{"deadlock"};
  }
  int pick = rs[0];
  if (rs.size() > 1) {
    std::string nm = "sched#" + std::to_string(st.schedN);
    z3::expr v = ctx.bv_const(nm.c_str(), 8);
    for (size_t i = 0; i + 1 < rs.size(); i++) {
      if (decide(st, v == ctx.bv_val(rs[i], 8))) {
        pick = rs[i];
        break;
      }
      pick = rs[i + 1];
    }
    Input in;
    in.name = nm;
    in.kind = 3;
    in.conc = std::to_string(pick);
    st.inputs.push_back(in);
    st.schedN++;
  }
  st.cur = pick;
}
// A scheduling point in front of the current instruction.  Returns false if
// another thread was chosen (the instruction must not execute now).
bool schedPoint(State &st) {
  if (st.threads.size() < 2) return true;
  if (st.schedDone) {
    st.schedDone = false;
    return true;
  }
  int before = st.cur;
  chooseThread(st);
  if (st.cur == before) return true;
  // The chosen thread may itself be parked in front of a scheduling point.
  st.schedDone = st.counters["parked" + std::to_string(st.cur)] != 0;
  st.counters["parked" + std::to_string(before)] = 1;
  st.counters["parked" + std::to_string(st.cur)] = 0;
  return false;
}

// If the path condition admits a single value for this operand, use it.
bool concretizeUnique(State &st, const Operand &op) {
  if (!op.isReg) return false;
  Val v = get(st, op);
  if (v.k != K::SInt || v.bits < 8 || v.bits > 64) return false;
  if (v.e().is_const()) return false;  // a free input
  z3::model m(ctx);
  z3::expr same = v.e() == v.e();
  Res r = check(st, ctx.bool_val(true), &m, opt.branchMs, &v.e(), true);
  (void)same;
  if (r != Res::SAT) return false;
  z3::expr val = m.eval(v.e(), true);
  if (!val.is_numeral()) return false;
  if (check(st, v.e() != val, nullptr, opt.branchMs) != Res::UNSAT) return false;
  Val c = Val::I(v.bits, val.get_numeral_uint64());
  // every register of this frame holding the same term
  for (auto &x : st.fr().regs)
    if (x.k == K::SInt && x.bits == v.bits && x.e().id() == v.e().id()) x = c;
  return true;
}

// ---- one step
void step(State &st) {
  if (st.th().frames.empty()) {  // forked while choosing the successor of a finished thread
    threadDone(st);
    return;
  }
  Frame &f = st.fr();
  const InstInfo &ii = f.fn->insts[f.pc];
  Instruction *I = ii.I;
  nSteps++;
  st.steps++;
  switch (ii.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub:
    case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (ii.op == Instruction::SDiv || ii.op == Instruction::SRem || ii.op == Instruction::UDiv ||
          ii.op == Instruction::URem)
        concretizeUnique(st, ii.ops[1]);
      else if (ii.op == Instruction::Mul && get(st, ii.ops[0]).k == K::SInt && get(st, ii.ops[1]).k == K::SInt) {
        if (!concretizeUnique(st, ii.ops[0])) concretizeUnique(st, ii.ops[1]);
      }
      Val r = binop(st, ii, get(st, ii.ops[0]), get(st, ii.ops[1]));
      set(st, ii, r);
      st.fr().pc++;
      return;
    }
    case Instruction::FNeg: {
      Val a = get(st, ii.ops[0]);
      std::function<Val(const Val &)> ng = [&](const Val &x) -> Val {
        if (x.k == K::Dbl) return Val::D(-x.d());
        if (x.k == K::Flt) return Val::F(-x.fl());
        if (x.k == K::SReal) return mkReal(fld.neg(x.poly()));
        if (x.k == K::Agg) {
          std::vector<Val> v;
          for (auto &y : x.p->agg) v.push_back(ng(y));
          return Val::A(v);
        }
        return Val::E(K::SFp, x.bits, z3::expr(ctx, Z3_mk_fpa_neg(ctx, fp(x))));
      };
      set(st, ii, ng(a));
      f.pc++;
      return;
    }
    case Instruction::ICmp: {
      Val r = icmp(st, cast<CmpInst>(I)->getPredicate(), get(st, ii.ops[0]), get(st, ii.ops[1]));
      set(st, ii, r);
      f.pc++;
      return;
    }
    case Instruction::FCmp: {
      Val r = fcmp(cast<CmpInst>(I)->getPredicate(), get(st, ii.ops[0]), get(st, ii.ops[1]));
      set(st, ii, r);
      f.pc++;
      return;
    }
    case Instruction::Select: {
      Val r = selectV(st, get(st, ii.ops[0]), get(st, ii.ops[1]), get(st, ii.ops[2]));
      set(st, ii, r);
      f.pc++;
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI:
    case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc:
    case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::AddrSpaceCast: {
      Val r = castOp(st, ii.op, get(st, ii.ops[0]), I->getOperand(0)->getType(), I->getType());
      set(st, ii, r);
      f.pc++;
      return;
    }
    case Instruction::Freeze:
      set(st, ii, get(st, ii.ops[0]));
      f.pc++;
      return;
    case Instruction::GetElementPtr: {
      auto *gep = cast<GetElementPtrInst>(I);
      Val base = get(st, ii.ops[0]);
      uint64_t off = 0;
      std::optional<z3::expr> sym;
      unsigned k = 1;
      for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi, ++k) {
        Val idx = get(st, ii.ops[k]);
        if (StructType *s = gi.getStructTypeOrNull()) {
          off += DL->getStructLayout(s)->getElementOffset(idx.c);
        } else {
          uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
          if (idx.k == K::Int)
            off += (uint64_t)idx.s() * es;
          else {
            z3::expr e = bv(idx);
            if (idx.bits < 64) e = z3::sext(e, 64 - idx.bits);
            e = e * ctx.bv_val((uint64_t)es, 64);
            sym = sym ? *sym + e : e;
          }
        }
      }
      if (!sym && base.k == K::Int)
        set(st, ii, Val::I(64, base.c + off));
      else {
        z3::expr e = bv(base) + ctx.bv_val((uint64_t)off, 64);
        if (sym) e = e + *sym;
        set(st, ii, fromBV(e, 64));
      }
      f.pc++;
      return;
    }
    case Instruction::Alloca: {
      auto *ai = cast<AllocaInst>(I);
      Val n = get(st, ii.ops[0]);
      n = concretize(st, n, 64);
      uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n.c;
      uint64_t a = allocObj(st, sz, 1, "alloca", std::max<uint64_t>(16, ai->getAlign().value()));
      Frame &g = st.fr();
      g.allocas.push_back(a);
      set(st, ii, Val::I(64, a));
      g.pc++;
      return;
    }
    case Instruction::Load: {
      uint64_t a = concAddr(st, get(st, ii.ops[0]));
      Val v = load(st, a, I->getType(), cast<LoadInst>(I)->isAtomic());
      set(st, ii, v);
      st.fr().pc++;
      return;
    }
    case Instruction::Store: {
      uint64_t a = concAddr(st, get(st, ii.ops[1]));
      store(st, a, get(st, ii.ops[0]), I->getOperand(0)->getType(), cast<StoreInst>(I)->isAtomic());
      st.fr().pc++;
      return;
    }
    case Instruction::AtomicRMW: {
      auto *rm = cast<AtomicRMWInst>(I);
      uint64_t a = concAddr(st, get(st, ii.ops[0]));
      Type *t = I->getType();
      Val old = load(st, a, t, true), v = get(st, ii.ops[1]), nw;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Add: nw = intBin(st, Instruction::Add, old, v, ii.bits); break;
        case AtomicRMWInst::Sub: nw = intBin(st, Instruction::Sub, old, v, ii.bits); break;
        case AtomicRMWInst::Xchg: nw = v; break;
        case AtomicRMWInst::And: nw = intBin(st, Instruction::And, old, v, ii.bits); break;
        case AtomicRMWInst::Or: nw = intBin(st, Instruction::Or, old, v, ii.bits); break;
        default: throw EngineError{"atomicrmw"};
      }
      store(st, a, nw, t, true);
      set(st, ii, old);
      st.fr().pc++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      uint64_t a = concAddr(st, get(st, ii.ops[0]));
      Type *t = I->getOperand(1)->getType();
      Val old = load(st, a, t, true);
      Val eq = icmp(st, CmpInst::ICMP_EQ, old, get(st, ii.ops[1]));
      bool e = eq.k == K::Int ? eq.c : decide(st, boolE(eq));
      if (e) store(st, a, get(st, ii.ops[2]), t, true);
      set(st, ii, Val::A({old, Val::I(1, e)}));
      st.fr().pc++;
      return;
    }
    case Instruction::Fence:
      f.pc++;
      return;
    case Instruction::ExtractValue: {
      Val v = get(st, ii.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) {
        Val w = v.p->agg[i];
        v = w;
      }
      set(st, ii, v);
      f.pc++;
      return;
    }
    case Instruction::InsertValue: {
      Val agg = get(st, ii.ops[0]), v = get(st, ii.ops[1]);
      auto idx = cast<InsertValueInst>(I)->getIndices();
      std::function<Val(const Val &, size_t)> ins = [&](const Val &a, size_t d) -> Val {
        if (d == idx.size()) return v;
        std::vector<Val> n = a.p->agg;
        n[idx[d]] = ins(n[idx[d]], d + 1);
        return Val::A(n);
      };
      set(st, ii, ins(agg, 0));
      f.pc++;
      return;
    }
    case Instruction::ExtractElement: {
      Val v = get(st, ii.ops[0]), k = get(st, ii.ops[1]);
      k = concretize(st, k, 64);
      set(st, ii, Val(v.p->agg.at(k.c)));
      st.fr().pc++;
      return;
    }
    case Instruction::InsertElement: {
      Val v = get(st, ii.ops[0]), x = get(st, ii.ops[1]), k = get(st, ii.ops[2]);
      k = concretize(st, k, 64);
      std::vector<Val> n = v.p->agg;
      n.at(k.c) = x;
      set(st, ii, Val::A(n));
      st.fr().pc++;
      return;
    }
    case Instruction::ShuffleVector: {
      Val a = get(st, ii.ops[0]), b = get(st, ii.ops[1]);
      std::vector<Val> n;
      for (int m : cast<ShuffleVectorInst>(I)->getShuffleMask()) {
        size_t na = a.p->agg.size();
        if (m < 0)
          n.push_back(a.p->agg[0]);
        else
          n.push_back((size_t)m < na ? a.p->agg[m] : b.p->agg[m - na]);
      }
      set(st, ii, Val::A(n));
      f.pc++;
      return;
    }
    case Instruction::Br: {
      auto *br = cast<BranchInst>(I);
      if (br->isUnconditional()) {
        gotoBB(st, br->getSuccessor(0));
        return;
      }
      Val c = get(st, ii.ops[0]);
      bool t = c.k == K::Int ? (c.c & 1) : decide(st, boolE(c));
      gotoBB(st, br->getSuccessor(t ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I);
      Val c = get(st, ii.ops[0]);
      BasicBlock *dest = sw->getDefaultDest();
      for (auto &cs : sw->cases()) {
        Val k = constVal(cs.getCaseValue());
        bool eq;
        if (c.k == K::Int)
          eq = c.c == k.c;
        else
          eq = decide(st, boolE(icmp(st, CmpInst::ICMP_EQ, c, k)));
        if (eq) {
          dest = cs.getCaseSuccessor();
          break;
        }
      }
      gotoBB(st, dest);
      return;
    }
    case Instruction::Ret: {
      Val v;
      if (I->getNumOperands()) v = get(st, ii.ops[0]);
      CallBase *cb = f.call;
      popFrame(st);
      if (st.th().frames.empty()) {
        threadDone(st);
        return;
      }
      if (cb)
        finishCall(st, cb, v);
      // cb == nullptr: a frame pushed by the engine (global constructor)
      return;
    }
    case Instruction::Unreachable:
      throw PathError{"unreachable executed"};
    case Instruction::LandingPad:
      set(st, ii, landingPad(st, cast<LandingPadInst>(I)));
      f.pc++;
      return;
    case Instruction::Resume:
      unwind(st, false);
      return;
    case Instruction::Call:
    case Instruction::Invoke:
      doCall(st, cast<CallBase>(I), ii);
      return;
    default:
      throw EngineError{std::string("instruction ") + I->getOpcodeName()};
  }
}
void threadDone(State &st) {
  st.th().done = true;
  if (st.threads.size() == 1 || st.cur == 0) throw PathEnd{"done"};
  chooseThread(st);
  st.schedDone = st.counters["parked" + std::to_string(st.cur)] != 0;
  st.counters["parked" + std::to_string(st.cur)] = 0;
}

void doCall(State &st, CallBase *cb, const InstInfo &ii) {
  if (cb->isInlineAsm()) {
    // empty asm barriers only
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    const auto &text = ia->getAsmString();
    if (text.empty() || (text[0] == '#' && text.find('\n') == std::string::npos)) {
      if (cb->getType()->isVoidTy()) {
        st.fr().pc++;
        return;
      }
      finishCall(st, cb, get(st, ii.ops[0]));
      return;
    }
    // a processor that reveals nothing about its caches
    if (ia->getAsmString().find("cpuid") != std::string::npos && cb->getType()->isStructTy()) {
      finishCall(st, cb, zeroOf(cb->getType()));
      return;
    }
    throw EngineError{"inline asm: " + std::string(ia->getAsmString())};
  }
  std::vector<Val> args;
  for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(get(st, ii.ops[i]));
  Function *F = cb->getCalledFunction();
  if (!F) {
    if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts()))
      F = dyn_cast<Function>(ga->getAliaseeObject());
  }
  if (!F) {
    Val t = get(st, ii.ops.back());
    // operand order: args..., (normal, unwind) bbs, callee last
    uint64_t a = concAddr(st, t);
    auto it = faddr.find(a);
    if (it == faddr.end()) throw PathError{a == 0 ? "call through null pointer" : "call through bad pointer"};
    F = it->second;
  }
  if (F->isIntrinsic()) {
    intrinsic(st, cb, F, args);
    return;
  }
  std::string name = F->getName().str();
  auto e = ext.find(name);
  if (e != ext.end()) {
    size_t depth = st.th().frames.size();
    int tid = st.cur;
    callHandled = false;
    Val r = e->second(st, cb, args);
    (void)depth;
    (void)tid;
    if (!callHandled) finishCall(st, cb, r);
    return;
  }
  if (F->isDeclaration()) {
    if (prefixStub(st, cb, name, args)) return;
    throw EngineError{"external function " + llvm::demangle(name) + " [" + name + "]"};
  }
  pushFrame(st, F, args, cb);
}
bool callHandled = false;
