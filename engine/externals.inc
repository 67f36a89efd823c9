// Models of intrinsics, libc/libstdc++ entry points and harness primitives.

Val uniOp(State &st, const Val &a, const char *what) {
  std::string w = what;
  if (a.k == K::Agg) {
    std::vector<Val> v;
    for (auto &x : a.p->agg) v.push_back(uniOp(st, x, what));
    return Val::A(v);
  }
  if (a.k == K::Dbl) {
    double x = a.d();
    if (w == "fabs") return Val::D(std::fabs(x));
    if (w == "sqrt") return Val::D(std::sqrt(x));
    if (w == "floor") return Val::D(std::floor(x));
    if (w == "ceil") return Val::D(std::ceil(x));
    if (w == "trunc") return Val::D(std::trunc(x));
    if (w == "rint" || w == "nearbyint" || w == "roundeven") return Val::D(std::nearbyint(x));
    if (w == "round") return Val::D(std::round(x));
    if (w == "sin") return Val::D(std::sin(x));
    if (w == "cos") return Val::D(std::cos(x));
    if (w == "tan") return Val::D(std::tan(x));
    if (w == "acos") return Val::D(std::acos(x));
    if (w == "asin") return Val::D(std::asin(x));
    if (w == "atan") return Val::D(std::atan(x));
    if (w == "exp") return Val::D(std::exp(x));
    if (w == "log") return Val::D(std::log(x));
  }
  if (a.k == K::Flt && w == "ceil") return Val::F(std::ceil(a.fl()));
  if (opt.real) {
    Poly p = realOf(a);
    if (w == "fabs") return mkReal(absR(st, p));
    if (w == "sqrt") return mkReal(sqrtR(st, p));
    if (w == "sin" || w == "cos") {
      auto [s, c] = fld.sinCos(p);
      return mkReal(w == "sin" ? s : c);
    }
    if (w == "ceil" || w == "floor" || w == "trunc" || w == "round") return Val::R(fld.var(integerPart(w, p)));
    throw EngineError{"real function " + w};
  }
  if (opt.fpabs && w != "fabs") return fpAbs(w, a, a, a.bits);
  z3::expr x = fp(a);
  auto rnd = [&](Z3_ast rm) {
    return Val::E(K::SFp, a.bits, z3::expr(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, x)));
  };
  if (w == "fabs") return Val::E(K::SFp, a.bits, z3::expr(ctx, Z3_mk_fpa_abs(ctx, x)));
  if (w == "sqrt") return Val::E(K::SFp, a.bits, z3::expr(ctx, Z3_mk_fpa_sqrt(ctx, rne(), x)));
  if (w == "floor") return rnd(z3::expr(ctx, Z3_mk_fpa_round_toward_negative(ctx)));
  if (w == "ceil") return rnd(z3::expr(ctx, Z3_mk_fpa_round_toward_positive(ctx)));
  if (w == "trunc") return rnd(z3::expr(ctx, Z3_mk_fpa_round_toward_zero(ctx)));
  if (w == "rint" || w == "nearbyint") return rnd(rne());
  if (w == "round") return rnd(z3::expr(ctx, Z3_mk_fpa_round_nearest_ties_to_away(ctx)));
  throw EngineError{"fp function " + w};
}

Val binF(State &st, const Val &a, const Val &b, const std::string &w) {
  if (a.k == K::Agg) {
    std::vector<Val> v;
    for (size_t i = 0; i < a.p->agg.size(); i++) v.push_back(binF(st, a.p->agg[i], b.p->agg[i], w));
    return Val::A(v);
  }
  if (a.k == K::Dbl && b.k == K::Dbl) {
    double x = a.d(), y = b.d();
    if (w == "fmin") return Val::D(std::fmin(x, y));
    if (w == "fmax") return Val::D(std::fmax(x, y));
    if (w == "copysign") return Val::D(std::copysign(x, y));
    if (w == "atan2") return Val::D(std::atan2(x, y));
    if (w == "pow") return Val::D(std::pow(x, y));
    if (w == "fmod") return Val::D(std::fmod(x, y));
    if (w == "hypot") return Val::D(std::hypot(x, y));
  }
  if (opt.real) {
    Poly x = realOf(a), y = realOf(b);
    if (w == "atan2") {
      return mkReal(fld.atan2Of(x, y, [&](const Poly &p) { return nonneg(st, p); }));
    }
    if (w == "fmin" || w == "fmax") {
      bool lt = decide(st, cmpZero(fld.sub(x, y), CmpInst::FCMP_OLT));
      return (lt == (w == "fmin")) ? a : b;
    }
    if (w == "hypot") return mkReal(sqrtR(st, fld.add(fld.mul(x, x), fld.mul(y, y))));
    if (w == "copysign") {
      Poly m = absR(st, x);
      bool ng = y.isConst() ? sgn(y.constVal()) < 0 : decide(st, cmpZero(y, CmpInst::FCMP_OLT), false);
      return mkReal(ng ? fld.neg(m) : m);
    }
    throw EngineError{"real function " + w};
  }
  if (opt.fpabs && w != "fmin" && w != "fmax" && w != "copysign") return fpAbs(w, a, b, 64);
  if (w == "fmin") return Val::E(K::SFp, 64, z3::expr(ctx, Z3_mk_fpa_min(ctx, fp(a), fp(b))));
  if (w == "fmax") return Val::E(K::SFp, 64, z3::expr(ctx, Z3_mk_fpa_max(ctx, fp(a), fp(b))));
  if (w == "copysign") {
    z3::expr y = bv(b), x = bv(a);
    z3::expr r = (x & ctx.bv_val((uint64_t)~(1ULL << 63), 64)) | (y & ctx.bv_val((uint64_t)(1ULL << 63), 64));
    return Val::E(K::SFp, 64, z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, r, f64())));
  }
  throw EngineError{"fp function " + w};
}

Val fma3(State &st, const Val &a, const Val &b, const Val &c, bool fused) {
  if (a.k == K::Agg) {
    std::vector<Val> v;
    for (size_t i = 0; i < a.p->agg.size(); i++) v.push_back(fma3(st, a.p->agg[i], b.p->agg[i], c.p->agg[i], fused));
    return Val::A(v);
  }
  if (fused && a.k == K::Dbl && b.k == K::Dbl && c.k == K::Dbl) return Val::D(std::fma(a.d(), b.d(), c.d()));
  return fpBin(st, Instruction::FAdd, fpBin(st, Instruction::FMul, a, b), c);
}

void intrinsic(State &st, CallBase *cb, Function *F, std::vector<Val> &args) {
  unsigned bits = tbits(cb->getType());
  auto fin = [&](const Val &v) { finishCall(st, cb, v); };
  auto none = [&]() { finishCall(st, cb, Val{}); };
  auto cmpSel = [&](CmpInst::Predicate p) {
    Val c = icmp(st, p, args[0], args[1]);
    fin(selectV(st, c, args[0], args[1]));
  };
  auto overflow = [&](unsigned op, bool sgnd) {
    unsigned n = args[0].bits;
    Val r = intBin(st, op, args[0], args[1], n);
    if (args[0].k == K::Int && args[1].k == K::Int && n <= 64) {
      __int128 x = sgnd ? (__int128)args[0].s() : (__int128)args[0].c, y = sgnd ? (__int128)args[1].s() : (__int128)args[1].c;
      __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : 0;
      bool o;
      if (op == Instruction::Mul && !sgnd) {
        unsigned __int128 m = (unsigned __int128)args[0].c * args[1].c;
        o = (m >> n) != 0;
      } else {
        if (op == Instruction::Mul) z = x * y;
        o = z != (sgnd ? (__int128)r.s() : (__int128)r.c);
      }
      return Val::A({r, Val::I(1, o)});
    }
    z3::expr x = bv(args[0]), y = bv(args[1]);
    unsigned w = op == Instruction::Mul ? 2 * n : n + 1;
    z3::expr X = sgnd ? z3::sext(x, w - n) : z3::zext(x, w - n), Y = sgnd ? z3::sext(y, w - n) : z3::zext(y, w - n);
    if (op == Instruction::Mul && sgnd) {
      z3::expr ok = z3::bvmul_no_overflow(x, y, true) && z3::bvmul_no_underflow(x, y);
      return Val::A({r, fromBool(!ok)});
    }
    z3::expr Z = op == Instruction::Add ? X + Y : op == Instruction::Sub ? X - Y : X * Y;
    z3::expr R = bv(r);
    z3::expr E = sgnd ? z3::sext(R, w - n) : z3::zext(R, w - n);
    return Val::A({r, fromBool(Z != E)});
  };
  switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch:
    case Intrinsic::var_annotation:
      return none();
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return fin(Val::I(64, 0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy:
      return fin(args[0]);
    case Intrinsic::is_constant: return fin(Val::I(1, 0));
    case Intrinsic::objectsize: return fin(Val::I(bits, ~0ULL));
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw PathError{"trap"};
    case Intrinsic::memcpy: case Intrinsic::memmove: {
      Val n = concretize(st, args[2], 256);
      memcopy(st, concAddr(st, args[0]), concAddr(st, args[1]), n.c);
      return none();
    }
    case Intrinsic::memset: {
      Val n = concretize(st, args[2], 256);
      doMemset(st, concAddr(st, args[0]), args[1], n.c);
      return none();
    }
    case Intrinsic::umax: return cmpSel(CmpInst::ICMP_UGT);
    case Intrinsic::umin: return cmpSel(CmpInst::ICMP_ULT);
    case Intrinsic::smax: return cmpSel(CmpInst::ICMP_SGT);
    case Intrinsic::smin: return cmpSel(CmpInst::ICMP_SLT);
    case Intrinsic::abs: {
      Val z = mkInt(bits, 0);
      Val ng = intBin(st, Instruction::Sub, z, args[0], bits);
      return fin(selectV(st, icmp(st, CmpInst::ICMP_SLT, args[0], z), ng, args[0]));
    }
    case Intrinsic::sadd_with_overflow: return fin(overflow(Instruction::Add, true));
    case Intrinsic::uadd_with_overflow: return fin(overflow(Instruction::Add, false));
    case Intrinsic::ssub_with_overflow: return fin(overflow(Instruction::Sub, true));
    case Intrinsic::usub_with_overflow: return fin(overflow(Instruction::Sub, false));
    case Intrinsic::smul_with_overflow: return fin(overflow(Instruction::Mul, true));
    case Intrinsic::umul_with_overflow: return fin(overflow(Instruction::Mul, false));
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      bool add = F->getIntrinsicID() == Intrinsic::sadd_sat;
      unsigned op = add ? Instruction::Add : Instruction::Sub;
      Val d = intBin(st, op, args[0], args[1], bits), z = mkInt(bits, 0);
      Val neg = icmp(st, CmpInst::ICMP_SLT, args[0], z);
      uint64_t mx = bits == 64 ? (uint64_t)INT64_MAX : (1ULL << (bits - 1)) - 1, mn = 1ULL << (bits - 1);
      // overflow exactly when the result moved the wrong way
      Val down = icmp(st, CmpInst::ICMP_SLT, d, args[0]), bneg = icmp(st, CmpInst::ICMP_SLT, args[1], z), bpos = icmp(st, CmpInst::ICMP_SGT, args[1], z);
      Val up = icmp(st, CmpInst::ICMP_SGT, d, args[0]);
      Val one = Val::I(1, 1), nil = Val::I(1, 0);
      Val o1 = selectV(st, add ? bpos : bneg, down, nil), o2 = selectV(st, add ? bneg : bpos, up, nil);
      Val o = selectV(st, o1, one, o2);
      return fin(selectV(st, o, selectV(st, neg, mkInt(bits, mn), mkInt(bits, mx)), d));
    }
    case Intrinsic::usub_sat: {
      Val d = intBin(st, Instruction::Sub, args[0], args[1], bits);
      return fin(selectV(st, icmp(st, CmpInst::ICMP_ULT, args[0], args[1]), mkInt(bits, 0), d));
    }
    case Intrinsic::uadd_sat: {
      Val d = intBin(st, Instruction::Add, args[0], args[1], bits);
      return fin(selectV(st, icmp(st, CmpInst::ICMP_ULT, d, args[0]), mkInt(bits, ~0ULL), d));
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
      Val a = concretize(st, args[0], 4096);
      uint64_t x = a.c;
      uint64_t r;
      if (F->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(x);
      else if (x == 0) r = bits;
      else if (F->getIntrinsicID() == Intrinsic::cttz) r = __builtin_ctzll(x);
      else r = __builtin_clzll(x) - (64 - bits);
      return fin(Val::I(bits, r));
    }
    case Intrinsic::bswap: {
      if (args[0].k == K::Int) {
        uint64_t r = 0;
        for (unsigned i = 0; i < bits / 8; i++) r |= ((args[0].c >> (8 * i)) & 0xff) << (bits - 8 - 8 * i);
        return fin(Val::I(bits, r));
      }
      z3::expr x = bv(args[0]);
      z3::expr r = x.extract(7, 0);
      for (unsigned i = 1; i < bits / 8; i++) r = z3::concat(r, x.extract(8 * i + 7, 8 * i));
      return fin(fromBV(r, bits));
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool l = F->getIntrinsicID() == Intrinsic::fshl;
      if (args[2].k != K::Int) throw EngineError{"fsh symbolic amount"};
      unsigned s = args[2].c % bits;
      if (args[0].k == K::Int && args[1].k == K::Int && bits <= 64) {
        uint64_t a = args[0].c, b = args[1].c;
        if (s == 0) return fin(l ? args[0] : args[1]);
        uint64_t r = l ? (a << s) | (b >> (bits - s)) : (a << (bits - s)) | (b >> s);
        return fin(Val::I(bits, r));
      }
      z3::expr c = z3::concat(bv(args[0]), bv(args[1]));
      if (l) return fin(fromBV(c.extract(2 * bits - 1 - s, bits - s), bits));
      return fin(fromBV(c.extract(bits - 1 + s, s), bits));
    }
    case Intrinsic::fabs: return fin(uniOp(st, args[0], "fabs"));
    case Intrinsic::sqrt: return fin(uniOp(st, args[0], "sqrt"));
    case Intrinsic::floor: return fin(uniOp(st, args[0], "floor"));
    case Intrinsic::ceil: return fin(uniOp(st, args[0], "ceil"));
    case Intrinsic::trunc: return fin(uniOp(st, args[0], "trunc"));
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return fin(uniOp(st, args[0], "rint"));
    case Intrinsic::round: return fin(uniOp(st, args[0], "round"));
    case Intrinsic::sin: return fin(uniOp(st, args[0], "sin"));
    case Intrinsic::cos: return fin(uniOp(st, args[0], "cos"));
    case Intrinsic::minnum: return fin(binF(st, args[0], args[1], "fmin"));
    case Intrinsic::maxnum: return fin(binF(st, args[0], args[1], "fmax"));
    case Intrinsic::copysign: return fin(binF(st, args[0], args[1], "copysign"));
    case Intrinsic::pow: return fin(binF(st, args[0], args[1], "pow"));
    case Intrinsic::fmuladd: return fin(fma3(st, args[0], args[1], args[2], false));
    case Intrinsic::fma: return fin(fma3(st, args[0], args[1], args[2], true));
    case Intrinsic::is_fpclass: {
      unsigned mask = args[1].c;
      if (args[0].k == K::Dbl) {
        double d = args[0].d();
        bool r = false;
        if ((mask & 3) && std::isnan(d)) r = true;
        if ((mask & 4) && d == -INFINITY) r = true;
        if ((mask & 512) && d == INFINITY) r = true;
        if ((mask & 0x1f8) && std::isfinite(d)) r = true;
        return fin(Val::I(1, r));
      }
      if (opt.real) return fin(Val::I(1, (mask & 0x1f8) ? 1 : 0));
      throw EngineError{"is.fpclass"};
    }
    case Intrinsic::eh_typeid_for: return fin(Val::I(32, typeId(args[0].c)));
    default:
      throw EngineError{"intrinsic " + F->getName().str()};
  }
}
void doMemset(State &st, uint64_t a, const Val &v, uint64_t n) {
  if (!n) return;
  Obj *o = checkAccess(st, a, n, true);
  race(st, a, n, true);
  for (uint64_t i = 0; i < n; i++) rawStore(*o, a + i, v, 1);
}
void freeObj(State &st, uint64_t a) {
  if (!a) return;
  auto it = st.mem.find(a);
  if (it == st.mem.end() || it->second->kind != 2) throw PathError{"invalid or double free"};
  if (st.threads.size() > 1) {
    race(st, a, std::max<uint64_t>(1, it->second->size), true);
    for (uint64_t g = a >> 3; g <= (a + it->second->size) >> 3; ++g) st.acc.erase(g);
  }
  st.mem.erase(it);
}
uint64_t heap(State &st, uint64_t n) { return allocObj(st, n, 2, "heap"); }
std::string uniqueName(State &st, const std::string &n) {
  int k = st.nameCount[n]++;
  return k == 0 ? n : n + "#" + std::to_string(k);
}
Val symInt(State &st, const std::string &n0, unsigned bits) {
  std::string n = uniqueName(st, n0);
  z3::expr e = bits == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), bits);
  Input in;
  in.name = n;
  in.kind = 0;
  in.bits = bits;
  in.e = e;
  st.inputs.push_back(in);
  return Val::E(K::SInt, bits, e);
}
void assume(State &st, const Val &v) {
  if (v.k == K::Int) {
    if (!(v.c & 1)) throw PathEnd{"assume"};
    return;
  }
  z3::expr c = boolE(v).simplify();
  if (c.is_true()) return;
  Res r = check(st, c, nullptr, opt.branchMs);
  if (r == Res::UNSAT) throw PathEnd{"assume"};
  pins.push_back(c);
  st.pc.push_back(c);
  z3::expr nc = (!c).simplify();
  pins.push_back(nc);
  st.decided[Z3_get_ast_id(ctx, c)] = true;
  st.decided[Z3_get_ast_id(ctx, nc)] = false;
}
Val symReal(State &st, const std::string &n0, double lo, double hi) {
  std::string n = uniqueName(st, n0);
  if (!opt.real) {
    z3::expr e(ctx, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), f64()));
    Input in;
    in.name = n;
    in.kind = 1;
    in.e = e;
    st.inputs.push_back(in);
    Val v = Val::E(K::SFp, 64, e);
    if (!(std::isnan(lo) && std::isnan(hi))) {
      assume(st, fcmp(CmpInst::FCMP_OGE, v, Val::D(lo)));
      assume(st, fcmp(CmpInst::FCMP_OLE, v, Val::D(hi)));
    }
    return v;
  }
  int a;
  auto it = realInputs.find(n);
  if (it != realInputs.end())
    a = it->second;
  else {
    a = fld.newAtom(n, AtomKind::Input);
    Interval b;
    if (std::isfinite(lo)) {
      b.hasLo = true;
      b.lo = Q(lo);
    }
    if (std::isfinite(hi)) {
      b.hasHi = true;
      b.hi = Q(hi);
    }
    fld.setBounds(a, b);
    realInputs[n] = a;
  }
  Input in;
  in.name = n;
  in.kind = 2;
  in.atom = a;
  in.e = fld.atoms[a].var;
  st.inputs.push_back(in);
  return Val::R(fld.var(a));
}

bool prefixStub(State &st, CallBase *cb, const std::string &name, std::vector<Val> &args) {
  // Formatting and logging: empty bodies.
  static const char *pf[] = {"_ZN3fmt2v", "_ZN6google10LogMessage", "_ZNSo", "_ZNSt8ios_base", "_ZStlsISt11char_traitsIcEERSt13basic_ostream"};
  for (auto *p : pf)
    if (name.rfind(p, 0) == 0) {
      stubs.insert(llvm::demangle(name));
      Type *t = cb->getType();
      finishCall(st, cb, t->isVoidTy() ? Val{} : zeroOf(t));
      return true;
    }
  // destructors of library exceptions
  static const char *nop[] = {"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD0Ev", "_ZNSt13runtime_errorD1Ev",
                              "_ZNSt13runtime_errorD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt11logic_errorD2Ev"};
  for (auto *p : nop)
    if (name == p) {
      finishCall(st, cb, Val{});
      return true;
    }
  return false;
}

Val memcmpV(State &st, uint64_t a, uint64_t b, uint64_t n, bool onlyEq) {
  if (!n) return Val::I(32, 0);
  Obj *x = checkAccess(st, a, n, false);
  Obj *y = checkAccess(st, b, n, false);
  race(st, a, n, false);
  race(st, b, n, false);
  bool conc = true;
  for (uint64_t i = 0; i < n; i++)
    if (x->b[a - x->base + i].v || y->b[b - y->base + i].v) conc = false;
  if (conc) {
    for (uint64_t i = 0; i < n; i++) {
      int p = x->b[a - x->base + i].c, q = y->b[b - y->base + i].c;
      if (p != q) return Val::I(32, (uint32_t)(p < q ? -1 : 1));
    }
    return Val::I(32, 0);
  }
  if (onlyEq) {
    z3::expr_vector v(ctx);
    for (uint64_t i = 0; i < n; i++) v.push_back(byteE(x->b[a - x->base + i]) == byteE(y->b[b - y->base + i]));
    return fromBV(z3::ite(z3::mk_and(v), ctx.bv_val(0, 32), ctx.bv_val(1, 32)), 32);
  }
  z3::expr r = ctx.bv_val(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    z3::expr p = byteE(x->b[a - x->base + i]), q = byteE(y->b[b - y->base + i]);
    r = z3::ite(p == q, r, z3::ite(z3::ult(p, q), ctx.bv_val(-1, 32), ctx.bv_val(1, 32)));
  }
  return fromBV(r, 32);
}

void registerExternals() {
  auto stubNote = [this](const std::string &s) { stubs.insert(s); };
  using A = std::vector<Val>;
  auto def = [&](std::initializer_list<const char *> names, std::function<Val(State &, CallBase *, A &)> f) {
    for (auto *n : names) ext[n] = f;
  };
  // ---- memory
  def({"malloc", "_Znwm", "_Znam"}, [this](State &st, CallBase *, A &a) {
    Val n = concretize(st, a[0], 64);
    if (n.c > (1ULL << 26)) throw EngineError{"huge allocation"};
    return Val::I(64, heap(st, n.c));
  });
  def({"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}, [this](State &st, CallBase *, A &a) {
    Val n = concretize(st, a[0], 64);
    return Val::I(64, allocObj(st, n.c, 2, "heap", a[1].c));
  });
  def({"aligned_alloc"}, [this](State &st, CallBase *, A &a) {
    Val n = concretize(st, a[1], 64);
    return Val::I(64, allocObj(st, n.c, 2, "heap", a[0].c));
  });
  def({"calloc"}, [this](State &st, CallBase *, A &a) {
    uint64_t n = concretize(st, a[0], 64).c * concretize(st, a[1], 64).c;
    uint64_t p = heap(st, n);
    for (auto &b : writable(st, p)->b) b.init = true;
    return Val::I(64, p);
  });
  def({"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"},
      [this](State &st, CallBase *, A &a) {
        freeObj(st, concAddr(st, a[0]));
        return Val{};
      });
  def({"memcpy", "memmove"}, [this](State &st, CallBase *, A &a) {
    memcopy(st, concAddr(st, a[0]), concAddr(st, a[1]), concretize(st, a[2], 256).c);
    return a[0];
  });
  def({"memset"}, [this](State &st, CallBase *, A &a) {
    Val b = castOp(st, Instruction::Trunc, a[1], nullptr, Type::getInt8Ty(M->getContext()));
    doMemset(st, concAddr(st, a[0]), b, concretize(st, a[2], 256).c);
    return a[0];
  });
  def({"memcmp"}, [this](State &st, CallBase *, A &a) {
    return memcmpV(st, concAddr(st, a[0]), concAddr(st, a[1]), concretize(st, a[2], 256).c, false);
  });
  def({"bcmp"}, [this](State &st, CallBase *, A &a) {
    return memcmpV(st, concAddr(st, a[0]), concAddr(st, a[1]), concretize(st, a[2], 256).c, true);
  });
  // ---- math
  for (const char *n : {"sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "fabs", "floor", "ceil", "trunc",
                        "round", "rint", "nearbyint"}) {
    std::string w = n;
    ext[w] = [this, w](State &st, CallBase *, A &a) { return uniOp(st, a[0], w.c_str()); };
  }
  for (const char *n : {"atan2", "fmin", "fmax", "copysign", "pow", "fmod", "hypot"}) {
    std::string w = n;
    ext[w] = [this, w](State &st, CallBase *, A &a) { return binF(st, a[0], a[1], w); };
  }
  ext["ceilf"] = [this](State &st, CallBase *, A &a) { return uniOp(st, a[0], "ceil"); };
  ext["fma"] = [this](State &st, CallBase *, A &a) { return fma3(st, a[0], a[1], a[2], true); };
  ext["sincos"] = [this](State &st, CallBase *, A &a) {
    Val s = uniOp(st, a[0], "sin"), c = uniOp(st, a[0], "cos");
    Type *d = Type::getDoubleTy(M->getContext());
    store(st, concAddr(st, a[1]), s, d);
    store(st, concAddr(st, a[2]), c, d);
    return Val{};
  };
  // ---- C++ ABI
  ext["__cxa_allocate_exception"] = [this](State &st, CallBase *, A &a) { return Val::I(64, heap(st, a[0].c)); };
  ext["__cxa_free_exception"] = [this](State &st, CallBase *, A &a) {
    freeObj(st, a[0].c);
    return Val{};
  };
  ext["__cxa_throw"] = [this](State &st, CallBase *, A &a) {
    callHandled = true;
    throwNow(st, a[0].c, a[1].c);
    return Val{};
  };
  ext["__cxa_begin_catch"] = [this](State &st, CallBase *, A &a) {
    st.th().caught.push_back(st.th().inflight);
    return a[0];
  };
  ext["__cxa_get_exception_ptr"] = [this](State &st, CallBase *, A &a) { return a[0]; };
  ext["__cxa_end_catch"] = [this](State &st, CallBase *, A &) {
    if (!st.th().caught.empty()) st.th().caught.pop_back();
    return Val{};
  };
  ext["__cxa_rethrow"] = [this](State &st, CallBase *, A &) {
    callHandled = true;
    if (st.th().caught.empty()) throw PathError{"rethrow without exception"};
    Exc e = st.th().caught.back();
    throwNow(st, e.obj, e.tinfo);
    return Val{};
  };
  ext["_ZSt9terminatev"] = [](State &, CallBase *, A &) -> Val { throw PathError{"std::terminate called"}; };
  ext["__cxa_pure_virtual"] = [](State &, CallBase *, A &) -> Val { throw PathError{"pure virtual call"}; };
  ext["__clang_call_terminate"] = ext["_ZSt9terminatev"];
  def({"abort"}, [](State &, CallBase *, A &) -> Val { throw PathError{"abort called"}; });
  ext["__assert_fail"] = [this](State &st, CallBase *, A &a) -> Val {
    throw PathError{"assert failed: " + cString(st, a[0].c)};
  };
  ext["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](State &, CallBase *, A &) -> Val { throw PathError{"glibcxx assertion"}; };
  def({"__cxa_atexit", "atexit", "__cxa_thread_atexit"}, [](State &, CallBase *, A &) { return Val::I(32, 0); });
  ext["__cxa_guard_acquire"] = [this](State &st, CallBase *, A &a) {
    Type *t = Type::getInt8Ty(M->getContext());
    Val g = load(st, a[0].c, t, true);
    return Val::I(32, g.c == 0);
  };
  ext["__cxa_guard_release"] = [this](State &st, CallBase *, A &a) {
    store(st, a[0].c, Val::I(8, 1), Type::getInt8Ty(M->getContext()), true);
    return Val{};
  };
  ext["__cxa_guard_abort"] = [](State &, CallBase *, A &) { return Val{}; };
  auto thrower = [&](const char *fn, const char *ti) {
    std::string t = ti;
    ext[fn] = [this, t](State &st, CallBase *, A &) {
      callHandled = true;
      throwLib(st, t);
      return Val{};
    };
  };
  thrower("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error");
  thrower("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
  thrower("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
  thrower("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
  thrower("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
  thrower("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
  thrower("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
  thrower("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call");
  thrower("_ZSt20__throw_system_errori", "_ZTISt12system_error");
  thrower("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast");
  thrower("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
  // ---- UBSan handlers: undefined behaviour reached
  for (const char *n :
       {"add_overflow", "sub_overflow", "mul_overflow", "negate_overflow", "divrem_overflow", "float_cast_overflow",
        "shift_out_of_bounds", "out_of_bounds", "type_mismatch_v1", "pointer_overflow", "load_invalid_value",
        "builtin_unreachable", "missing_return", "nonnull_arg", "nonnull_return_v1"}) {
    std::string w = n;
    auto h = [w](State &, CallBase *, A &) -> Val { throw PathError{"undefined behaviour: " + w}; };
    ext["__ubsan_handle_" + w] = h;
    ext["__ubsan_handle_" + w + "_abort"] = h;
  }
  // ---- no-ops
  def({"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "sched_yield", "_ZSt15set_new_handlerPFvvE"},
      [](State &, CallBase *, A &) { return Val::I(32, 0); });
  // ---- threads
  ext["pthread_mutex_lock"] = [this](State &st, CallBase *, A &a) {
    uint64_t m = a[0].c;
    auto it = st.mutexes.find(m);
    if (it != st.mutexes.end() && it->second.first >= 0) {
      if (it->second.first == st.cur) {
        // the kind of the mutex (glibc: 1 is recursive)
        Val kind = load(st, m + 16, Type::getInt32Ty(M->getContext()));
        if (kind.k == K::Int && (kind.c & 3) == 1) {
          st.counters["rec" + std::to_string(m)]++;
          return Val::I(32, 0);
        }
        throw PathError{"deadlock: mutex locked twice by one thread"};
      }
      st.th().waitMutex = m;
    }
    if (!schedPoint(st)) {
      callHandled = true;
      return Val{};
    }
    it = st.mutexes.find(m);
    if (it != st.mutexes.end() && it->second.first >= 0) {
      // still held: park and let others run
      st.th().waitMutex = m;
      st.counters["parked" + std::to_string(st.cur)] = 1;
      chooseThread(st);
      st.schedDone = st.counters["parked" + std::to_string(st.cur)] != 0;
      st.counters["parked" + std::to_string(st.cur)] = 0;
      callHandled = true;
      return Val{};
    }
    st.th().waitMutex = 0;
    auto &mx = st.mutexes[m];
    mx.first = st.cur;
    joinClock(st.th().clock, mx.second);
    return Val::I(32, 0);
  };
  ext["pthread_mutex_trylock"] = [this](State &st, CallBase *, A &a) {
    if (!schedPoint(st)) {
      callHandled = true;
      return Val{};
    }
    auto &mx = st.mutexes.try_emplace(a[0].c, std::make_pair(-1, std::vector<unsigned>{})).first->second;
    if (mx.first == st.cur) {
      Val kind = load(st, a[0].c + 16, Type::getInt32Ty(M->getContext()));
      if (kind.k == K::Int && (kind.c & 3) == 1) {
        st.counters["rec" + std::to_string(a[0].c)]++;
        return Val::I(32, 0);
      }
    }
    if (mx.first >= 0) return Val::I(32, 16);
    mx.first = st.cur;
    joinClock(st.th().clock, mx.second);
    return Val::I(32, 0);
  };
  ext["pthread_mutex_unlock"] = [this](State &st, CallBase *, A &a) {
    auto it = st.mutexes.find(a[0].c);
    if (it == st.mutexes.end() || it->second.first != st.cur) throw PathError{"unlock of a mutex not held"};
    if (auto &n = st.counters["rec" + std::to_string(a[0].c)]; n > 0) {
      n--;
      return Val::I(32, 0);
    }
    it->second.first = -1;
    it->second.second = st.th().clock;
    tick(st);
    return Val::I(32, 0);
  };
  def({"pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy"}, [](State &, CallBase *, A &) { return Val::I(32, 0); });
  // Reader-writer locks: scheduled like mutexes, but sections of two readers are not ordered.
  auto lockFn = ext["pthread_mutex_lock"];
  auto rw = [this, lockFn](State &st, CallBase *cb, A &a, bool write) {
    uint64_t m = a[0].c;
    std::vector<unsigned> before = st.th().clock;
    int cur = st.cur;
    Val r = lockFn(st, cb, a);
    if (st.cur != cur || callHandled) return r;
    auto &mx = st.mutexes[m];
    auto &w = st.mutexes.try_emplace(m + 1, std::make_pair(-1, std::vector<unsigned>{})).first->second;
    auto &rd = st.mutexes.try_emplace(m + 2, std::make_pair(-1, std::vector<unsigned>{})).first->second;
    (void)mx;
    st.th().clock = before;
    joinClock(st.th().clock, w.second);
    if (write) joinClock(st.th().clock, rd.second);
    st.counters["rw" + std::to_string(m)] = write;
    return r;
  };
  ext["pthread_rwlock_wrlock"] = [rw](State &st, CallBase *cb, A &a) { return rw(st, cb, a, true); };
  ext["pthread_rwlock_rdlock"] = [rw](State &st, CallBase *cb, A &a) { return rw(st, cb, a, false); };
  ext["pthread_rwlock_unlock"] = [this](State &st, CallBase *, A &a) {
    uint64_t m = a[0].c;
    auto it = st.mutexes.find(m);
    if (it == st.mutexes.end() || it->second.first != st.cur) throw PathError{"unlock of a lock not held"};
    it->second.first = -1;
    const bool write = st.counters["rw" + std::to_string(m)];
    joinClock(st.mutexes[m + (write ? 1 : 2)].second, st.th().clock);
    tick(st);
    return Val::I(32, 0);
  };
  def({"pthread_rwlock_init", "pthread_rwlock_destroy"}, [](State &, CallBase *, A &) { return Val::I(32, 0); });
  def({"pthread_mutex_init", "pthread_mutex_destroy"}, [](State &, CallBase *, A &) { return Val::I(32, 0); });
  ext["sx_thread"] = [this](State &st, CallBase *cb, A &a) {
    // int sx_thread(void (*fn)(void*), void* arg)
    Function *F = faddr.at(concAddr(st, a[0]));
    int tid = st.threads.size();
    if (tid >= MAX_THREADS) throw EngineError{"too many threads"};
    st.threads.emplace_back();
    Thread &t = st.threads.back();
    t.clock = st.th().clock;
    t.clock.resize(tid + 1, 0);
    t.clock[tid] = 1;
    if (st.threads[st.cur].clock.empty()) st.threads[st.cur].clock.resize(1, 1);
    int save = st.cur;
    st.cur = tid;
    pushFrame(st, F, {a[1]}, nullptr);
    st.cur = save;
    tick(st);
    return Val::I(32, tid);
  };
  ext["sx_join"] = [this](State &st, CallBase *, A &a) {
    int t = (int)a[0].c;
    if (!st.threads[t].done) {
      st.th().waitJoin = t;
      st.counters["parked" + std::to_string(st.cur)] = 1;
      chooseThread(st);
      st.schedDone = st.counters["parked" + std::to_string(st.cur)] != 0;
      st.counters["parked" + std::to_string(st.cur)] = 0;
      callHandled = true;
      return Val{};
    }
    st.schedDone = false;
    st.th().waitJoin = -1;
    joinClock(st.th().clock, st.threads[t].clock);
    return Val{};
  };
  ext["sx_norace"] = [](State &st, CallBase *, A &a) {
    st.counters["norace"] = (int)a[0].c;
    return Val{};
  };
  ext["sx_yield"] = [this](State &st, CallBase *, A &) {
    if (!schedPoint(st)) callHandled = true;
    return Val{};
  };
  // ---- harness primitives
  auto symN = [&](const char *fn, unsigned bits) {
    ext[fn] = [this, bits](State &st, CallBase *, A &a) { return symInt(st, cString(st, a[0].c), bits); };
  };
  symN("sx_i64", 64);
  symN("sx_i32", 32);
  symN("sx_i16", 16);
  symN("sx_u8", 8);
  symN("sx_bool", 1);
  // int64_t sx_range(name, lo, hi): an integer input with lo <= n <= hi
  ext["sx_range"] = [this](State &st, CallBase *, A &a) {
    Val v = symInt(st, cString(st, a[0].c), 64);
    z3::expr e = v.e();
    int64_t lo = (int64_t)a[1].c, hi = (int64_t)a[2].c;
    if (!opt.real) {
      z3::expr c = z3::sle(ctx.bv_val(lo, 64), e) && z3::sle(e, ctx.bv_val(hi, 64));
      assume(st, Val::E(K::SInt, 1, c));
      return v;
    }
    if (!bvAtom.count(e.id())) {
      int at = fld.newAtom("i2r(" + e.decl().name().str() + ")", AtomKind::Fresh);
      Interval b;
      b.hasLo = b.hasHi = true;
      b.lo = Q(mpz_class(std::to_string(lo)));
      b.hi = Q(mpz_class(std::to_string(hi)));
      fld.setBounds(at, b);
      fld.atoms[at].axioms.push_back(isInt(fld.atoms[at].var));
      pins.push_back(e);
      bvAtom[e.id()] = at;
    }
    intToReal(st, v, false);  // replays read it back as an integer
    return v;
  };
  ext["sx_bytes"] = [this](State &st, CallBase *, A &a) {
    // void sx_bytes(void* p, long n, const char* name)
    std::string n = cString(st, a[2].c);
    for (uint64_t i = 0; i < a[1].c; i++) {
      Val v = symInt(st, n + "[" + std::to_string(i) + "]", 8);
      store(st, a[0].c + i, v, Type::getInt8Ty(M->getContext()));
    }
    return Val{};
  };
  ext["sx_real"] = [this](State &st, CallBase *, A &a) {
    return symReal(st, cString(st, a[0].c), a[1].d(), a[2].d());
  };
  ext["sx_f64"] = [this](State &st, CallBase *, A &a) {
    if (opt.real) throw EngineError{"sx_f64 in real mode"};
    return symReal(st, cString(st, a[0].c), NAN, NAN);
  };
  ext["sx_exact"] = [this](State &st, CallBase *, A &a) {
    // double sx_exact(int64_t): the mathematical value of an integer
    if (a[0].k == K::Int) return mkReal(Poly(Q(std::to_string(a[0].s()))));
    return intToReal(st, a[0], false);
  };
  ext["sx_choose"] = [this](State &st, CallBase *, A &a) {
    // int sx_choose(const char* name, int n): forks over 0..n-1
    std::string nm = cString(st, a[0].c);
    int k = st.nameCount[nm];
    std::string n = k == 0 ? nm : nm + "#" + std::to_string(k);
    z3::expr v = ctx.bv_const(n.c_str(), 16);
    int cnt = (int)a[1].c, pick = cnt - 1;
    for (int i = 0; i + 1 < cnt; i++)
      if (decide(st, v == ctx.bv_val(i, 16))) {
        pick = i;
        break;
      }
    st.nameCount[nm]++;
    Input in;
    in.name = n;
    in.kind = 3;
    in.conc = std::to_string(pick);
    st.inputs.push_back(in);
    return Val::I(32, pick);
  };
  ext["sx_unit3"] = [this](State &st, CallBase *, A &a) {
    // void sx_unit3(const char* name, double out[3])
    if (!opt.real) throw EngineError{"sx_unit3 needs real mode"};
    std::string n = cString(st, a[0].c);
    Val v[3];
    bool fresh = !realInputs.count(st.nameCount.count(n + ".x") ? n + ".x#" + std::to_string(st.nameCount[n + ".x"]) : n + ".x");
    for (int i = 0; i < 3; i++) v[i] = symReal(st, n + (i == 0 ? ".x" : i == 1 ? ".y" : ".z"), -1, 1);
    int at[3];
    for (int i = 0; i < 3; i++) at[i] = v[i].poly().t.begin()->first.f[0].first;
    if (fresh) {
      Atom &z = fld.atoms[at[2]];
      z.hasSq = true;
      Poly x = fld.var(at[0]), y = fld.var(at[1]);
      z.sq = fld.sub(fld.sub(Poly(Q(1)), fld.mul(x, x)), fld.mul(y, y));
      z.axioms.push_back(fld.atoms[at[0]].var * fld.atoms[at[0]].var + fld.atoms[at[1]].var * fld.atoms[at[1]].var +
                             z.var * z.var == 1);
      z.deps.insert(at[0]);
      z.deps.insert(at[1]);
      fld.atoms[at[0]].deps.insert(at[2]);
      fld.atoms[at[1]].deps.insert(at[2]);
      for (int i = 0; i < 3; i++) unitGroups[at[i]] = {at[0], at[1], at[2]};
    }
    for (int i = 0; i < 3; i++)
      store(st, concAddr(st, a[1]) + 8 * i, v[i], Type::getDoubleTy(M->getContext()));
    return Val{};
  };
  ext["sx_trig"] = [this](State &st, CallBase *, A &a) {
    // double sx_trig(const char* name, double lo, double hi, double* s, double* c): half-angle base
    if (!opt.real) throw EngineError{"sx_trig needs real mode"};
    std::string n = cString(st, a[0].c);
    std::string full = st.nameCount.count(n) ? n + "#" + std::to_string(st.nameCount[n]) : n;
    bool fresh = !realInputs.count(full);
    Val h = symReal(st, n, a[1].d(), a[2].d());
    int ha = h.poly().t.begin()->first.f[0].first;
    if (fresh) {
      int sa = fld.newAtom("sin(" + full + ")", AtomKind::Sin), ca = fld.newAtom("cos(" + full + ")", AtomKind::Cos);
      fld.linkTrig(h.poly(), sa, ca);
      fld.registerBase(h.poly(), fld.var(sa), fld.var(ca));
      trigGroups[ha] = {ha, sa, ca};
    }
    auto g = trigGroups[ha];
    store(st, concAddr(st, a[3]), Val::R(fld.var(g[1])), Type::getDoubleTy(M->getContext()));
    store(st, concAddr(st, a[4]), Val::R(fld.var(g[2])), Type::getDoubleTy(M->getContext()));
    return h;
  };
  ext["sx_trig_of"] = [this](State &st, CallBase *, A &a) {
    // void sx_trig_of(double angle, double* s, double* c): registers angle as a base
    auto [s, c] = fld.sinCos(realOf(a[0]));
    store(st, concAddr(st, a[1]), mkReal(s), Type::getDoubleTy(M->getContext()));
    store(st, concAddr(st, a[2]), mkReal(c), Type::getDoubleTy(M->getContext()));
    return Val{};
  };
  ext["sx_assume"] = [this](State &st, CallBase *, A &a) {
    assume(st, a[0]);
    return Val{};
  };
  ext["sx_assert"] = [this](State &st, CallBase *, A &a) {
    doAssert(st, a[0], cString(st, a[1].c));
    return Val{};
  };
  ext["sx_near"] = [this](State &st, CallBase *, A &a) {
    doNear(st, a[0], a[1], a[2].d(), cString(st, a[3].c));
    return Val{};
  };
  ext["sx_reach"] = [this](State &st, CallBase *, A &a) {
    reached[cString(st, a[0].c)]++;
    return Val{};
  };
  ext["sx_engine"] = [](State &, CallBase *, A &) { return Val::I(32, 1); };
  ext["sx_tier"] = [this](State &, CallBase *, A &) {
    const char *t = getenv("SX_TIER");
    return Val::I(32, t && std::string(t) == "thorough");
  };
  ext["sx_dump"] = [this](State &st, CallBase *, A &a) {
    std::cerr << "[dump] " << cString(st, a[0].c) << " = " << (a[1].k == K::Dbl ? std::to_string(a[1].d()) : a[1].k == K::SReal ? fld.str(a[1].poly()) : a[1].k == K::SFp ? a[1].e().to_string() : std::string("?")) << "\n";
    return Val{};
  };
  (void)stubNote;
}
void joinClock(std::vector<unsigned> &a, const std::vector<unsigned> &b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
void tick(State &st) {
  auto &c = st.threads[st.cur].clock;
  if ((int)c.size() <= st.cur) c.resize(st.cur + 1, 0);
  c[st.cur]++;
}

// ------------------------------------------------------------ driver
void runState(State &st) {
  try {
    while (true) {
      step(st);
      if ((nSteps & 0x3ff) == 0 && timeUp()) {
        undecided.insert("time limit");
        throw PathEnd{"timeout"};
      }
      if (st.steps > opt.maxSteps) {
        undecided.insert("step limit");
        throw PathEnd{"step limit"};
      }
    }
  } catch (PathEnd &p) {
    if (p.why == "done") nPaths++;
    if (opt.verbose) std::cerr << "[path] " << p.why << " forks=" << st.forks << " steps=" << st.steps << "\n";
  } catch (PathError &p) {
    nPaths++;
    if (opt.verbose) std::cerr << "[error] " << p.msg << " @" << locOf(st) << "\n";
    errorHere(st, p.msg);
  } catch (EngineError &p) {
    std::string m = p.msg + " @" + (st.th().frames.empty() ? "?" : locOf(st));
    engineErrors.push_back(m);
    if (opt.verbose) {
      std::cerr << "[engine] " << m << "\n";
      for (auto &f : st.th().frames) std::cerr << "   in " << llvm::demangle(f.fn->F->getName().str()) << "\n";
    }
  } catch (z3::exception &z) {
    engineErrors.push_back(std::string("z3: ") + z.msg());
  }
}
int run() {
  LLVMContext C;
  SMDiagnostic err;
  M = parseIRFile(opt.module, err, C);
  if (!M) {
    std::cerr << "cannot read " << opt.module << ": " << err.getMessage().str() << "\n";
    return 3;
  }
  DL = &M->getDataLayout();
  registerExternals();
  auto st = std::make_unique<State>();
  setup(*st);
  Function *E = M->getFunction(opt.entry);
  if (!E) {
    std::cerr << "no entry " << opt.entry << "\n";
    return 3;
  }
  st->threads.resize(1);
  st->threads[0].clock = {1};
  // entry frame at the bottom, constructors run first (pushed last-to-first)
  pushFrame(*st, E, {}, nullptr);
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (auto *g = M->getNamedGlobal("llvm.global_ctors"))
    if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto &o : ca->operands()) {
        auto *cs = cast<ConstantStruct>(o.get());
        if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushFrame(*st, it->second, {}, nullptr);
  work.push_back(std::move(st));
  while (!work.empty()) {
    cur = std::move(work.back());
    work.pop_back();
    runState(*cur);
    cur.reset();
    if (nPaths > opt.maxPaths) {
      undecided.insert("path limit");
      break;
    }
    if (timeUp()) {
      if (!work.empty()) undecided.insert("time limit");
      break;
    }
    if (engineErrors.size() > 20) break;
  }
  report();
  return 0;
}
void report() {
  std::ofstream f(opt.out);
  f << "{\n";
  f << "\"entry\":\"" << opt.entry << "\",\"mode\":\"" << (opt.round ? "reals, every operation with any rounding error up to 2^-53" : opt.fpabs ? "bit-precise integers, floating-point results unconstrained" : opt.real ? "exact real arithmetic" : "bit-precise") << "\",\n";
  f << "\"paths\":" << nPaths << ",\"steps\":" << nSteps << ",\"forks\":" << nForks << ",\"queries\":" << nQueries
    << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnk << ",\"branch_unknown\":" << nBranchUnk
    << ",\"external_queries\":" << nExt << ",\"asserts\":" << nAsserts << ",\"assert_queries\":" << nAssertQ
    << ",\"identities\":" << nIdent << ",\"solver_s\":" << solverS << ",\"wall_s\":" << elapsed() << ",\n";
  f << "\"functions\":[";
  bool first = true;
  std::set<std::string> names, missing;
  for (auto &kv : fns)
    if (kv.second && kv.second->executed) {
      std::string d = llvm::demangle(kv.second->F->getName().str());
      if (d.find("resim::") != std::string::npos && d.rfind("void std::", 0) != 0 && d.rfind("std::", 0) != 0) names.insert(d.substr(0, 160));
      // reach labels in executed functions
      for (auto &ii : kv.second->insts)
        if (auto *cb = dyn_cast<CallBase>(ii.I))
          if (auto *cf = cb->getCalledFunction())
            if (cf->getName() == "sx_reach" && ii.ops[0].c.k == K::Int) {
              auto it = addr2gv.find(ii.ops[0].c.c);
              if (it != addr2gv.end() && it->second->hasInitializer())
                if (auto *cd = dyn_cast<ConstantDataArray>(it->second->getInitializer()))
                  if (cd->isCString() && !reached.count(cd->getAsCString().str())) missing.insert(cd->getAsCString().str());
            }
    }
  for (auto &n : names) {
    f << (first ? "" : ",") << "\"" << jsonEsc(n) << "\"";
    first = false;
  }
  f << "],\n\"reached\":{";
  first = true;
  for (auto &kv : reached) {
    f << (first ? "" : ",") << "\"" << jsonEsc(kv.first) << "\":" << kv.second;
    first = false;
  }
  f << "},\n\"unreached\":[";
  first = true;
  for (auto &n : missing) {
    f << (first ? "" : ",") << "\"" << jsonEsc(n) << "\"";
    first = false;
  }
  f << "],\n\"assertions\":{";
  first = true;
  for (auto &kv : assertCount) {
    f << (first ? "" : ",") << "\"" << jsonEsc(kv.first) << "\":" << kv.second;
    first = false;
  }
  f << "},\n\"stubs\":[";
  first = true;
  for (auto &n : stubs) {
    f << (first ? "" : ",") << "\"" << jsonEsc(n.substr(0, 120)) << "\"";
    first = false;
  }
  f << "],\n\"undecided\":[";
  first = true;
  for (auto &n : undecided) {
    f << (first ? "" : ",") << "\"" << jsonEsc(n) << "\"";
    first = false;
  }
  f << "],\n\"engine_errors\":[";
  first = true;
  for (auto &n : engineErrors) {
    f << (first ? "" : ",") << "\"" << jsonEsc(n) << "\"";
    first = false;
  }
  f << "],\n\"failures\":[";
  first = true;
  for (auto &kv : failures) {
    auto &x = kv.second;
    f << (first ? "" : ",") << "\n{\"msg\":\"" << jsonEsc(x.msg) << "\",\"loc\":\"" << jsonEsc(x.loc) << "\",\"kind\":\""
      << x.kind << "\",\"verdict\":\"" << x.verdict << "\",\"candidates\":[";
    bool ff = true;
    for (auto &c : x.cands) {
      f << (ff ? "" : ",") << "{";
      bool fff = true;
      for (auto &in : c.inputs) {
        f << (fff ? "" : ",") << "\"" << jsonEsc(in.first) << "\":\"" << jsonEsc(in.second) << "\"";
        fff = false;
      }
      f << "}";
      ff = false;
    }
    f << "]}";
    first = false;
  }
  f << "]\n}\n";
}
