// Translation of bit-vector constraints into integer arithmetic, keeping the
// modulo-2^w semantics.  A term of width w is represented by an integer congruent
// to it modulo 2^w together with an interval; it is only normalised (wrapped) where
// an operation needs its signed or unsigned value and the interval does not already
// show that it is in range.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <map>
#include <tuple>
#include <unordered_map>
#include <vector>

namespace sx {
class BvInt {
 public:
  struct Unsupported {};
  struct T {
    z3::expr v;
    mpz_class lo, hi;
    unsigned w;
  };
  z3::context &c;
  z3::expr_vector side;
  std::vector<std::pair<z3::expr, z3::expr>> vars;  // bv var, int var
  std::unordered_map<unsigned, T> memo;
  std::unordered_map<unsigned, z3::expr> bmemo;
  std::map<std::string, std::pair<mpz_class, mpz_class>> bnd;  // signed bounds from unit constraints
  std::vector<z3::expr> hold;
  int fresh = 0;
  explicit BvInt(z3::context &ctx) : c(ctx), side(ctx) {}

  static mpz_class p2(unsigned k) {
    mpz_class r = 1;
    mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), k);
    return r;
  }
  z3::expr num(const mpz_class &z) { return c.int_val(z.get_str().c_str()); }
  z3::expr freshInt(const char *p) { return c.int_const((std::string("bi!") + p + std::to_string(fresh++)).c_str()); }

  static bool bvNum(const z3::expr &e, mpz_class &u) {
    if (!e.is_bv() || !e.is_numeral()) return false;
    u = mpz_class(Z3_get_numeral_string(e.ctx(), e));
    return true;
  }
  static mpz_class sgn(const mpz_class &u, unsigned w) { return u >= p2(w - 1) ? mpz_class(u - p2(w)) : u; }

  // collect bounds x <=s const etc. from conjuncts
  void collect(const z3::expr &e, bool neg) {
    if (!e.is_app()) return;
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_NOT) return collect(e.arg(0), !neg);
    if ((k == Z3_OP_AND && !neg) || (k == Z3_OP_OR && neg)) {
      for (unsigned i = 0; i < e.num_args(); i++) collect(e.arg(i), neg);
      return;
    }
    if (k != Z3_OP_SLEQ && k != Z3_OP_SGEQ && k != Z3_OP_SLT && k != Z3_OP_SGT) return;
    z3::expr a = e.arg(0), b = e.arg(1);
    bool le = k == Z3_OP_SLEQ || k == Z3_OP_SLT, strict = k == Z3_OP_SLT || k == Z3_OP_SGT;
    if (!le) std::swap(a, b);  // a <= b or a < b
    if (neg) {
      std::swap(a, b);
      strict = !strict;
    }
    mpz_class u;
    unsigned w = a.get_sort().bv_size();
    auto isVar = [](const z3::expr &x) { return x.is_const() && !x.is_numeral(); };
    if (isVar(a) && bvNum(b, u)) {
      mpz_class s = sgn(u, w) - (strict ? 1 : 0);
      auto &x = get(a);
      if (s < x.second) x.second = s;
    } else if (isVar(b) && bvNum(a, u)) {
      mpz_class s = sgn(u, w) + (strict ? 1 : 0);
      auto &x = get(b);
      if (s > x.first) x.first = s;
    }
  }
  std::pair<mpz_class, mpz_class> &get(const z3::expr &v) {
    std::string n = v.decl().name().str();
    auto it = bnd.find(n);
    if (it == bnd.end()) {
      unsigned w = v.get_sort().bv_size();
      it = bnd.emplace(n, std::make_pair(mpz_class(-p2(w - 1)), mpz_class(p2(w - 1) - 1))).first;
    }
    return it->second;
  }

  std::map<std::tuple<unsigned, unsigned, bool>, T> wmemo;
  T wrapTo(const T &t, const mpz_class &lo) {  // into [lo, lo+2^w)
    mpz_class m = p2(t.w), hi = lo + m - 1;
    if (t.lo >= lo && t.hi <= hi) return t;
    auto key = std::make_tuple((unsigned)Z3_get_ast_id(c, t.v), t.w, lo == 0);
    auto it = wmemo.find(key);
    if (it != wmemo.end()) return it->second;
    T r = wrapTo0(t, lo);
    hold.push_back(t.v);
    wmemo.emplace(key, r);
    return r;
  }
  T wrapTo0(const T &t, const mpz_class &lo) {
    mpz_class m = p2(t.w), hi = lo + m - 1;
    if (t.lo >= lo - m && t.hi <= hi + m) {
      z3::expr v = t.v;
      if (t.hi > hi) v = z3::ite(t.v > num(hi), t.v - num(m), v);
      if (t.lo < lo) v = z3::ite(t.v < num(lo), t.v + num(m), v);
      z3::expr f = freshInt("w");
      side.push_back(f == v);
      side.push_back(f >= num(lo) && f <= num(hi));
      return T{f, lo, hi, t.w};
    }
    z3::expr r = freshInt("r"), k = freshInt("k");
    side.push_back(t.v == r + num(m) * k);
    side.push_back(r >= num(lo) && r <= num(hi));
    return T{r, lo, hi, t.w};
  }
  T asS(const T &t) { return wrapTo(t, -p2(t.w - 1)); }
  T asU(const T &t) { return wrapTo(t, 0); }

  T mk(const z3::expr &v, const mpz_class &lo, const mpz_class &hi, unsigned w) { return T{v, lo, hi, w}; }
  T mulT(const T &a, const T &b) {
    mpz_class x[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    mpz_class lo = x[0], hi = x[0];
    for (auto &y : x) {
      if (y < lo) lo = y;
      if (y > hi) hi = y;
    }
    z3::expr v = a.v * b.v;
    return T{v, lo, hi, a.w};
  }
  // floor division of t by a positive constant
  std::pair<T, T> floorDiv(const T &t, const mpz_class &d) {
    z3::expr q = freshInt("q"), r = freshInt("m");
    side.push_back(t.v == q * num(d) + r);
    side.push_back(r >= 0 && r < num(d));
    mpz_class lo, hi;
    mpz_fdiv_q(lo.get_mpz_t(), t.lo.get_mpz_t(), d.get_mpz_t());
    mpz_fdiv_q(hi.get_mpz_t(), t.hi.get_mpz_t(), d.get_mpz_t());
    side.push_back(q >= num(lo) && q <= num(hi));
    return {T{q, lo, hi, t.w}, T{r, 0, d - 1, t.w}};
  }
  std::unordered_map<uint64_t, std::pair<T, T>> divMemo;
  // truncating division, b != 0 (the b == 0 case follows SMT-LIB)
  std::pair<T, T> sdiv(const z3::expr &ea, const z3::expr &eb, bool isSigned) {
    uint64_t key = ((uint64_t)ea.id() << 33) ^ ((uint64_t)eb.id() << 1) ^ isSigned;
    auto it = divMemo.find(key);
    if (it != divMemo.end()) return it->second;
    T a = isSigned ? asS(bv(ea)) : asU(bv(ea)), b = isSigned ? asS(bv(eb)) : asU(bv(eb));
    z3::expr q = freshInt("q"), r = freshInt("m");
    z3::expr absb = b.lo >= 0 ? b.v : z3::ite(b.v < 0, -b.v, b.v);
    z3::expr nz = a.v == q * b.v + r;
    z3::expr rng = a.lo >= 0   ? (r >= 0 && r < absb && r <= a.v)
                   : a.hi <= 0 ? (r <= 0 && -r < absb)
                               : z3::ite(a.v >= 0, r >= 0 && r < absb, r <= 0 && -r < absb);
    mpz_class m = std::max(abs(a.lo), abs(a.hi));
    mpz_class qlo = -m, qhi = m;
    if (a.lo >= 0 && b.lo >= 0) qlo = 0;
    z3::expr qr = q >= num(qlo) && q <= num(qhi);
    // helpful sign fact
    z3::expr sg = a.lo >= 0 && b.lo >= 0 ? c.bool_val(true) : z3::implies(a.v == 0, q == 0);
    if (b.lo > 0 || b.hi < 0) {
      side.push_back(nz);
      side.push_back(rng);
      side.push_back(qr);
      side.push_back(sg);
    } else {
      z3::expr z = b.v == 0;
      side.push_back(z3::implies(!z, nz && rng && sg));
      side.push_back(qr || z);
      if (isSigned)
        side.push_back(z3::implies(z, q == z3::ite(a.v < 0, c.int_val(1), c.int_val(-1)) && r == a.v));
      else
        side.push_back(z3::implies(z, q == num(p2(a.w) - 1) && r == a.v));
      mpz_class one = p2(a.w);
      if (qlo > -1) qlo = -1;
      qhi = std::max(qhi, mpz_class(one - 1));
      side.push_back(q >= num(qlo) && q <= num(qhi));
    }
    T Q{q, qlo, qhi, a.w}, R{r, a.lo >= 0 ? mpz_class(0) : mpz_class(-m), a.hi <= 0 ? mpz_class(0) : m, a.w};
    return divMemo.emplace(key, std::make_pair(Q, R)).first->second;
  }

  T bv(const z3::expr &e) {
    auto it = memo.find(e.id());
    if (it != memo.end()) return it->second;
    T t = bv0(e);
    // keep terms small: name large ranges lazily
    memo.emplace(e.id(), t);
    hold.push_back(e);
    return t;
  }
  T bv0(const z3::expr &e) {
    unsigned w = e.get_sort().bv_size();
    mpz_class u;
    if (bvNum(e, u)) {
      mpz_class s = sgn(u, w);
      return T{num(s), s, s, w};
    }
    if (!e.is_app()) throw Unsupported{};
    auto k = e.decl().decl_kind();
    auto A = [&](unsigned i) { return e.arg(i); };
    switch (k) {
      case Z3_OP_UNINTERPRETED: {
        if (e.num_args()) throw Unsupported{};
        auto &b = get(e);
        z3::expr v = c.int_const(("bi:" + e.decl().name().str()).c_str());
        side.push_back(v >= num(b.first) && v <= num(b.second));
        vars.push_back({e, v});
        return T{v, b.first, b.second, w};
      }
      case Z3_OP_BADD: {
        T r = bv(A(0));
        for (unsigned i = 1; i < e.num_args(); i++) {
          T x = bv(A(i));
          r = T{r.v + x.v, r.lo + x.lo, r.hi + x.hi, w};
        }
        return r;
      }
      case Z3_OP_BSUB: {
        T r = bv(A(0));
        for (unsigned i = 1; i < e.num_args(); i++) {
          T x = bv(A(i));
          r = T{r.v - x.v, r.lo - x.hi, r.hi - x.lo, w};
        }
        return r;
      }
      case Z3_OP_BNEG: {
        T x = bv(A(0));
        return T{-x.v, -x.hi, -x.lo, w};
      }
      case Z3_OP_BNOT: {
        T x = bv(A(0));
        return T{-x.v - 1, -x.hi - 1, -x.lo - 1, w};
      }
      case Z3_OP_BMUL: {
        T r = bv(A(0));
        for (unsigned i = 1; i < e.num_args(); i++) {
          T x = bv(A(i));
          r = mulT(r, x);
          if (r.hi - r.lo > p2(3 * w)) r = asS(r);
        }
        return r;
      }
      case Z3_OP_BSDIV:
      case Z3_OP_BSDIV_I:
        return sdiv(A(0), A(1), true).first;
      case Z3_OP_BSREM:
      case Z3_OP_BSREM_I:
        return sdiv(A(0), A(1), true).second;
      case Z3_OP_BUDIV:
      case Z3_OP_BUDIV_I:
        return sdiv(A(0), A(1), false).first;
      case Z3_OP_BUREM:
      case Z3_OP_BUREM_I:
        return sdiv(A(0), A(1), false).second;
      case Z3_OP_SIGN_EXT: {
        T x = asS(bv(A(0)));
        x.w = w;
        return x;
      }
      case Z3_OP_ZERO_EXT: {
        T x = asU(bv(A(0)));
        x.w = w;
        return x;
      }
      case Z3_OP_CONCAT: {
        T r = asU(bv(A(0)));
        for (unsigned i = 1; i < e.num_args(); i++) {
          T x = asU(bv(A(i)));
          mpz_class m = p2(A(i).get_sort().bv_size());
          r = T{r.v * num(m) + x.v, r.lo * m + x.lo, r.hi * m + x.hi, w};
        }
        r.w = w;
        return r;
      }
      case Z3_OP_EXTRACT: {
        unsigned lo = e.lo();
        T x = bv(A(0));
        if (lo == 0) {
          x.w = w;
          return x;
        }
        T q = floorDiv(x, p2(lo)).first;
        q.w = w;
        return q;
      }
      case Z3_OP_ITE: {
        z3::expr b = bl(A(0));
        T x = bv(A(1)), y = bv(A(2));
        return T{z3::ite(b, x.v, y.v), std::min(x.lo, y.lo), std::max(x.hi, y.hi), w};
      }
      case Z3_OP_BSHL: {
        if (!bvNum(A(1), u)) throw Unsupported{};
        T x = bv(A(0));
        if (u >= w) return T{c.int_val(0), 0, 0, w};
        mpz_class m = p2(u.get_ui());
        return T{x.v * num(m), x.lo * m, x.hi * m, w};
      }
      case Z3_OP_BLSHR:
      case Z3_OP_BASHR: {
        if (!bvNum(A(1), u)) throw Unsupported{};
        T x = k == Z3_OP_BLSHR ? asU(bv(A(0))) : asS(bv(A(0)));
        if (u >= w) u = w;
        return floorDiv(x, p2(u.get_ui())).first;
      }
      case Z3_OP_BAND: {
        if (e.num_args() != 2) throw Unsupported{};
        for (int s = 0; s < 2; s++)
          if (bvNum(A(s), u)) {
            mpz_class m = u + 1;
            if (mpz_popcount(m.get_mpz_t()) == 1) return floorDiv(bv(A(1 - s)), m).second;
          }
        throw Unsupported{};
      }
      default:
        throw Unsupported{};
    }
  }
  z3::expr bl(const z3::expr &e) {
    auto it = bmemo.find(e.id());
    if (it != bmemo.end()) return it->second;
    z3::expr r = bl0(e);
    bmemo.emplace(e.id(), r);
    hold.push_back(e);
    return r;
  }
  z3::expr bl0(const z3::expr &e) {
    if (!e.is_app()) throw Unsupported{};
    auto k = e.decl().decl_kind();
    switch (k) {
      case Z3_OP_TRUE:
      case Z3_OP_FALSE:
        return e;
      case Z3_OP_NOT:
        return !bl(e.arg(0));
      case Z3_OP_AND:
      case Z3_OP_OR: {
        z3::expr_vector v(c);
        for (unsigned i = 0; i < e.num_args(); i++) v.push_back(bl(e.arg(i)));
        return k == Z3_OP_AND ? z3::mk_and(v) : z3::mk_or(v);
      }
      case Z3_OP_XOR:
        return bl(e.arg(0)) != bl(e.arg(1));
      case Z3_OP_IMPLIES:
        return z3::implies(bl(e.arg(0)), bl(e.arg(1)));
      case Z3_OP_ITE:
        return z3::ite(bl(e.arg(0)), bl(e.arg(1)), bl(e.arg(2)));
      case Z3_OP_UNINTERPRETED:
        if (e.num_args()) throw Unsupported{};
        return e;
      case Z3_OP_EQ:
      case Z3_OP_DISTINCT: {
        if (e.num_args() != 2) throw Unsupported{};
        if (e.arg(0).is_bool()) {
          z3::expr a = bl(e.arg(0)), b = bl(e.arg(1));
          return k == Z3_OP_EQ ? a == b : a != b;
        }
        if (!e.arg(0).is_bv()) throw Unsupported{};
        T a = bv(e.arg(0)), b = bv(e.arg(1));
        mpz_class m = p2(a.w);
        // equal modulo 2^w
        mpz_class lo = std::min(a.lo, b.lo), hi = std::max(a.hi, b.hi);
        if (hi - lo >= m) {
          a = asS(a);
          b = asS(b);
        }
        return k == Z3_OP_EQ ? a.v == b.v : a.v != b.v;
      }
      case Z3_OP_SLEQ: case Z3_OP_SGEQ: case Z3_OP_SLT: case Z3_OP_SGT: {
        T a = asS(bv(e.arg(0))), b = asS(bv(e.arg(1)));
        return k == Z3_OP_SLEQ ? a.v <= b.v : k == Z3_OP_SGEQ ? a.v >= b.v : k == Z3_OP_SLT ? a.v < b.v : a.v > b.v;
      }
      case Z3_OP_ULEQ: case Z3_OP_UGEQ: case Z3_OP_ULT: case Z3_OP_UGT: {
        T a = asU(bv(e.arg(0))), b = asU(bv(e.arg(1)));
        return k == Z3_OP_ULEQ ? a.v <= b.v : k == Z3_OP_UGEQ ? a.v >= b.v : k == Z3_OP_ULT ? a.v < b.v : a.v > b.v;
      }
      default:
        throw Unsupported{};
    }
  }
};
}  // namespace sx
