// Polynomial arithmetic over the rationals used as the normal form of real-mode
// (exact arithmetic) double values.  Atoms are symbolic reals; an atom may carry
// a rewrite rule  atom^2 -> polynomial  (unit vectors, sqrt, cos^2 = 1 - sin^2).
// Exponents may be negative (Laurent) for atoms known to be non-zero.
#pragma once
#include <gmpxx.h>
#include <z3++.h>

#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace sx {

using Q = mpq_class;

struct Mono {
  std::vector<std::pair<int, int>> f;  // (atom, exp), sorted by atom
  bool operator<(const Mono &o) const {
    // graded-free lexicographic order, larger atoms first
    size_t i = f.size(), j = o.f.size();
    while (i > 0 && j > 0) {
      const auto &a = f[i - 1], &b = o.f[j - 1];
      if (a.first != b.first) return a.first < b.first ? b.second > 0 : a.second < 0;
      if (a.second != b.second) return a.second < b.second;
      --i;
      --j;
    }
    if (i == 0 && j == 0) return false;
    if (i == 0) return o.f[j - 1].second > 0;
    return f[i - 1].second < 0;
  }
  bool operator==(const Mono &o) const { return f == o.f; }
  bool one() const { return f.empty(); }
};

struct Poly {
  std::map<Mono, Q> t;
  Poly() = default;
  explicit Poly(const Q &c) {
    if (c != 0) t[Mono{}] = c;
  }
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.one()); }
  Q constVal() const { return t.empty() ? Q(0) : t.begin()->second; }
  bool operator==(const Poly &o) const { return t == o.t; }
  bool operator<(const Poly &o) const { return t < o.t; }
};

struct Interval {
  bool hasLo = false, hasHi = false;
  Q lo, hi;
};

enum class AtomKind { Input, Sqrt, Inv, Sin, Cos, Atan2, Fresh, Pi };

struct Atom {
  std::string name;
  AtomKind kind = AtomKind::Fresh;
  z3::expr var;
  std::optional<z3::expr> inv;  // created lazily, var * inv == 1
  bool hasSq = false;
  Poly sq;
  Interval b;
  std::vector<z3::expr> axioms;
  std::set<int> deps;
  Atom(z3::expr v) : var(v) {}
};

struct TrigBase {
  Poly angle;
  Poly s, c;
};

class Field {
 public:
  explicit Field(z3::context &c) : ctx(c) {}
  z3::context &ctx;
  std::vector<Atom> atoms;
  std::map<Poly, int> sqrtKey, invKey;
  std::map<std::pair<Poly, Poly>, int> atan2Key;
  // trig bases per monomial: coefficient -> base
  std::map<Mono, std::vector<std::pair<Q, TrigBase>>> trig;
  int piAtom = -1;

  int newAtom(const std::string &name, AtomKind k) {
    std::string nm = name;
    z3::expr v = ctx.real_const(nm.c_str());
    atoms.emplace_back(v);
    atoms.back().name = nm;
    atoms.back().kind = k;
    return (int)atoms.size() - 1;
  }
  Poly var(int a) const {
    Poly p;
    p.t[Mono{{{a, 1}}}] = 1;
    return p;
  }
  int pi() {
    if (piAtom < 0) {
      piAtom = newAtom("PI!", AtomKind::Pi);
      Interval b;
      b.hasLo = b.hasHi = true;
      b.lo = Q("3141592653589793/1000000000000000");
      b.hi = Q("3141592653589794/1000000000000000");
      setBounds(piAtom, b);
    }
    return piAtom;
  }
  void setBounds(int a, const Interval &b) {
    atoms[a].b = b;
    if (b.hasLo) atoms[a].axioms.push_back(atoms[a].var >= num(b.lo));
    if (b.hasHi) atoms[a].axioms.push_back(atoms[a].var <= num(b.hi));
  }
  z3::expr num(const Q &q) { return ctx.real_val(q.get_str().c_str()); }

  // ---- arithmetic
  Poly add(const Poly &a, const Poly &b) const {
    Poly r = a.t.size() >= b.t.size() ? a : b;
    const Poly &o = a.t.size() >= b.t.size() ? b : a;
    for (auto &kv : o.t) acc(r, kv.first, kv.second);
    return r;
  }
  Poly neg(const Poly &a) const {
    Poly r = a;
    for (auto &kv : r.t) kv.second = -kv.second;
    return r;
  }
  Poly sub(const Poly &a, const Poly &b) const {
    Poly r = a;
    for (auto &kv : b.t) acc(r, kv.first, -kv.second);
    return r;
  }
  Poly scale(const Poly &a, const Q &c) const {
    Poly r;
    if (c == 0) return r;
    for (auto &kv : a.t) r.t[kv.first] = kv.second * c;
    return r;
  }
  Poly mul(const Poly &a, const Poly &b) const {
    Poly r;
    for (auto &x : a.t)
      for (auto &y : b.t) mulInto(r, x.first, y.first, x.second * y.second);
    return r;
  }
  Poly powi(const Poly &a, int n) const {
    Poly r(Q(1));
    for (int i = 0; i < n; i++) r = mul(r, a);
    return r;
  }
  static void acc(Poly &r, const Mono &m, const Q &c) {
    if (c == 0) return;
    auto it = r.t.find(m);
    if (it == r.t.end())
      r.t.emplace(m, c);
    else {
      it->second += c;
      if (it->second == 0) r.t.erase(it);
    }
  }
  static Mono mm(const Mono &a, const Mono &b) {
    Mono r;
    size_t i = 0, j = 0;
    while (i < a.f.size() || j < b.f.size()) {
      if (j >= b.f.size() || (i < a.f.size() && a.f[i].first < b.f[j].first))
        r.f.push_back(a.f[i++]);
      else if (i >= a.f.size() || b.f[j].first < a.f[i].first)
        r.f.push_back(b.f[j++]);
      else {
        int e = a.f[i].second + b.f[j].second;
        if (e) r.f.push_back({a.f[i].first, e});
        i++;
        j++;
      }
    }
    return r;
  }
  void mulInto(Poly &r, const Mono &a, const Mono &b, const Q &c) const {
    Mono m = mm(a, b);
    for (size_t k = 0; k < m.f.size(); k++) {
      auto [at, e] = m.f[k];
      if (e >= 2 && atoms[at].hasSq) {
        Mono rest = m;
        if (e % 2)
          rest.f[k].second = 1;
        else
          rest.f.erase(rest.f.begin() + k);
        Poly p;
        p.t[rest] = c;
        Poly q = mul(p, powi(atoms[at].sq, e / 2));
        for (auto &kv : q.t) acc(r, kv.first, kv.second);
        return;
      }
    }
    acc(r, m, c);
  }

  // ---- exact division (returns nullopt if not exact)
  static bool monoDiv(const Mono &a, const Mono &b, Mono &r, bool allowNeg) {
    Mono bi = b;
    for (auto &x : bi.f) x.second = -x.second;
    r = mm(a, bi);
    if (!allowNeg)
      for (auto &x : r.f)
        if (x.second < 0) return false;
    return true;
  }
  std::optional<Poly> exactDiv(Poly a, Poly b) const {
    if (b.zero()) return std::nullopt;
    if (a.zero()) return a;
    // Clear negative exponents of each by a monomial shift.
    Mono sa = negShift(a), sb = negShift(b);
    a = shift(a, sa);
    b = shift(b, sb);
    Poly q;
    const auto lb = *b.t.rbegin();
    int guard = 0;
    while (!a.zero()) {
      if (++guard > 2000) return std::nullopt;
      const auto la = *a.t.rbegin();
      Mono m;
      if (!monoDiv(la.first, lb.first, m, false)) return std::nullopt;
      Q c = la.second / lb.second;
      acc(q, m, c);
      for (auto &kv : b.t) acc(a, mm(kv.first, m), -c * kv.second);  // no rule reduction: plain ring
    }
    // result * shift_b / shift_a
    Mono inv = sa;
    for (auto &x : inv.f) x.second = -x.second;
    q = shift(q, sb);
    q = shift(q, inv);
    return renorm(q);
  }
  static Mono negShift(const Poly &p) {
    std::map<int, int> mn;
    for (auto &kv : p.t)
      for (auto &x : kv.first.f)
        if (x.second < 0) mn[x.first] = std::max(mn[x.first], -x.second);
    Mono m;
    for (auto &kv : mn)
      if (kv.second) m.f.push_back({kv.first, kv.second});
    return m;
  }
  static Poly shift(const Poly &p, const Mono &m) {
    if (m.one()) return p;
    Poly r;
    for (auto &kv : p.t) acc(r, mm(kv.first, m), kv.second);
    return r;
  }
  Poly renorm(const Poly &p) const {
    Poly r;
    for (auto &kv : p.t) mulInto(r, kv.first, Mono{}, kv.second);
    return r;
  }

  // zero test modulo the rules, clearing denominators
  bool isZero(const Poly &p0) const {
    if (p0.zero()) return true;
    Poly p = p0;
    for (int it = 0; it < 8; ++it) {
      Mono s = negShift(p);
      if (!s.one()) p = mul(p, monoPoly(s));
      if (p.zero()) return true;
      // clear inverse atoms
      int ia = -1, deg = 0;
      for (auto &kv : p.t)
        for (auto &x : kv.first.f)
          if (atoms[x.first].kind == AtomKind::Inv && x.second > 0) ia = std::max(ia, x.first);
      if (ia < 0) return p.zero();
      for (auto &kv : p.t)
        for (auto &x : kv.first.f)
          if (x.first == ia) deg = std::max(deg, x.second);
      const Poly &den = invDen.at(ia);
      Poly r;
      for (auto &kv : p.t) {
        Mono m;
        int e = 0;
        for (auto &x : kv.first.f)
          if (x.first == ia)
            e = x.second;
          else
            m.f.push_back(x);
        Poly t;
        t.t[m] = kv.second;
        r = add(r, mul(t, powi(den, deg - e)));
      }
      p = r;
    }
    return p.zero();
  }
  Poly monoPoly(const Mono &m) const {
    Poly p;
    p.t[m] = 1;
    return renorm(p);
  }
  std::map<int, Poly> invDen;

  // division; caller guarantees b != 0
  Poly div(const Poly &a, const Poly &b) {
    if (b.isConst()) return scale(a, 1 / b.constVal());
    if (a.zero()) return a;
    if (auto q = exactDiv(a, b)) return *q;
    if (b.t.size() == 1) {
      auto kv = *b.t.begin();
      // If numerator is divisible by the rule of a rule-atom in the denominator, use it.
      for (auto &x : kv.first.f) {
        const Atom &at = atoms[x.first];
        if (at.hasSq && x.second > 0) {
          if (auto q = exactDiv(a, at.sq)) {
            Mono rest = kv.first;
            Poly nb;
            nb.t[rest] = kv.second;
            // a/b = q * at^2 / b
            Poly bb;
            Mono m2;
            monoDiv(kv.first, Mono{{{x.first, 1}}}, m2, true);
            bb.t[m2] = kv.second;
            return div(mul(*q, var(x.first)), bb);
          }
        }
      }
      Mono inv = kv.first;
      for (auto &x : inv.f) x.second = -x.second;
      Poly ip;
      ip.t[inv] = 1 / kv.second;
      return mul(a, ip);
    }
    // generic inverse atom of the monic denominator
    Q lc = b.t.rbegin()->second;
    Poly nb = scale(b, 1 / lc);
    auto it = invKey.find(nb);
    int ia;
    if (it != invKey.end())
      ia = it->second;
    else {
      ia = newAtom("inv!" + std::to_string(atoms.size()), AtomKind::Inv);
      invKey[nb] = ia;
      invDen[ia] = nb;
      z3::expr d = toZ3(nb);
      atoms[ia].axioms.push_back(atoms[ia].var * d == 1);
      collect(nb, atoms[ia].deps);
      Interval bi = bound(nb);
      Interval r;
      if (bi.hasLo && bi.lo > 0) {
        r.hasHi = true;
        r.hi = 1 / bi.lo;
        r.hasLo = true;
        r.lo = bi.hasHi ? Q(1 / bi.hi) : Q(0);
        setBounds(ia, r);
      } else if (bi.hasHi && bi.hi < 0) {
        r.hasLo = true;
        r.lo = 1 / bi.hi;
        r.hasHi = true;
        r.hi = bi.hasLo ? Q(1 / bi.lo) : Q(0);
        setBounds(ia, r);
      }
    }
    return scale(mul(a, var(ia)), 1 / lc);
  }

  // ---- square roots.  Returns (poly, needAbs): sqrt = needAbs ? |poly| : poly
  static bool sqrtQ(const Q &c, Q &r) {
    if (c < 0) return false;
    mpz_class n = c.get_num(), d = c.get_den();
    if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) {
      r = Q(sqrt(n), sqrt(d));
      r.canonicalize();
      return true;
    }
    return false;
  }
  std::optional<Poly> polySqrt(const Poly &p0) const {
    if (p0.zero()) return p0;
    // clear negatives by even shift
    Mono s = negShift(p0);
    for (auto &x : s.f)
      if (x.second % 2) x.second++;
    Poly p = shift(p0, s);
    const auto l = *p.t.rbegin();
    Q c;
    if (!sqrtQ(l.second, c)) return std::nullopt;
    Mono m = l.first;
    for (auto &x : m.f) {
      if (x.second % 2) return std::nullopt;
      x.second /= 2;
    }
    Poly r;
    r.t[m] = c;
    Poly rem = p;
    acc(rem, l.first, -l.second);
    int guard = 0;
    while (!rem.zero()) {
      if (++guard > 200) return std::nullopt;
      const auto lr = *rem.t.rbegin();
      Mono q;
      if (!monoDiv(lr.first, m, q, false)) return std::nullopt;
      Q k = lr.second / (2 * c);
      // subtract 2*k*q*r + k^2 q^2
      for (auto &kv : r.t) acc(rem, mm(kv.first, q), -2 * k * kv.second);
      acc(rem, mm(q, q), -k * k);
      if (!rem.zero() && !(rem.t.rbegin()->first < lr.first)) return std::nullopt;
      acc(r, q, k);
    }
    Mono is = s;
    for (auto &x : is.f) x.second = -x.second / 2;
    return renorm(shift(r, is));
  }
  std::pair<Poly, bool> sqrtOf(const Poly &p, int depth = 0) {
    if (p.isConst()) {
      Q r;
      if (sqrtQ(p.constVal(), r)) return {Poly(r), false};
      return {Poly(Q(std::sqrt(p.constVal().get_d()))), false};
    }
    if (auto r = polySqrt(p)) return {*r, true};
    if (depth < 4) {
      for (int a = (int)atoms.size() - 1; a >= 0; --a) {
        if (!atoms[a].hasSq || atoms[a].sq.t.size() < 2) continue;
        if (atoms[a].sq.t.size() > p.t.size() + 8) continue;
        if (auto q = exactDiv(p, atoms[a].sq)) {
          bool divides = mul(*q, atoms[a].sq) == p;
          if (!divides) continue;
          if (q->isConst()) {
            Q r;
            if (q->constVal() > 0) {
              if (!sqrtQ(q->constVal(), r)) r = Q(std::sqrt(q->constVal().get_d()));
              return {scale(var(a), r), true};
            }
          } else if (auto r = trySqrt(*q, depth + 1)) {
            return {mul(var(a), *r), true};
          }
        }
      }
    }
    auto it = sqrtKey.find(p);
    int sa;
    if (it != sqrtKey.end())
      sa = it->second;
    else {
      // perfect-square scaling is not attempted; key is the polynomial itself
      sa = newAtom("sqrt!" + std::to_string(atoms.size()), AtomKind::Sqrt);
      sqrtKey[p] = sa;
      Mono s = negShift(p);
      z3::expr arg = toZ3(p);
      atoms[sa].axioms.push_back(atoms[sa].var * atoms[sa].var == arg);
      atoms[sa].axioms.push_back(atoms[sa].var >= 0);
      atoms[sa].hasSq = true;
      atoms[sa].sq = p;
      collect(p, atoms[sa].deps);
      Interval bi = bound(p);
      Interval r;
      r.hasLo = true;
      r.lo = bi.hasLo && bi.lo > 0 ? sqrtDown(bi.lo) : Q(0);
      if (bi.hasHi) {
        r.hasHi = true;
        r.hi = sqrtUp(bi.hi);
      }
      setBounds(sa, r);
    }
    return {var(sa), false};
  }
  std::optional<Poly> trySqrt(const Poly &p, int depth) {
    if (p.isConst()) {
      Q r;
      if (p.constVal() > 0 && sqrtQ(p.constVal(), r)) return Poly(r);
      return std::nullopt;
    }
    if (auto r = polySqrt(p)) return r;
    if (depth >= 4) return std::nullopt;
    for (int a = (int)atoms.size() - 1; a >= 0; --a) {
      if (!atoms[a].hasSq || atoms[a].sq.t.size() < 2) continue;
      if (auto q = exactDiv(p, atoms[a].sq)) {
        if (!(mul(*q, atoms[a].sq) == p)) continue;
        if (auto r = trySqrt(*q, depth + 1)) return mul(var(a), *r);
      }
    }
    return std::nullopt;
  }
  static Q sqrtUp(const Q &q) { return Q(std::sqrt(q.get_d()) * (1 + 1e-15) + 1e-300); }
  static Q sqrtDown(const Q &q) { return Q(std::sqrt(q.get_d()) * (1 - 1e-15)); }

  // ---- trig
  // register (angle, s, c) as the base for single-term angle
  TrigBase &registerBase(const Poly &angle, const Poly &s, const Poly &c) {
    const auto &kv = *angle.t.begin();
    auto &v = trig[kv.first];
    v.push_back({kv.second, TrigBase{angle, s, c}});
    return v.back().second;
  }
  std::pair<Poly, Poly> freshTrig(const Poly &angle) {
    int sa = newAtom("sin!" + std::to_string(atoms.size()), AtomKind::Sin);
    int ca = newAtom("cos!" + std::to_string(atoms.size()), AtomKind::Cos);
    linkTrig(angle, sa, ca);
    return {var(sa), var(ca)};
  }
  void linkTrig(const Poly &angle, int sa, int ca) {
    Interval u;
    u.hasLo = u.hasHi = true;
    u.lo = -1;
    u.hi = 1;
    Interval a = bound(angle);
    Interval us = u, uc = u;
    const Q PIH("3141592653589794/1000000000000000");
    const Q PIL("3141592653589793/1000000000000000");
    if (a.hasLo && a.hasHi && a.lo >= 0 && a.hi <= PIL) us.lo = 0;
    if (a.hasLo && a.hasHi && a.lo >= -PIL / 2 && a.hi <= PIL / 2) uc.lo = 0;
    if (a.hasLo && a.hasHi && a.hi - a.lo < Q(1000)) {
      // enclosures from the end points and the extrema inside the interval
      double lo = a.lo.get_d(), hi = a.hi.get_d();
      const double pad = 1e-12 + 1e-15 * std::max(std::fabs(lo), std::fabs(hi)), pi = 3.14159265358979323846;
      auto enclose = [&](double shift, double &mn, double &mx) {  // of cos(x - shift)
        double l = lo - shift, h = hi - shift;
        mn = std::min(std::cos(l), std::cos(h)) - pad;
        mx = std::max(std::cos(l), std::cos(h)) + pad;
        if (std::floor((h + 1e-9) / (2 * pi)) > std::floor((l - 1e-9) / (2 * pi))) mx = 1;
        if (std::floor((h - pi + 1e-9) / (2 * pi)) > std::floor((l - pi - 1e-9) / (2 * pi))) mn = -1;
        mx = std::min(mx, 1.);
        mn = std::max(mn, -1.);
      };
      double mn, mx;
      enclose(0, mn, mx);
      if (Q(mn) > uc.lo) uc.lo = Q(mn);
      if (Q(mx) < uc.hi) uc.hi = Q(mx);
      enclose(pi / 2, mn, mx);
      if (Q(mn) > us.lo) us.lo = Q(mn);
      if (Q(mx) < us.hi) us.hi = Q(mx);
    }
    setBounds(sa, us);
    setBounds(ca, uc);
    atoms[ca].hasSq = true;
    atoms[ca].sq = sub(Poly(Q(1)), mul(var(sa), var(sa)));
    z3::expr s = atoms[sa].var, c = atoms[ca].var;
    atoms[ca].axioms.push_back(s * s + c * c == 1);
    atoms[ca].deps.insert(sa);
    // Taylor envelopes (valid for all real angles >= 0)
    z3::expr t = toZ3(angle);
    atoms[sa].axioms.push_back(z3::implies(t >= 0, s <= t));
    atoms[sa].axioms.push_back(z3::implies(t >= 0, s >= t - t * t * t / 6));
    atoms[ca].axioms.push_back(c >= 1 - t * t / 2);
    if (!(a.hasLo && a.hasHi && us.lo > 0)) atoms[sa].axioms.push_back(z3::implies(t > 0 && t < num(PIL), s > 0));
    if (!(a.hasLo && a.hasHi && (uc.lo > 0 || a.hi < PIL / 2)))
      atoms[ca].axioms.push_back(z3::implies(t > num(PIH / 2) && t < num(3 * PIL / 2), c < 0));
    if (!(a.hasLo && a.hasHi && uc.lo > 0)) atoms[ca].axioms.push_back(z3::implies(t > num(-PIL / 2) && t < num(PIL / 2), c > 0));
    collect(angle, atoms[sa].deps);
    collect(angle, atoms[ca].deps);
  }
  std::pair<Poly, Poly> sinCosTerm(const Mono &m, Q c) {
    bool ng = c < 0;
    if (ng) c = -c;
    Poly S, C;
    if (m.one()) {
      double d = c.get_d();
      S = Poly(Q(std::sin(d)));
      C = Poly(Q(std::cos(d)));
    } else if (m.f.size() == 1 && m.f[0].second == 1 && m.f[0].first == piAtom && Q(c * 2).get_den() == 1) {
      mpz_class k = mpz_class(Q(c * 2).get_num()) % 4;
      int q = (int)k.get_si();
      static const int ss[] = {0, 1, 0, -1}, cc[] = {1, 0, -1, 0};
      S = Poly(Q(ss[q]));
      C = Poly(Q(cc[q]));
    } else {
      TrigBase *base = nullptr;
      int k = 0;
      auto it = trig.find(m);
      if (it != trig.end())
        for (auto &b : it->second) {
          Q r = c / b.first;
          if (r.get_den() == 1 && abs(r) <= 16) {
            base = &b.second;
            k = (int)r.get_num().get_si();
            break;
          }
        }
      TrigBase tb;
      if (!base) {
        Poly ang;
        ang.t[m] = c;
        auto [s, co] = freshTrig(ang);
        registerBase(ang, s, co);
        tb = TrigBase{ang, s, co};
        k = 1;
      } else
        tb = *base;
      if (k < 0) {
        tb.s = neg(tb.s);
        k = -k;
      }
      S = Poly(Q(0));
      C = Poly(Q(1));
      for (int i = 0; i < k; i++) {
        Poly s2 = add(mul(S, tb.c), mul(C, tb.s));
        Poly c2 = sub(mul(C, tb.c), mul(S, tb.s));
        S = s2;
        C = c2;
      }
    }
    if (ng) S = neg(S);
    return {S, C};
  }
  std::pair<Poly, Poly> sinCos(const Poly &p) {
    Poly S(Q(0)), C(Q(1));
    for (auto &kv : p.t) {
      auto [s, c] = sinCosTerm(kv.first, kv.second);
      Poly s2 = add(mul(S, c), mul(C, s));
      Poly c2 = sub(mul(C, c), mul(S, s));
      S = s2;
      C = c2;
    }
    return {S, C};
  }
  // atan2 matching: (Y,X) = r(sin t, cos t).  positive(r) decides r > 0.
  Poly atan2Of(const Poly &Y, const Poly &X, const std::function<bool(const Poly &)> &nonneg) {
    const Q PIL("3141592653589793/1000000000000000");
    for (auto &kv : trig)
      for (auto &b : kv.second) {
        const TrigBase &t = b.second;
        Interval a = bound(t.angle);
        if (!(a.hasLo && a.hasHi)) continue;
        if (a.lo < 0 || a.hi > PIL) continue;
        for (int sx = 1; sx >= -1; sx -= 2)
          for (int sy = 1; sy >= -1; sy -= 2) {
            Poly S = scale(t.s, sy), C = scale(t.c, sx);
            std::optional<Poly> r;
            if (Y == S && X == C)
              r = Poly(Q(1));
            else {
              auto ry = exactDiv(Y, S);
              if (ry && mul(*ry, C) == X && nonneg(*ry)) r = ry;
            }
            if (!r) continue;
            Poly ang = sx > 0 ? t.angle : sub(var(pi()), t.angle);
            if (sy < 0) ang = neg(ang);
            return ang;
          }
      }
    auto key = std::make_pair(Y, X);
    auto it = atan2Key.find(key);
    if (it != atan2Key.end()) return var(it->second);
    int a = newAtom("atan2!" + std::to_string(atoms.size()), AtomKind::Atan2);
    atan2Key[key] = a;
    Interval b;
    b.hasLo = b.hasHi = true;
    b.hi = Q("3141592653589794/1000000000000000");
    b.lo = nonneg(Y) ? Q(0) : Q(-b.hi);
    if (nonneg(X)) {
      b.hi = b.hi / 2;
      if (b.lo < 0) b.lo = -b.hi;
    }
    setBounds(a, b);
    collect(Y, atoms[a].deps);
    collect(X, atoms[a].deps);
    return var(a);
  }

  // ---- bounds
  static Interval imul(const Interval &a, const Interval &b) {
    Interval r;
    if (a.hasLo && a.hasHi && b.hasLo && b.hasHi) {
      Q v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
      r.lo = r.hi = v[0];
      for (auto &x : v) {
        if (x < r.lo) r.lo = x;
        if (x > r.hi) r.hi = x;
      }
      r.hasLo = r.hasHi = true;
    } else if (a.hasLo && b.hasLo && a.lo >= 0 && b.lo >= 0) {
      r.hasLo = true;
      r.lo = a.lo * b.lo;
    }
    return r;
  }
  Interval boundMono(const Mono &m) const {
    Interval r;
    r.hasLo = r.hasHi = true;
    r.lo = r.hi = 1;
    for (auto &x : m.f) {
      Interval b = atoms[x.first].b;
      int e = x.second;
      if (e < 0) {
        Interval i;
        if (b.hasLo && b.lo > 0) {
          i.hasHi = true;
          i.hi = 1 / b.lo;
          i.hasLo = true;
          i.lo = b.hasHi ? Q(1 / b.hi) : Q(0);
        } else if (b.hasHi && b.hi < 0) {
          i.hasLo = true;
          i.lo = 1 / b.hi;
          i.hasHi = true;
          i.hi = b.hasLo ? Q(1 / b.lo) : Q(0);
        } else if (b.hasLo && b.lo == 0) {
          i.hasLo = true;
          i.lo = 0;
        }
        b = i;
        e = -e;
      }
      Interval p;
      p.hasLo = p.hasHi = true;
      p.lo = p.hi = 1;
      if (e % 2 == 0) {
        // even power: nonneg
        Interval sq;
        sq.hasLo = true;
        sq.lo = 0;
        if (b.hasLo && b.hasHi) {
          Q l = abs(b.lo), h = abs(b.hi);
          Q mx = l > h ? l : h, mn = l > h ? h : l;
          if (b.lo <= 0 && b.hi >= 0) mn = 0;
          sq.lo = mn * mn;
          sq.hasHi = true;
          sq.hi = mx * mx;
        }
        for (int k = 0; k < e / 2; k++) p = imul(p, sq);
      } else
        for (int k = 0; k < e; k++) p = imul(p, b);
      r = imul(r, p);
    }
    return r;
  }
  Interval bound(const Poly &p) const {
    Interval r;
    r.hasLo = r.hasHi = true;
    r.lo = r.hi = 0;
    for (auto &kv : p.t) {
      Interval b = boundMono(kv.first);
      const Q &c = kv.second;
      bool hl = c > 0 ? b.hasLo : b.hasHi, hh = c > 0 ? b.hasHi : b.hasLo;
      if (r.hasLo) {
        if (hl)
          r.lo += c * (c > 0 ? b.lo : b.hi);
        else
          r.hasLo = false;
      }
      if (r.hasHi) {
        if (hh)
          r.hi += c * (c > 0 ? b.hi : b.lo);
        else
          r.hasHi = false;
      }
    }
    return r;
  }

  // ---- z3
  z3::expr atomPow(int a, int e) {
    z3::expr v = atoms[a].var;
    if (e < 0) {
      if (!atoms[a].inv) {
        std::string nm = atoms[a].name + "^-1";
        atoms[a].inv = ctx.real_const(nm.c_str());
        atoms[a].axioms.push_back(*atoms[a].inv * v == 1);
      }
      v = *atoms[a].inv;
      e = -e;
    }
    z3::expr r = v;
    for (int i = 1; i < e; i++) r = r * v;
    return r;
  }
  z3::expr toZ3(const Poly &p) {
    z3::expr_vector sum(ctx);
    for (auto &kv : p.t) {
      z3::expr m = num(kv.second);
      bool first = kv.second == 1 && !kv.first.one();
      for (auto &x : kv.first.f) {
        z3::expr w = atomPow(x.first, x.second);
        if (first) {
          m = w;
          first = false;
        } else
          m = m * w;
      }
      sum.push_back(m);
    }
    if (sum.empty()) return ctx.real_val(0);
    if (sum.size() == 1) return sum[0];
    return z3::sum(sum);
  }
  void collect(const Poly &p, std::set<int> &out) const {
    for (auto &kv : p.t)
      for (auto &x : kv.first.f) out.insert(x.first);
  }
  void close(std::set<int> &s) const {
    std::vector<int> work(s.begin(), s.end());
    while (!work.empty()) {
      int a = work.back();
      work.pop_back();
      for (int d : atoms[a].deps)
        if (s.insert(d).second) work.push_back(d);
      std::set<int> q;
      if (atoms[a].hasSq) {
        collect(atoms[a].sq, q);
        for (int d : q)
          if (s.insert(d).second) work.push_back(d);
      }
    }
  }
  std::string str(const Poly &p) const {
    std::string r;
    int n = 0;
    for (auto it = p.t.rbegin(); it != p.t.rend(); ++it) {
      if (n++ > 12) {
        r += " + ...(" + std::to_string(p.t.size()) + ")";
        break;
      }
      if (!r.empty()) r += " + ";
      r += it->second.get_den() > 1000000 ? std::to_string(it->second.get_d()) : it->second.get_str();
      for (auto &x : it->first.f) {
        r += "*" + atoms[x.first].name;
        if (x.second != 1) r += "^" + std::to_string(x.second);
      }
    }
    return r.empty() ? "0" : r;
  }
};

}  // namespace sx
