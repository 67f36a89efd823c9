#include "sx.h"
#include <array>
#include "resim/assert/assert.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
using namespace resim;
using namespace resim::transforms;
using F3 = Frame<3>;
using V3 = Eigen::Vector3d;
namespace {
// An arbitrary frame id: all 128 bits symbolic (the null frame included).
F3 frame(const char *name) {
  std::array<unsigned char, 16> a{};
  sx_bytes(a.data(), 16, name);
  return F3{UUID{a}};
}
const V3 T{1.5, -2., 0.25};
// The numbers inside the transforms: one fixed choice, or (the entries named _any) arbitrary.
bool any = false;
int made = 0;
double number(int i) {
  static const char *const names[2][13] = {{"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "xa", "xb", "xc"},
                                           {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7", "y8", "y9", "ya", "yb", "yc"}};
  return sx_f64(names[made][i]);
}
SO3 rotation() {
  if (not any) return SO3{0.5, V3::UnitZ()};
  Eigen::Matrix3d m;
  for (int i = 0; i < 9; i++) m(i / 3, i % 3) = number(i);
  return SO3{m};
}
V3 translation() { return any ? V3{number(9), number(10), number(11)} : T; }
double part() { return any ? sx_f64("part") : 0.25; }
template <typename G>
struct Make;
template <>
struct Make<SO3> {
  static SO3 plain() { return rotation(); }
  static SO3 framed(F3 i, F3 f) { return SO3{rotation().rotation_matrix(), i, f}; }
  static constexpr int KINDS = 4;
  static SO3 kind(int k, const F3 &i, const F3 &f) {
    if (k == 0) return any ? SO3{number(0), V3{number(1), number(2), number(3)}, i, f} : SO3{0.5, V3::UnitZ(), i, f};
    if (k == 1) return SO3{any ? Eigen::Quaterniond{number(0), number(1), number(2), number(3)} : Eigen::Quaterniond{0.6, 0., 0.8, 0.}, i, f};
    if (k == 2) return SO3::identity(i, f);
    return SO3::exp(any ? V3{number(0), number(1), number(2)} : V3{0.1, 0.2, 0.3}, i, f);
  }
};
template <>
struct Make<SE3> {
  static SE3 plain() { return SE3{rotation(), translation()}; }
  static SE3 framed(F3 i, F3 f) { return SE3{rotation(), translation(), i, f}; }
  static constexpr int KINDS = 5;
  static SE3 kind(int k, const F3 &i, const F3 &f) {
    if (k == 0) return SE3{rotation(), translation(), i, f};
    if (k == 1) return SE3{rotation(), i, f};
    if (k == 2) return SE3{translation(), i, f};
    if (k == 3) return SE3::identity(i, f);
    SE3::TangentVector a;
    a << 0.1, 0.2, 0.3, 1., 2., 3.;
    if (any)
      for (int n = 0; n < 6; n++) a(n) = number(n);
    return SE3::exp(a, i, f);
  }
};
// a framed (both ids not null) or unframed element
template <typename G>
G element(const char *i, const char *f, bool framed, F3 &into, F3 &from) {
  if (not framed) {
    into = from = F3::null_frame();
    const G g = Make<G>::plain();
    made++;
    return g;
  }
  into = frame(i);
  from = frame(f);
  sx_assume(not into.is_null());
  sx_assume(not from.is_null());
  const G g = Make<G>::framed(into, from);
  made++;
  return g;
}
template <typename G>
void constructing() {
  const F3 i = frame("into"), f = frame("from");
  const int k = sx_choose("kind", Make<G>::KINDS);
  bool threw = false;
  try {
    const G g = Make<G>::kind(k, i, f);
    sx_assert(g.into() == i and g.from() == f, "a transform does not carry the frames it was built with");
    sx_assert(g.is_framed() == not i.is_null(), "is_framed is not 'has frames'");
    sx_reach("built");
  } catch (const AssertException &) {
    threw = true;
    sx_reach("rejected");
  }
  sx_assert(threw == (i.is_null() != f.is_null()), "a half-framed transform was accepted, or a consistent one rejected");
}
template <typename G>
void relabelling() {
  F3 i0, f0;
  const bool framed = sx_bool("framed");
  G g = element<G>("into", "from", framed, i0, f0);
  const F3 i = frame("i"), f = frame("f");
  const bool bad = i.is_null() or f.is_null();
  bool threw = false;
  try {
    g.set_frames(i, f);
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == bad, "null frames were accepted, or proper ones rejected");
  if (threw)
    sx_assert(g.into() == i0 and g.from() == f0, "rejected frames changed the transform");
  else
    sx_assert(g.into() == i and g.from() == f and g.is_framed(), "frames were not set");
  const F3 a = frame("a"), b = frame("b");
  const bool vi = g.into() == a, vf = g.from() == b;
  sx_assert(g.verify_into(a) == vi and g.verify_from(b) == vf and g.verify_frames(a, b) == (vi and vf),
            "frame verification is not comparison with the frames carried");
  g.set_unframed();
  sx_assert(not g.is_framed() and g.into().is_null() and g.from().is_null(), "frames remain after they were removed");
  sx_reach("relabelled");
}
template <typename G>
void composing() {
  F3 ai, af, bi, bf;
  const bool fa = sx_bool("fa"), fb = sx_bool("fb");
  const G a = element<G>("ai", "af", fa, ai, af), b = element<G>("bi", "bf", fb, bi, bf);
  bool threw = false;
  try {
    const G c = a * b;
    if (fa and fb)
      sx_assert(c.into() == ai and c.from() == bf, "a composition does not carry the outer frames");
    else
      sx_assert(not c.is_framed() and c.into().is_null() and c.from().is_null(), "a partly unframed composition carries frames");
    sx_reach("composed");
  } catch (const AssertException &) {
    threw = true;
    sx_reach("rejected");
  }
  const bool mismatch = fa and fb and af != bi;
  sx_assert(threw == mismatch, "mismatching inner frames were accepted, or a valid composition rejected");
  const G inv = a.inverse();
  sx_assert(inv.into() == af and inv.from() == ai, "the inverse does not swap the frames");
  sx_assert(inv.is_framed() == fa, "inverting changed whether the transform is framed");
}
template <typename G>
void vectors() {
  F3 i, f;
  const bool framed = sx_bool("framed");
  const G g = element<G>("into", "from", framed, i, f);
  const F3 vf = frame("vf");
  const FramedVector<3> v{V3{1., 2., 3.}, vf};
  bool threw = false;
  try {
    const FramedVector<3> r = g.rotate(v);
    sx_assert(r.frame() == i, "a rotated vector is not expressed in the into frame");
    if (not any) sx_assert(r.vector() == g.rotate(V3{1., 2., 3.}), "a framed vector rotates differently");
    sx_reach("rotated");
  } catch (const AssertException &) {
    threw = true;
    sx_reach("rejected");
  }
  sx_assert(threw == not(framed and f == vf), "a vector of another frame was rotated, or a matching one rejected");
}
template <typename G>
void interpolating() {
  F3 i, f;
  const bool framed = sx_bool("framed");
  const G g = element<G>("into", "from", framed, i, f);
  if (sx_choose("call", 2) == 0) {
    const G h = g.interp(part());
    sx_assert(h.into() == i and h.from() == f, "interpolation does not keep the frames");
    return sx_reach("kept");
  }
  const F3 n = frame("n");
  bool threw = false;
  try {
    const G m = g.interp(part(), n);
    sx_assert(m.into() == i and m.from() == n, "interpolation does not carry the new from frame");
    sx_reach("relabelled");
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == (not framed or n.is_null()), "interpolation to a new frame of an unframed transform (or a null frame) was accepted, or a valid one rejected");
}
template <typename G>
void comparing() {
  F3 ai, af, bi, bf;
  const bool fa = sx_bool("fa"), fb = sx_bool("fb");
  const G a = element<G>("ai", "af", fa, ai, af), b = element<G>("bi", "bf", fb, bi, bf);
  const bool same = ai == bi and af == bf;
  sx_assert(a.is_approx(b) == same, "equal transforms with other frames compare equal, or with the same frames do not");
  sx_assert(a.is_approx_transform(b), "the frame-blind comparison looks at frames");
  sx_reach(same ? "same" : "other");
}
}  // namespace
SX_ENTRY so3_construct() { constructing<SO3>(); }
SX_ENTRY se3_construct() { constructing<SE3>(); }
SX_ENTRY so3_relabel() { relabelling<SO3>(); }
SX_ENTRY se3_relabel() { relabelling<SE3>(); }
SX_ENTRY so3_compose() { composing<SO3>(); }
SX_ENTRY se3_compose() { composing<SE3>(); }
SX_ENTRY so3_vector() { vectors<SO3>(); }
SX_ENTRY se3_vector() { vectors<SE3>(); }
SX_ENTRY so3_interp() { interpolating<SO3>(); }
SX_ENTRY se3_interp() { interpolating<SE3>(); }
SX_ENTRY so3_construct_any() { any = true; constructing<SO3>(); }
SX_ENTRY se3_construct_any() { any = true; constructing<SE3>(); }
SX_ENTRY so3_compose_any() { any = true; composing<SO3>(); }
SX_ENTRY se3_compose_any() { any = true; composing<SE3>(); }
SX_ENTRY so3_vector_any() { any = true; vectors<SO3>(); }
SX_ENTRY se3_vector_any() { any = true; vectors<SE3>(); }
SX_ENTRY so3_interp_any() { any = true; interpolating<SO3>(); }
SX_ENTRY se3_interp_any() { any = true; interpolating<SE3>(); }
SX_ENTRY so3_compare() { comparing<SO3>(); }
SX_ENTRY se3_compare() { comparing<SE3>(); }

// A pose built from a framed rotation owns only its own frames; its rotation is unframed.
SX_ENTRY se3_owns_frames() {
  F3 ri, rf, i, f;
  const SO3 r = element<SO3>("ri", "rf", true, ri, rf);
  i = frame("i");
  f = frame("f");
  sx_assume(i.is_null() == f.is_null());
  const int k = sx_choose("kind", 4);
  const SE3 g = k == 0 ? SE3{r} : k == 1 ? SE3{r, i, f} : k == 2 ? SE3{r, T} : SE3{r, T, i, f};
  const bool with = k == 1 or k == 3;
  sx_assert(g.into() == (with ? i : F3{}) and g.from() == (with ? f : F3{}), "a pose carries the frames of its rotation");
  sx_assert(not g.rotation().is_framed() and g.rotation().into().is_null() and g.rotation().from().is_null(),
            "the rotation inside a pose carries frames");
  sx_assert(g.rotation().rotation_matrix() == r.rotation_matrix(), "removing frames changed the rotation");
  const SE3 a = SE3{SO3{r}, T, i, f}.inverse();
  sx_assert(not a.rotation().is_framed(), "the rotation inside an inverted pose carries frames");
  sx_reach("owned");
}

// Framed vectors: sums only within one frame; comparisons see frames; scaling keeps them.
SX_ENTRY framed_vectors() {
  const F3 f = frame("f"), g = frame("g");
  const V3 x{1., -2., 3.}, y{0.5, 4., -1.};
  const FramedVector<3> a{x, f}, b{y, g}, c{x, g};
  const bool same = f == g;
  bool threw = false;
  try {
    const FramedVector<3> s = a + b;
    sx_assert(s.frame() == f and s.vector() == x + y, "the sum of framed vectors is wrong");
  } catch (const AssertException &) {
    threw = true;
  }
  sx_assert(threw == not same, "vectors of different frames were added, or of one frame rejected");
  sx_assert((a == c) == same, "equality of framed vectors ignores the frame");
  sx_assert(a.isApprox(c) == same and a.isApprox(c, 1e-3) == same, "approximate equality of framed vectors ignores the frame");
  sx_assert(a.isApprox(x) and not a.isApprox(y), "comparison with an unframed vector is wrong");
  sx_assert(not(a == FramedVector<3>{y, f}), "different vectors compare equal");
  const FramedVector<3> d = a * 2., e = 2. * a;
  sx_assert(d.frame() == f and e.frame() == f and d.vector() == V3{2., -4., 6.} and e.vector() == d.vector(),
            "scaling a framed vector changes its frame or is wrong");
  const V3 u = a + y;
  sx_assert(u == x + y, "adding an unframed vector is wrong");
  FramedVector<3> m = a;
  m.set_frame(g);
  sx_assert(m.frame() == g and m.vector() == x, "setting the frame failed");
  sx_assert(F3{}.is_null() and F3::null_frame().is_null() and (f == F3{}) == f.is_null(), "the null frame is not null");
  sx_assert((f != g) == not same, "frame inequality is not the negation of equality");
  sx_reach(same ? "same" : "different");
}
// Frames made fresh differ from each other and from every vector's own fresh frame.
SX_ENTRY fresh_frames() {
  const F3 a = F3::new_frame(), b = F3::new_frame();
  const FramedVector<3> v{V3{1., 2., 3.}};
  sx_assert(a != b and not a.is_null() and not b.is_null(), "new frames are not unique");
  sx_assert(v.frame() != a and v.frame() != b and not v.frame().is_null(), "a vector without frame shares one");
  sx_reach("fresh");
}
// distances require a common reference frame
SX_ENTRY distances() {
  F3 ai, af, bi, bf;
  const bool fa = sx_bool("fa"), fb = sx_bool("fb");
  const SE3 a = element<SE3>("ai", "af", fa, ai, af), b = element<SE3>("bi", "bf", fb, bi, bf);
  sx_assert(sx_throws_as<AssertException>([&] { se3_distance(a, b); }) == (af != bf), "distance between poses of different reference frames");
  sx_assert(sx_throws_as<AssertException>([&] { se3_inverse_distance(a, b); }) == (ai != bi),
            "inverse distance between poses of different reference frames");
  sx_reach("compared");
}
