#include "jets.h"
#include "resim/assert/assert.hh"
#include "resim/curves/two_jet.hh"
using namespace resim::transforms;
using namespace resim::curves;
namespace {
template <typename J, typename G>
J first() {
  return J{Sym<G>::g("ah", "au", AX), Sym<G>::t(AD), Sym<G>::t(AE)};
}
template <typename J, typename G>
J second() {
  return J{Sym<G>::g("bh", "bu", BX), Sym<G>::t(BD), Sym<G>::t(BE)};
}
template <typename J, typename G>
void product() {
  const J a = first<J, G>(), b = second<J, G>();
  same(jet(a * b), times(jet(a), jet(b)), "a product of two-jets has the wrong value", "a product of two-jets has the wrong first derivative",
       "a product of two-jets has the wrong second derivative");
  sx_reach("end");
}
template <typename J, typename G>
void inverse() {
  const J a = first<J, G>();
  const auto r = times(jet(a), jet(a.inverse()));
  using M = decltype(r.v);
  same(r, one<std::remove_cv_t<M>>(), "the inverse of a two-jet has the wrong value", "the inverse of a two-jet has the wrong first derivative",
       "the inverse of a two-jet has the wrong second derivative");
  const Frame<3> f;
  same(jet(J::identity(f, f)), one<std::remove_cv_t<M>>(), "the identity two-jet moves", "the identity two-jet moves", "the identity two-jet moves");
  same(jet(J{}), one<std::remove_cv_t<M>>(), "the default two-jet moves", "the default two-jet moves", "the default two-jet moves");
  sx_reach("end");
}
template <typename G>
void convert() {
  // the other flavour describes the inverse curve
  const TwoJetL<G> a = first<TwoJetL<G>, G>();
  const TwoJetR<G> r = a.right_two_jet();
  const auto p = times(jet(a), jet(r));
  using M = std::remove_cv_t<decltype(p.v)>;
  same(p, one<M>(), "conversion to right changes the pose", "conversion to right changes the first derivative", "conversion to right changes the second derivative");
  const TwoJetL<G> b = r.left_two_jet();
  near(b.frame_from_ref(), a.frame_from_ref(), "conversion there and back changes the pose");
  near(b.d_frame_from_ref(), a.d_frame_from_ref(), "conversion there and back changes the first derivative");
  near(b.d2_frame_from_ref(), a.d2_frame_from_ref(), "conversion there and back changes the second derivative");
  const TwoJetR<G> c{a.frame_from_ref(), a.d_frame_from_ref(), a.d2_frame_from_ref()};
  same(times(jet(c.left_two_jet()), jet(c)), one<M>(), "conversion to left changes the pose", "conversion to left changes the first derivative",
       "conversion to left changes the second derivative");
  sx_reach("end");
}
template <typename G>
void members() {
  const auto g = Sym<G>::g("ah", "au", AX);
  const auto d = Sym<G>::t(AD), e = Sym<G>::t(AE);
  TwoJetL<G> l;
  l.set_frame_from_ref(g);
  l.set_d_frame_from_ref(d);
  l.set_d2_frame_from_ref(e);
  near(l.frame_from_ref(), g, "the pose is not the one set");
  near(l.d_frame_from_ref(), d, "the first derivative is not the one set");
  near(l.d2_frame_from_ref(), e, "the second derivative is not the one set");
  TwoJetR<G> r;
  r.set_ref_from_frame(g);
  r.set_d_ref_from_frame(d);
  r.set_d2_ref_from_frame(e);
  near(r.ref_from_frame(), g, "the pose is not the one set");
  near(r.d_ref_from_frame(), d, "the first derivative is not the one set");
  near(r.d2_ref_from_frame(), e, "the second derivative is not the one set");
  sx_reach("end");
}
// approximate equality looks at all three members
template <typename J, typename G>
void approx() {
  const V3 z{0., 0., 0.};
  const int k = sx_choose("k", 4);
  const double x = sx_real("x", 1., 2.), y = sx_real("y", 0.25, 0.5);
  typename G::TangentVector d, e;
  for (int i = 0; i < d.size(); i++) d(i) = x;
  for (int i = 0; i < e.size(); i++) e(i) = 1.5;
  auto d2 = d, e2 = e;
  const SO3 q{Eigen::Quaterniond{0.6, 0.8, 0., 0.}};
  if (k == 1) d2(sx_choose("i", d.size())) += y;
  if (k == 2) e2(sx_choose("i", d.size())) += y;
  const J a{G{SO3::identity()}, d, e}, b{k == 3 ? G{q} : G{SO3::identity()}, d2, e2};
  sx_assert(a.is_approx(b) == (k == 0), "approximate equality of two-jets misses a member, or rejects equal ones");
  sx_reach("end");
}
}  // namespace
#define ENTRIES(G, n)                                      \
  SX_ENTRY n##_product_l() { product<TwoJetL<G>, G>(); }   \
  SX_ENTRY n##_product_r() { product<TwoJetR<G>, G>(); }   \
  SX_ENTRY n##_inverse_l() { inverse<TwoJetL<G>, G>(); }   \
  SX_ENTRY n##_inverse_r() { inverse<TwoJetR<G>, G>(); }   \
  SX_ENTRY n##_convert() { convert<G>(); }                 \
  SX_ENTRY n##_members() { members<G>(); }                 \
  SX_ENTRY n##_approx_l() { approx<TwoJetL<G>, G>(); }     \
  SX_ENTRY n##_approx_r() { approx<TwoJetR<G>, G>(); }
ENTRIES(SO3, so3)
ENTRIES(SE3, se3)
