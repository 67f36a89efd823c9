#include <Eigen/Dense>
#include <memory>
#include <random>
#include <vector>
#include "geo.h"
#include "resim/assert/assert.hh"
#include "resim/math/multivariate_gaussian.hh"
using namespace resim;
using math::Gaussian;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace {
// The decomposition handed to the contract of the solver (unused in replays).
void decomposed(const VectorXd &l, const MatrixXd &v) {
#ifdef SX_EIGEN_MODEL
  static sxeigen::Decomposition d;
  d.l = l;
  d.v = v;
  sxeigen::known = &d;
#endif
}
Gaussian standard(int d) {
  decomposed(VectorXd::Ones(d), MatrixXd::Identity(d, d));
  return Gaussian{VectorXd::Zero(d), MatrixXd::Identity(d, d)};
}
MatrixXd turn(int d) {
  if (d == 1) return MatrixXd::Identity(1, 1);
  if (d == 3) {
    M3 m;
    m(0, 0) = m(0, 2) = m(1, 0) = m(1, 1) = m(2, 1) = m(2, 2) = 2. / 3.;
    m(0, 1) = m(1, 2) = m(2, 0) = -1. / 3.;
    return m;
  }
  double s, c;
  (void)sx_trig("a", -PI, PI, &s, &c);
  MatrixXd v(2, 2);
  v(0, 0) = v(1, 1) = c;
  v(0, 1) = -s;
  v(1, 0) = s;
  return v;
}
VectorXd ordered(int d, double lo) {
  const char *const n[3] = {"l0", "l1", "l2"};
  VectorXd l(d);
  for (int i = 0; i < d; i++) {
    l(i) = sx_real(n[i], lo, 1e4);
    if (i > 0) sx_assume(l(i) >= l(i - 1));
  }
  return l;
}
VectorXd mean(int d) {
  const char *const n[3] = {"m0", "m1", "m2"};
  VectorXd m(d);
  for (int i = 0; i < d; i++) m(i) = sx_real(n[i], -1e6, 1e6);
  return m;
}
MatrixXd product(const MatrixXd &a, const MatrixXd &b) {
  MatrixXd r = MatrixXd::Zero(a.rows(), b.cols());
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < b.cols(); j++)
      for (int k = 0; k < a.cols(); k++) r(i, j) = r(i, j) + a(i, k) * b(k, j);
  return r;
}
MatrixXd inverse(const MatrixXd &z) {
  const int d = z.rows();
  MatrixXd r(d, d);
  if (d == 1) r(0, 0) = 1. / z(0, 0);
  if (d == 2) {
    const double t = z(0, 0) * z(1, 1) - z(0, 1) * z(1, 0);
    r(0, 0) = z(1, 1) / t, r(1, 1) = z(0, 0) / t, r(0, 1) = -z(0, 1) / t, r(1, 0) = -z(1, 0) / t;
  }
  if (d == 3) {
    const V3 a = z.row(0), b = z.row(1), c = z.row(2);
    const double t = a.dot(b.cross(c));
    const V3 p = b.cross(c) / t, q = c.cross(a) / t, s = a.cross(b) / t;
    r.col(0) = p, r.col(1) = q, r.col(2) = s;
  }
  return r;
}
}  // namespace
// Samples are an affine image mu + M z of standard normal draws z with M M^T the covariance.
namespace {
void sampling(int d) {
  Gaussian s = standard(d);
  sxrandom::draws.clear();
  const MatrixXd z = s.samples(d);
  // without mean and correlation the samples are the draws themselves
  sx_assert(z.rows() == d and z.cols() == d, "samples does not return one sample per row");
  std::vector<bool> taken(sxrandom::draws.size(), false);
  for (int i = 0; i < d; i++)
    for (int j = 0; j < d; j++) {
      int found = -1;
      for (std::size_t k = 0; k < sxrandom::draws.size(); k++)
        if (not taken[k] and z(i, j) == sxrandom::draws[k]) found = int(k);
      sx_assert(found >= 0, "samples of the standard normal distribution are not independent standard draws");
      taken[found] = true;
    }
  const MatrixXd z2 = s.sample();
  for (int i = 0; i < d; i++) sx_assert(z2(0, 0) != z(i, 0), "the same sample is drawn again");
  const VectorXd mu = mean(d), l = ordered(d, 0.);
  const MatrixXd v = turn(d), ld = l.asDiagonal();
  const MatrixXd c0 = product(product(v, ld), v.transpose());
  MatrixXd cov = c0;
  for (int i = 0; i < d; i++)
    for (int j = 0; j < i; j++) cov(i, j) = c0(j, i);
  decomposed(l, v);
  Gaussian g{mu, cov};
  sx_assert(g.dimensionality() == unsigned(d), "the dimension is not that of the mean");
  near(g.mu(), mu, "the mean is not the one given");
  near(g.cov(), cov, "the covariance is not the one given");
  const MatrixXd x = g.samples(d), x2 = g.sample();
  sx_assert(x.rows() == d and x.cols() == d and x2.rows() == 1 and x2.cols() == d, "samples does not return one sample per row");
  MatrixXd y = x;
  for (int i = 0; i < d; i++)
    for (int j = 0; j < d; j++) y(i, j) = x(i, j) - mu(j);
  const MatrixXd mt = product(inverse(z), y);
  near(product(mt.transpose(), mt), cov, "samples do not have the covariance given", 1e-6);
  // the next samples are the image of the next draws
  const MatrixXd w = product(z2, mt);
  for (int j = 0; j < d; j++) sx_near(x2(0, j), mu(j) + w(0, j), 1e-6, "samples do not have the mean given, or repeat");
  sx_reach("end");
}
}  // namespace
SX_ENTRY sampling1() { sampling(1); }
SX_ENTRY sampling2() { sampling(2); }
SX_ENTRY sampling3() { sampling(3); }
SX_ENTRY dimensions() {
  const int n = 1 + sx_choose("mean", 3), r = 1 + sx_choose("rows", 3), c = 1 + sx_choose("cols", 3);
  decomposed(VectorXd::Ones(r), MatrixXd::Identity(r, r));
  const MatrixXd cov = MatrixXd::Identity(r, c);
  const bool rejected = sx_throws_as<AssertException>([&] { Gaussian g{VectorXd::Zero(n), cov}; });
  sx_assert(rejected == not(n == r and r == c), "a covariance of another dimension was accepted, or a proper one rejected");
  sx_reach("end");
}
SX_ENTRY symmetric() {
  MatrixXd m(2, 2);
  m(0, 0) = sx_real("a", -1e4, 1e4), m(0, 1) = sx_real("b", -1e4, 1e4), m(1, 0) = sx_real("c", -1e4, 1e4), m(1, 1) = sx_real("d", -1e4, 1e4);
  const double gap = (m(0, 1) - m(1, 0)) * (m(0, 1) - m(1, 0));
  sx_assume(gap >= 1e-12 * (m(0, 0) * m(0, 0) + m(0, 1) * m(0, 1) + m(1, 0) * m(1, 0) + m(1, 1) * m(1, 1)) and gap > 0.);
  decomposed(VectorXd::Ones(2), MatrixXd::Identity(2, 2));
  bool rejected = false;
  try {
    Gaussian g{VectorXd::Zero(2), m};
  } catch (const AssertException &) {
    rejected = true;
  }
  sx_assert(rejected, "an asymmetric covariance was accepted");
  sx_reach("end");
}
SX_ENTRY definite() {
  const int d = 1 + sx_choose("dims", 2);
  const VectorXd l = ordered(d, -1e4);
  const MatrixXd v = turn(d), ld = l.asDiagonal();
  const MatrixXd c0 = product(product(v, ld), v.transpose());
  MatrixXd cov = c0;
  if (d == 2) cov(1, 0) = c0(0, 1);
  decomposed(l, v);
  const VectorXd mu = VectorXd::Zero(d);
  std::unique_ptr<Gaussian> g;
  const bool rejected = sx_throws_as<AssertException>([&] { g = std::make_unique<Gaussian>(mu, cov); });
  if (l(0) <= -1e-9) sx_assert(rejected, "a covariance with a negative eigenvalue was accepted");
  if (l(0) >= 1e-9) sx_assert(not rejected, "a positive definite covariance was rejected");
  if (not rejected)
    for (int i = 0; i < d; i++) sx_assert(g->eigenvalues()(i) >= 0., "a negative eigenvalue is kept");
  sx_reach(rejected ? "rejected" : "accepted");
}
// Higher dimensions and many samples: independent components, each with its own mean and spread.
SX_ENTRY many() {
  const int d = 6, n = 20;
  VectorXd mu(d), l(d);
  for (int i = 0; i < d; i++) mu(i) = i, l(i) = (i + 1.) * (i + 1.);
  mu(4) = sx_real("m", -1e6, 1e6);
  l(0) = sx_real("l", 0.01, 1.);
  const MatrixXd cov = l.asDiagonal();
  decomposed(l, MatrixXd::Identity(d, d));
  Gaussian g{mu, cov};
  near(g.mu(), mu, "the mean is not the one given");
  near(g.cov(), cov, "the covariance is not the one given");
  sxrandom::draws.clear();
  const MatrixXd x = g.samples(n);
  sx_assert(x.rows() == n and x.cols() == d, "samples does not return one sample per row");
  const int drawn = int(sxrandom::draws.size());
  sx_assert(drawn >= n * d, "not one draw for each component of each sample");
  std::vector<bool> used(drawn, false);
  for (int i = 0; i < n; i++)
    for (int j = 1; j < d; j++) {
      const double z = (x(i, j) - mu(j)) / (j + 1.);
      int found = -1;
      for (int k = 0; k < drawn; k++)
        if (not used[k] and std::abs(std::abs(z) - std::abs(sxrandom::draws[k])) < 1e-9) found = k;
      sx_assert(found >= 0, "a component of a sample is not an independent draw with its mean and spread");
      if (found >= 0) used[found] = true;
    }
  for (int i = 0; i < n; i++) {
    const double v = x(i, 0) * x(i, 0) / l(0);
    bool match = false;
    for (int k = 0; k < n * d; k++)
      if (not used[k] and std::abs(v - sxrandom::draws[k] * sxrandom::draws[k]) < 1e-9) match = true;
    sx_assert(match, "a component of a sample does not have its variance");
  }
  sx_reach("end");
}
