#include <Eigen/Dense>
#include <string>
#include <vector>
#include "resim/math/sample_statistics.hh"
#include "sx.h"
using namespace resim;
namespace {
std::vector<std::string> names;
double x(int i, int j) { return sx_real(names[i * 3 + j].c_str(), -1e3, 1e3); }
Eigen::MatrixXd samples(int n, int d) {
  names.clear();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < 3; j++) names.push_back("x" + std::to_string(i) + "_" + std::to_string(j));
  Eigen::MatrixXd m(n, d);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < d; j++) m(i, j) = x(i, j);
  return m;
}
}  // namespace
SX_ENTRY means() {
  const int n = 1 + sx_choose("samples", 5), d = 1 + sx_choose("dims", 3);
  const Eigen::MatrixXd s = samples(n, d);
  const Eigen::VectorXd m = math::mean(s);
  sx_assert(m.rows() == d and m.cols() == 1, "the mean does not have the dimension of the samples");
  for (int j = 0; j < d; j++) {
    double t = 0.;
    for (int i = 0; i < n; i++) t = t + s(i, j);
    sx_near(m(j) * n, t, 1e-9, "the mean is not the average of the samples");
  }
  sx_reach("end");
}
SX_ENTRY covariances() {
  const int n = sx_choose("samples", 6), d = 1 + sx_choose("dims", 3);
  const Eigen::MatrixXd s = samples(n, d);
  Eigen::MatrixXd c;
  const bool r = sx_throws_as<AssertException>([&] { c = math::covariance(s); });
  sx_assert(r == (n < 2), "a covariance was computed from fewer than two samples, or not from enough");
  if (r) return sx_reach("rejected");
  sx_assert(c.rows() == d and c.cols() == d, "the covariance does not have the dimension of the samples");
  for (int j = 0; j < d; j++)
    for (int k = 0; k < d; k++) {
      // n (n - 1) cov = n sum x y - sum x sum y
      double a = 0., b = 0., ab = 0.;
      for (int i = 0; i < n; i++) {
        a = a + s(i, j);
        b = b + s(i, k);
        ab = ab + s(i, j) * s(i, k);
      }
      sx_near(c(j, k) * n * (n - 1), n * ab - a * b, 1e-6, "the covariance is not the unbiased sample covariance");
    }
  sx_reach("computed");
}
// With rounding: the spread of samples far from the origin is not lost.
SX_ENTRY far_away() {
  const double a = sx_real("a", -1e6, 1e6), d = sx_real("d", 1., 2.), b = a + d;
  Eigen::MatrixXd s(2, 1);
  s << a, b;
  const Eigen::MatrixXd c = math::covariance(s);
  sx_near(c(0, 0), d * d / 2., 1e-6, "the covariance of samples far from the origin is not accurate");
  sx_reach("computed");
}
// Many samples of many dimensions.
SX_ENTRY many() {
  const int n = 40, d = 7;
  names.clear();
  Eigen::MatrixXd s(n, d);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < d; j++) s(i, j) = (i * 7 + j * 3 + i * i * (j + 1)) % 23 - 11.;
  const int row = sx_choose("row", 4) * 13;
  s(row, 0) = sx_real("a", -1e3, 1e3);
  s(row, 6) = sx_real("b", -1e3, 1e3);
  s(27, 4) = sx_real("c", -1e3, 1e3);
  const Eigen::VectorXd m = math::mean(s);
  const Eigen::MatrixXd c = math::covariance(s);
  sx_assert(m.rows() == d and m.cols() == 1 and c.rows() == d and c.cols() == d, "the statistics do not have the dimension of the samples");
  for (int j = 0; j < d; j++) {
    double a = 0.;
    for (int i = 0; i < n; i++) a = a + s(i, j);
    sx_near(m(j) * n, a, 1e-9, "the mean is not the average of the samples");
    for (int k = 0; k < d; k++) {
      double b = 0., ab = 0.;
      for (int i = 0; i < n; i++) {
        b = b + s(i, k);
        ab = ab + s(i, j) * s(i, k);
      }
      sx_near(c(j, k) * n * (n - 1), n * ab - a * b, 1e-6, "the covariance is not the unbiased sample covariance");
    }
  }
  sx_reach("end");
}
