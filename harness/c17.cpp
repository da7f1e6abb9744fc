// C17: distribution of the generated noise. Statistical facets use acceptance bands of 8 standard deviations of the
// statistic under the requested law, so that they neither depend on a seed nor raise chance alarms.
#include "pbt.hpp"
#include <Eigen/Eigenvalues>
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/tools/probability-law-simulation.hpp>
using namespace stateObservation;

/// samples (columns) against a Gaussian law of given mean and covariance
static void checkLaw(const Mat & s, const Vec & mean, const Mat & cov, const char * what)
{
  const long d = s.rows(), n = s.cols();
  const double B = 8;
  Mat x = s.colwise() - mean;
  double scale = std::sqrt(std::max(1e-300, cov.diagonal().maxCoeff()));
  REQUIRE(x.allFinite(), what << ": not finite");
  std::vector<Vec> dirs;
  for(long i = 0; i < d; ++i)
  {
    dirs.push_back(Vec::Unit(d, i));
    if(cov(i, i) == 0)
      REQUIRE(x.row(i).cwiseAbs().maxCoeff() <= 1e-12 * (1 + std::fabs(mean(i))),
              what << ": component " << i << " has no variance but moves by " << x.row(i).cwiseAbs().maxCoeff());
    for(long j = 0; j < i; ++j)
    {
      double a = cov(i, i) > 0 ? 1 / std::sqrt(cov(i, i)) : 1, b = cov(j, j) > 0 ? 1 / std::sqrt(cov(j, j)) : 1;
      dirs.push_back(a * Vec::Unit(d, i) + b * Vec::Unit(d, j));
      dirs.push_back(a * Vec::Unit(d, i) - b * Vec::Unit(d, j));
    }
  }
  Eigen::SelfAdjointEigenSolver<Mat> es(cov);
  for(long i = 0; i < d; ++i) dirs.push_back(es.eigenvectors().col(i));
  for(const Vec & w : dirs)
  {
    double v = w.dot(cov * w);
    Vec p = x.transpose() * w;
    double m = p.mean(), q = p.squaredNorm() / double(n);
    if(v < 1e-10 * scale * scale * w.squaredNorm())
    { // no variance in this direction
      REQUIRE(std::sqrt(q) <= 1e-4 * scale * w.norm() + 1e-9 * (1 + mean.norm()), what << ": noise " << std::sqrt(q)
                                                           << " in direction " << w.transpose() << " without variance");
      continue;
    }
    REQUIRE(std::fabs(m) < B * std::sqrt(v / double(n)), what << ": mean off by " << m << " in direction "
                                                              << w.transpose() << " (standard deviation "
                                                              << std::sqrt(v) << ", " << n << " samples)");
    REQUIRE(std::fabs(q / v - 1) < B * std::sqrt(2. / double(n)), what << ": variance " << q << " instead of " << v
                                                                     << " in direction " << w.transpose());
    // Gaussian shape: share of the samples within one and two standard deviations
    double in1 = 0, in2 = 0, lag = 0;
    for(long k = 0; k < n; ++k)
    {
      in1 += std::fabs(p(k)) < std::sqrt(v);
      in2 += std::fabs(p(k)) < 2 * std::sqrt(v);
      if(k) lag += p(k) * p(k - 1);
    }
    REQUIRE(std::fabs(in1 / double(n) - 0.682689) < B * std::sqrt(0.2166 / double(n)), what << ": not Gaussian, "
                                                                                 << in1 / double(n) << " within one sigma");
    REQUIRE(std::fabs(in2 / double(n) - 0.954500) < B * std::sqrt(0.0434 / double(n)), what << ": not Gaussian, "
                                                                                << in2 / double(n) << " within two sigma");
    REQUIRE(std::fabs(lag / double(n) / v) < B / std::sqrt(double(n)), what << ": successive samples are correlated");
  }
}
/// positive semi-definite, singular half of the time
static Mat covariance(Gen & g, long d, bool & singular)
{
  singular = false;
  Mat c;
  switch(g.u(4))
  {
    case 0: c = g.spd(d, 1, 0.05); break;
    case 1:
    { // low rank
      long r = long(g.u(size_t(d - 1)));
      Mat a = g.gmat(d, r, 1);
      c = a * a.transpose();
      if(r == 0) c = Mat::Zero(d, d);
      break;
    }
    case 2:
    { // components without variance
      c = g.spd(d, 1, 0.05);
      for(long i = 0; i < d; ++i)
        if(g.b())
        {
          c.row(i).setZero();
          c.col(i).setZero();
        }
      break;
    }
    case 3:
    { // small integers, often singular
      Mat a(d, d);
      for(long i = 0; i < d * d; ++i) a(i) = double(g.i(-1, 1));
      c = a * a.transpose();
      break;
    }
    default:
      c = Mat::Zero(d, d);
      for(long i = 0; i < d; ++i) c(i, i) = g.mag(-3, 3);
  }
  c = (0.5 * (c + c.transpose())).eval();
  Eigen::SelfAdjointEigenSolver<Mat> es(c);
  singular = es.eigenvalues()(0) < 1e-12 * std::max(1e-300, es.eigenvalues()(d - 1));
  return c;
}

FACET(covariance, 20000, 80000, "two or more dimensions")
{
  long d = 1 + long(g.u(3));
  if(d > 1) g.nontrivial();
  GaussianWhiteNoise w(g.b() ? d : 1 + long(g.u(4)));
  if(w.getDimension() != d || g.b()) w.setDimension(d);
  REQUIRE(w.getDimension() == d, "dimension " << w.getDimension());
  Vec bias = Vec::Zero(d), v = g.vec(d, 5);
  Mat c = Mat::Identity(d, d);
  bool singular = false;
  if(g.p(3, 4))
  {
    bias = g.vec(d, 3);
    w.setBias(bias);
  }
  switch(g.u(5))
  {
    case 0: g.label("default deviation"); break;
    case 1:
    {
      g.label("standard deviation");
      Mat s = g.mat(d, d, 1);
      w.setStandardDeviation(s);
      c = s * s.transpose();
      break;
    }
    default:
      c = covariance(g, d, singular);
      w.setCovarianceMatrix(c);
      g.label(singular ? "singular covariance" : "regular covariance");
  }
  long n = g.thorough ? 8000 : 3000;
  Mat s(d, n);
  for(long k = 0; k < n; ++k)
  {
    Vec r = w.getNoisy(v);
    REQUIRE(r.size() == d, "size " << r.size());
    s.col(k) = r;
  }
  checkLaw(s, v + bias, c, "white noise");
}

// ---- custom sum: the noise goes through the user's operation
static Vec seenState, seenTangent;
static void customSum(const Vector & x, const Vector & t, Vector & r)
{
  seenState = x;
  seenTangent = t;
  r = 2 * x - 3 * t;
}
FACET(custom_sum, 160000, 640000, "non-zero covariance")
{
  long d = 1 + long(g.u(4));
  GaussianWhiteNoise w(d);
  bool singular;
  Mat c = covariance(g, d, singular);
  Vec v = g.vec(d, 4), bias = g.vec(d, 4);
  w.setCovarianceMatrix(c);
  w.setBias(bias);
  w.setSumFunction(&customSum);
  if(c.norm() > 0) g.nontrivial();
  for(int k = 0; k < 3; ++k)
  {
    Vec r = w.getNoisy(v);
    CLOSE(seenState, v, 0, "vector given to the sum");
    REQUIRE(seenTangent.size() == d, "noise size " << seenTangent.size());
    CLOSE(r, Vec(2 * v - 3 * seenTangent), 0, "result of the sum");
    for(long i = 0; i < d; ++i)
      if(c(i, i) == 0)
        REQUIRE(std::fabs(seenTangent(i) - bias(i)) < 1e-12, "noise in a component without variance");
  }
}

FACET(law_simulation, 9600, 38400, "always")
{
  g.nontrivial();
  long n = g.thorough ? 8000 : 3000;
  switch(g.u(4))
  {
    case 0:
    {
      g.label("scalar");
      double sd = g.mag(-2, 2), b = g.sym(5);
      Mat s(1, n);
      for(long k = 0; k < n; ++k) s(k) = tools::ProbabilityLawSimulation::getGaussianScalar(sd, b);
      checkLaw(s, Vec::Constant(1, b), Mat::Constant(1, 1, sd * sd), "scalar");
      break;
    }
    case 1:
    {
      g.label("uniform");
      double lo = g.sym(5), hi = lo + g.mag(-2, 2);
      double m = 0, q = 0, mn = 1e300, mx = -1e300;
      for(long k = 0; k < n; ++k)
      {
        double x = tools::ProbabilityLawSimulation::getUniformScalar(lo, hi);
        REQUIRE(x >= lo && x <= hi, "uniform value " << x << " outside " << lo << " " << hi);
        double y = (x - lo) / (hi - lo);
        m += y;
        q += y * y;
        mn = std::min(mn, y);
        mx = std::max(mx, y);
      }
      REQUIRE(std::fabs(m / double(n) - 0.5) < 8 * std::sqrt(1. / 12 / double(n)), "uniform mean " << m / double(n));
      REQUIRE(std::fabs(q / double(n) - 1. / 3) < 8 * std::sqrt(4. / 45 / double(n)), "uniform variance");
      REQUIRE(mn < 0.02 && mx > 0.98, "uniform range " << mn << " " << mx);
      double x = tools::ProbabilityLawSimulation::getUniformScalar();
      REQUIRE(x >= 0 && x <= 1, "default uniform range");
      break;
    }
    case 2:
    {
      g.label("fixed-size vector");
      Eigen::Matrix3d sd = g.mat(3, 3, 1);
      Eigen::Vector3d b = g.v3(3);
      Mat s(3, n);
      for(long k = 0; k < n; ++k)
        s.col(k) = tools::ProbabilityLawSimulation::getGaussianVector<Vector3>(sd, b, 3);
      checkLaw(s, b, sd * sd.transpose(), "fixed-size vector");
      break;
    }
    case 3:
    {
      g.label("dynamic vector");
      long d = 1 + long(g.u(4));
      Matrix sd = g.mat(d, d, 1);
      Vector b = g.vec(d, 3);
      Mat s(d, n);
      for(long k = 0; k < n; ++k) s.col(k) = tools::ProbabilityLawSimulation::getGaussianVector(sd, b, d);
      checkLaw(s, b, sd * sd.transpose(), "dynamic vector");
      break;
    }
    default:
    { // a matrix: independent columns, each with the given deviation and its own bias
      g.label("matrix");
      long d = 1 + long(g.u(2)), c = 1 + long(g.u(2));
      Matrix sd = g.mat(d, d, 1), b = g.mat(d, c, 3);
      Mat s(d * c, n), cov = Mat::Zero(d * c, d * c);
      for(long j = 0; j < c; ++j) cov.block(j * d, j * d, d, d) = sd * sd.transpose();
      for(long k = 0; k < n; ++k)
      {
        Matrix m = tools::ProbabilityLawSimulation::getGaussianVector<Matrix>(sd, b, d, c);
        REQUIRE(m.rows() == d && m.cols() == c, "size");
        s.col(k) = m.reshaped();
      }
      checkLaw(s, b.reshaped(), cov, "matrix");
    }
  }
}
