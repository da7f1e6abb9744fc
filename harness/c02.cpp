// C02: covariances stay symmetric and positive semi-definite; measurements and better sensors never add uncertainty.
#include "models.hpp"
#include <memory>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>
using namespace stateObservation;
using models::Functor;
using models::Manifold;

static double minEig(const Mat & m)
{
  Mat s = 0.5 * (m + m.transpose());
  return Eigen::SelfAdjointEigenSolver<Mat>(s, Eigen::EigenvaluesOnly).eigenvalues().minCoeff();
}
static double cond(const Mat & s)
{
  Eigen::SelfAdjointEigenSolver<Mat> e(s, Eigen::EigenvaluesOnly);
  return e.eigenvalues().maxCoeff() / std::max(1e-300, e.eigenvalues().minCoeff());
}
/// random covariance: orthogonal mixing of eigenvalues of chosen magnitudes, some of them possibly zero
static Mat covariance(Gen & g, long n, double e1, double e2, bool singular)
{
  Mat a = g.gmat(n, n, 1);
  Mat q = a.householderQr().householderQ();
  Vec d(n);
  for(long i = 0; i < n; ++i) d(i) = singular && g.p(1, 3) ? 0 : g.mag(e1, e2);
  if(g.p(1, 3)) return d.asDiagonal();
  Mat r = q * d.asDiagonal() * q.transpose();
  return 0.5 * (r + r.transpose());
}
static void valid(const Mat & P, double scale, double amp, const char * what)
{
  REQUIRE(P.allFinite(), what << ": not finite");
  double asym = (P - P.transpose()).cwiseAbs().maxCoeff(), mx = P.cwiseAbs().maxCoeff();
  REQUIRE(asym <= 1e-12 * mx, what << ": asymmetry " << asym << " for entries up to " << mx);
  double l = minEig(P);
  REQUIRE(l >= -amp * 1e-12 * scale, what << ": eigenvalue " << l << " for a predicted covariance of size " << scale);
}

/// remove rounding-level negative eigenvalues, so that each step starts from an exactly valid covariance
template<class F>
static Mat cleaned(F & f, const Mat & P)
{
  if(minEig(P) >= 0) return P;
  Eigen::SelfAdjointEigenSolver<Mat> e(P);
  Mat r = e.eigenvectors() * e.eigenvalues().cwiseMax(0).asDiagonal() * e.eigenvectors().transpose();
  r = (0.5 * (r + r.transpose())).eval();
  f.setStateCovariance(r);
  return r;
}

FACET(linearHistory, 180000, 1000000, "at least three steps")
{
  long n = 1 + long(g.many(5, 12)), m = 1 + long(g.many(3, 9)), N = 1 + long(g.many(g.thorough ? 40 : 15, 150));
  LinearKalmanFilter f(n, m);
  f.setB(f.getBmatrixZero());
  Mat A, C, Q, R;
  double w = g.p(1, 2) ? 0.5 : 2.5; // width of the scales
  auto gen = [&] {
    A = g.structured(g.mat(n, n, g.p(1, 4) ? 2 : 1));
    C = g.structured(g.mat(m, n, 1));
    Q = covariance(g, n, -w, w, true);
    R = covariance(g, m, -w, w, false);
    f.setA(A), f.setC(C), f.setQ(Q), f.setR(R);
  };
  gen();
  Mat P = covariance(g, n, -w, w, true);
  f.setStateCovariance(P);
  f.setState(g.vec(n, 3), 0);
  for(long k = 1; k <= N; ++k)
  {
    if(g.p(1, 5)) gen();
    if(g.p(1, 8)) P = covariance(g, n, -w, w, true), f.setStateCovariance(P);
    Mat Pbar = A * P * A.transpose() + Q;
    Mat S = C * Pbar * C.transpose() + R;
    double s = Pbar.norm() + 1e-12, kc = cond(S);
    if(!(kc < 1e7) || s > 1e8) break; // numerically meaningless
    f.setMeasurement(g.vec(m, 3), k);
    f.getEstimatedState(k);
    Mat P1 = f.getStateCovariance();
    valid(P1, s, kc, "corrected covariance");
    REQUIRE(minEig(Pbar - P1) >= -1e-12 * kc * s, "a measurement increased the covariance: " << minEig(Pbar - P1));
    P = cleaned(f, P1);
    if(k >= 3) g.nontrivial();
  }
  g.note() << "n=" << n << " m=" << m << " N=" << N << " w=" << w;
}

FACET(extendedHistory, 90000, 500000, "at least three steps")
{
  Manifold sm = models::manifold(g, 4, g.b()), mm = models::manifold(g, 3, g.b());
  long nt = sm.tangent(), mt = mm.tangent(), N = 1 + long(g.u(8));
  models::Arithmetics ar;
  ar.s = sm, ar.m = mm;
  Functor fn(g, sm, mm, 0);
  ExtendedKalmanFilter f(sm.size(), nt, mm.size(), mt, 0, false, false);
  f.setFunctor(&fn);
  f.setStateArithmetics(&ar);
  double w = 1.5;
  Mat Q = covariance(g, nt, -w, w, true), R = covariance(g, mt, -w, w, false), P = covariance(g, nt, -w, w, true);
  f.setQ(Q), f.setR(R), f.setStateCovariance(P);
  Vec x = sm.point(g, 2);
  f.setState(x, 0);
  for(long k = 1; k <= N; ++k)
  {
    Vec dx = Vec::Constant(nt, 1e-7);
    Mat A = f.getAMatrixFD(dx), C = f.getCMatrixFD(dx);
    f.setA(A), f.setC(C);
    Mat Pbar = A * P * A.transpose() + Q, S = C * Pbar * C.transpose() + R;
    double s = Pbar.norm() + 1e-12, kc = cond(S);
    if(!(kc < 1e7) || s > 1e8) break;
    Vec xb = fn.f(x, nullptr, k - 1), y = mm.sum(fn.h(xb, nullptr, k), g.vec(mt, 0.3));
    f.setMeasurement(y, k);
    x = f.getEstimatedState(k);
    Mat P1 = f.getStateCovariance();
    valid(P1, s, kc, "corrected covariance");
    REQUIRE(minEig(Pbar - P1) >= -1e-12 * kc * s, "a measurement increased the covariance");
    P = cleaned(f, P1);
    if(k >= 3) g.nontrivial();
  }
}

FACET(betterInformation, 120000, 600000, "the two filters really differ")
{
  // smaller sensor noise, smaller initial uncertainty, smaller process noise or additional sensors: smaller covariance
  long n = 1 + long(g.u(4)), m = 1 + long(g.u(3)), N = 1 + long(g.u(5));
  Mat A = g.mat(n, n, 1), C = g.mat(m, n, 1), Q = covariance(g, n, -1, 1, true), R = covariance(g, m, -1, 1, false),
      P = covariance(g, n, -1, 1, true);
  Mat C2 = C, Q2 = Q, R2 = R, P2 = P;
  int kind = int(g.u(3));
  long m2 = m;
  if(kind == 0) R2 = R + covariance(g, m, -2, 1, true);
  if(kind == 1) Q2 = Q + covariance(g, n, -2, 1, true);
  if(kind == 2) P2 = P + covariance(g, n, -2, 1, true);
  if(kind == 3)
  {
    m2 = 1 + long(g.u(size_t(m - 1))); // keeps some of the sensors (uncorrelated with the dropped ones or not)
    C2 = C.topRows(m2);
    R2 = R.topLeftCorner(m2, m2);
  }
  LinearKalmanFilter a(n, m), b(n, m2);
  a.setB(Mat::Zero(n, 0)), b.setB(Mat::Zero(n, 0));
  a.setA(A), a.setC(C), a.setQ(Q), a.setR(R), a.setStateCovariance(P), a.setState(Vec::Zero(n), 0);
  b.setA(A), b.setC(C2), b.setQ(Q2), b.setR(R2), b.setStateCovariance(P2), b.setState(Vec::Zero(n), 0);
  double amp = 1;
  g.note() << "kind " << kind << " n=" << n << " m=" << m << "/" << m2;
  for(long k = 1; k <= N; ++k)
  {
    Mat Pa = a.getStateCovariance(), Pb = b.getStateCovariance();
    Mat Ba = A * Pa * A.transpose() + Q, Bb = A * Pb * A.transpose() + Q2;
    amp = std::max({amp, cond(C * Ba * C.transpose() + R), cond(C2 * Bb * C2.transpose() + R2)});
    if(!(amp < 1e6) || Bb.norm() > 1e6) break;
    Vec y = g.vec(m, 3);
    a.setMeasurement(y, k);
    b.setMeasurement(y.head(m2), k);
    a.getEstimatedState(k), b.getEstimatedState(k);
    Mat d = b.getStateCovariance() - a.getStateCovariance();
    REQUIRE(minEig(d) >= -1e-12 * amp * (Bb.norm() + 1), "better information gave a larger covariance: " << minEig(d));
    if(d.norm() > 1e-6) g.nontrivial();
  }
}
