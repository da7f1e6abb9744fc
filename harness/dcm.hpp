// Model of the DCM estimators shared by C19 and C20: textbook Kalman filter of
//   dcm+ = dcm + omega dt (dcm - zmp) + noise(omega dt sigma_zmp),  bias+ = Rot(yaw+ - yaw) bias + noise(drift dt)
//   y = dcm + bias + noise(sigma_dcm)
#pragma once
#include "ref.hpp"
#include "rot.hpp"
#include <Eigen/Eigenvalues>
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
namespace dcm
{
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix2d M2;
inline M2 rot2(double a)
{
  M2 m;
  m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
  return m;
}
/// orientation of heading `yaw`, tilted about a horizontal axis
inline M3 heading(Gen & g, double yaw)
{
  double d = 2 * M_PI * g.unit();
  return pbt::rotZ(yaw) * pbt::expm(V3(std::cos(d), std::sin(d), 0) * g.real(0, 1.5));
}
struct Model
{
  double dt, omega, drift, sigmaDcm, sigmaZmp;
  ref::Linear f; // x = (dcm, bias)
  V2 zmp; // previous ZMP
  double yaw = 0; // heading of the current state
  V2 limit = V2::Zero();
  struct Pending
  {
    V2 y, u;
    double yaw;
  };
  std::vector<Pending> pending;

  V2 dcm() const { return V2(double(f.x(0)), double(f.x(1))); }
  V2 bias() const { return V2(double(f.x(2)), double(f.x(3))); }
  void state(const V2 & d, const V2 & b) { f.x = ref::LVc((Vec(4) << d, b).finished()); }
  void cov(const V2 & d, const V2 & b)
  {
    Vec v(4);
    v << d.cwiseAbs2(), b.cwiseAbs2();
    f.P = ref::L(Mat(v.asDiagonal()));
  }
  void reset(const V2 & m, const V2 & z, double heading, bool withBias, const V2 & b, const V2 & sb)
  {
    pending.clear();
    zmp = z;
    yaw = heading;
    state(withBias ? V2(m - b) : m, b);
    cov(V2::Constant(sigmaDcm), sb);
    if(withBias)
      for(int k = 0; k < 2; ++k)
      {
        f.P(k, k) += sb(k) * sb(k);
        f.P(k, 2 + k) = f.P(2 + k, k) = -sb(k) * sb(k);
      }
  }
  void input(const V2 & y, const V2 & z, double heading)
  {
    pending.push_back({y, zmp, heading});
    zmp = z;
  }
  /// consumes the pending measurements; returns how many
  size_t update()
  {
    size_t n = pending.size();
    for(auto & p : pending)
    {
      Mat A = Mat::Identity(4, 4), B = Mat::Zero(4, 2), C(2, 4);
      A.topLeftCorner(2, 2) *= 1 + omega * dt;
      A.bottomRightCorner(2, 2) = rot2(p.yaw - yaw);
      B.topRows(2) = -omega * dt * M2::Identity();
      C << M2::Identity(), M2::Identity();
      double qd = omega * dt * sigmaZmp, qb = drift * dt;
      Vec q(4);
      q << qd * qd, qd * qd, qb * qb, qb * qb;
      f.A = ref::L(A);
      f.B = ref::L(B);
      f.C = ref::L(C);
      f.Q = ref::L(Mat(q.asDiagonal()));
      f.R = ref::L(Mat(sigmaDcm * sigmaDcm * Mat::Identity(2, 2)));
      ref::LV u = ref::LVc(Vec(p.u));
      f.step(&u, nullptr, ref::LVc(Vec(p.y)));
      yaw = p.yaw;
      clamp();
    }
    pending.clear();
    if(n == 0) clamp();
    return n;
  }
  bool clamped = false;
  void clamp()
  {
    V2 l = rot2(-yaw) * bias(), c = l;
    for(int k = 0; k < 2; ++k)
      if(limit(k) > 0) c(k) = std::max(-limit(k), std::min(limit(k), l(k)));
    if(c == l) return;
    clamped = true;
    V2 removed = rot2(yaw) * (l - c);
    state(dcm() + removed, bias() - removed);
  }
};
/// covariances compared relatively to their own scale
inline void covariances(const Mat & got, const Mat & want, const char * what)
{
  REQUIRE(got.rows() == want.rows() && got.cols() == want.cols(), what << " size");
  Vec s = want.diagonal().cwiseSqrt().cwiseInverse();
  CLOSE(Mat(s.asDiagonal() * got * s.asDiagonal()), Mat(s.asDiagonal() * want * s.asDiagonal()), 1e-6, what);
}
struct Params
{
  double dt, omega, drift, sigmaDcm, sigmaZmp;
};
inline Params params(Gen & g)
{
  return {g.mag(-3, -1), g.real(1, 6), g.mag(-4, 0), g.mag(-2.5, -0.5), g.mag(-3.5, -0.5)};
}
inline V2 v2(Gen & g, double m) { return V2(g.vec(2, m)); }
inline V2 std2(Gen & g) { return V2(g.mag(-3, -0.5), g.mag(-3, -0.5)); }
} // namespace dcm
