// Generated nonlinear models on product manifolds (reals, circles, rotations) used to drive the extended Kalman filter.
#pragma once
#include "ref.hpp"
#include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
#include <state-observation/tools/state-vector-arithmetics.hpp>

namespace models
{
/// product manifold: 0 = real line, 1 = circle (cos,sin), 2 = rotations (unit quaternion x y z w)
struct Manifold
{
  std::vector<int> kinds;
  long size() const
  {
    long s = 0;
    for(int k : kinds) s += k == 0 ? 1 : k == 1 ? 2 : 4;
    return s;
  }
  long tangent() const
  {
    long s = 0;
    for(int k : kinds) s += k == 2 ? 3 : 1;
    return s;
  }
  bool flat() const
  {
    for(int k : kinds)
      if(k) return false;
    return true;
  }
  Vec sum(const Vec & x, const Vec & d) const
  {
    if(x.size() != size() || d.size() != tangent()) pbt::fail("manifold sum called with wrong sizes");
    Vec r(size());
    long i = 0, t = 0;
    for(int k : kinds)
    {
      if(k == 0) r(i) = x(i) + d(t);
      else if(k == 1)
      {
        double c = std::cos(d(t)), s = std::sin(d(t));
        double nx = c * x(i) - s * x(i + 1), ny = s * x(i) + c * x(i + 1), n = std::hypot(nx, ny);
        r(i) = nx / n, r(i + 1) = ny / n;
      }
      else
      {
        Eigen::Quaterniond q(Eigen::Vector4d(x.segment<4>(i)));
        V3 w = d.segment<3>(t);
        double a = w.norm(), f = a < 1e-8 ? 0.5 : std::sin(a / 2) / a;
        Eigen::Quaterniond e(std::cos(a / 2), f * w(0), f * w(1), f * w(2));
        Eigen::Quaterniond o = q * e;
        o.normalize();
        r.segment<4>(i) = o.coeffs();
      }
      i += k == 0 ? 1 : k == 1 ? 2 : 4;
      t += k == 2 ? 3 : 1;
    }
    return r;
  }
  /// d such that sum(b,d) = a
  Vec diff(const Vec & a, const Vec & b) const
  {
    if(a.size() != size() || b.size() != size()) pbt::fail("manifold difference called with wrong sizes");
    Vec r(tangent());
    long i = 0, t = 0;
    for(int k : kinds)
    {
      if(k == 0) r(t) = a(i) - b(i);
      else if(k == 1) r(t) = std::atan2(b(i) * a(i + 1) - b(i + 1) * a(i), b(i) * a(i) + b(i + 1) * a(i + 1));
      else
      {
        Eigen::Quaterniond qa(Eigen::Vector4d(a.segment<4>(i))), qb(Eigen::Vector4d(b.segment<4>(i)));
        Eigen::Quaterniond e = qb.conjugate() * qa;
        if(e.w() < 0) e.coeffs() *= -1;
        double n = e.vec().norm();
        r.segment<3>(t) = n < 1e-12 ? V3(2 * e.vec()) : V3(e.vec() * (2 * std::atan2(n, e.w()) / n));
      }
      i += k == 0 ? 1 : k == 1 ? 2 : 4;
      t += k == 2 ? 3 : 1;
    }
    return r;
  }
  Vec point(Gen & g, double mag) const
  {
    Vec r(size());
    long i = 0;
    for(int k : kinds)
    {
      if(k == 0) r(i) = g.sym(mag), i += 1;
      else if(k == 1)
      {
        double a = g.sym(3.1);
        r(i) = std::cos(a), r(i + 1) = std::sin(a), i += 2;
      }
      else
      {
        V3 ax = g.axis();
        double a = g.angle();
        Eigen::Quaterniond q(Eigen::AngleAxisd(a, ax));
        r.segment<4>(i) = q.coeffs();
        i += 4;
      }
    }
    return r;
  }
};
inline Manifold manifold(Gen & g, long maxComp, bool flat)
{
  Manifold m;
  long n = 1 + long(g.u(size_t(maxComp - 1)));
  for(long i = 0; i < n; ++i) m.kinds.push_back(flat ? 0 : int(g.u(2)));
  return m;
}

struct Arithmetics : stateObservation::StateVectorArithmetics
{
  Manifold s, m;
  void stateSum(const Vec & x, const Vec & d, Vec & r) override { r = s.sum(x, d); }
  void stateDifference(const Vec & a, const Vec & b, Vec & r) override { r = s.diff(a, b); }
  void measurementDifference(const Vec & a, const Vec & b, Vec & r) override { r = m.diff(a, b); }
};

/// x+ = x (+) ( M x + S sin(V x + b + ph k) + B u ),  y = y0 (+) ( N x + T sin(G x + c + ph k) + D u )
struct Functor : stateObservation::DynamicalSystemFunctorBase
{
  Manifold s, m;
  long p = 0;
  Mat M, S, V, B, N, T, G, D;
  Vec b, c, y0;
  double ph = 0;
  bool uState = true, uOut = true;
  int resets = 0, calls = 0;
  Functor() {}
  Functor(Gen & g, const Manifold & s_, const Manifold & m_, long p_, double nonlin = 1) : s(s_), m(m_), p(p_)
  {
    regenerate(g, nonlin);
  }
  void regenerate(Gen & g, double nonlin = 1)
  {
    long n = s.size(), nt = s.tangent(), mt = m.tangent();
    M = g.gmat(nt, n, 0.3);
    S = g.gmat(nt, 2, 0.5 * nonlin);
    V = g.gmat(2, n, 1);
    b = g.gvec(2, 3);
    B = g.gmat(nt, p, 0.5);
    N = g.gmat(mt, n, 0.7);
    T = g.gmat(mt, 2, 0.5 * nonlin);
    G = g.gmat(2, n, 1);
    c = g.gvec(2, 3);
    D = g.gmat(mt, p, 0.5);
    y0 = m.point(g, 1);
    ph = g.gen(1);
  }
  Vec f(const Vec & x, const Vec * u, long k) const
  {
    Vec t = M * x + S * Vec((V * x + b + Vec::Constant(2, ph * double(k % 1000))).array().sin().matrix());
    if(uState && p && u) t += B * *u;
    return s.sum(x, t);
  }
  Vec h(const Vec & x, const Vec * u, long k) const
  {
    Vec t = N * x + T * Vec((G * x + c + Vec::Constant(2, ph * double(k % 1000))).array().sin().matrix());
    if(uOut && p && u) t += D * *u;
    return m.sum(y0, t);
  }
  Vec stateDynamics(const Vec & x, const Vec & u, stateObservation::TimeIndex k) override
  {
    ++calls;
    if(x.size() != s.size()) pbt::fail("stateDynamics called with a state of wrong size");
    if(p && u.size() != p) pbt::fail("stateDynamics called with an input of wrong size");
    return f(x, &u, k);
  }
  Vec measureDynamics(const Vec & x, const Vec & u, stateObservation::TimeIndex k) override
  {
    ++calls;
    if(x.size() != s.size()) pbt::fail("measureDynamics called with a state of wrong size");
    if(p && u.size() != p) pbt::fail("measureDynamics called with an input of wrong size");
    return h(x, &u, k);
  }
  void reset() override { ++resets; }
  stateObservation::Index getStateSize() const override { return s.size(); }
  stateObservation::Index getInputSize() const override { return p; }
  stateObservation::Index getMeasurementSize() const override { return m.size(); }
};
} // namespace models
