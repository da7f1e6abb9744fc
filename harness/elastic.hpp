// Reference model of the elastic flexibility (long double), written from mechanics, independent of the library.
#pragma once
#include "ref.hpp"
namespace elastic
{
using ref::LM;
using ref::LV;
typedef long double R_;
typedef Eigen::Matrix<R_, 3, 1> L3;
typedef Eigen::Matrix<R_, 3, 3> LM3;
inline LM3 skewl(const L3 & v)
{
  LM3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
inline LM3 expl3(const L3 & w)
{
  R_ t2 = w.squaredNorm(), t = std::sqrt(t2), a, b;
  if(t < 1e-3L) a = 1 - t2 / 6 + t2 * t2 / 120, b = 0.5L - t2 / 24 + t2 * t2 / 720;
  else a = std::sin(t) / t, b = 2 * std::sin(t / 2) * std::sin(t / 2) / t2;
  LM3 k = skewl(w);
  return LM3::Identity() + a * k + b * (k * k);
}
/// logarithm away from half turns
inline L3 logl3(const LM3 & R)
{
  L3 v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  v /= 2;
  R_ s = v.norm(), c = (R.trace() - 1) / 2, a = std::atan2(s, c);
  if(s < 1e-9L) return v;
  return v * (a / s);
}
/// derivative (central differences) and second derivative along each axis
template<class Fn>
inline void derive(const Fn & fn, const LV & x, LM & J, LM & H, R_ e = 1e-5L)
{
  LV y0 = fn(x);
  J.resize(y0.size(), x.size());
  H.resize(y0.size(), x.size());
  for(long i = 0; i < x.size(); ++i)
  {
    LV a = x, b = x;
    a(i) += e, b(i) -= e;
    LV ya = fn(a), yb = fn(b);
    J.col(i) = (ya - yb) / (2 * e);
    H.col(i) = (ya - 2 * y0 + yb) / (e * e);
  }
}
/// state: p 0, rotation vector 3, v 6, w 9, contact wrenches 12 (2x6), unmodelled wrench 24, com bias 30, drift 32
/// input: com 0, its velocity 3, acceleration 6, inertia 9, angular momentum 15, inertia rate 18, momentum rate 24,
///        IMU position 27, orientation 30, velocity 33, angular velocity 36, acceleration 39, added wrench 42,
///        contacts 48 (12 each: position, rotation vector, velocity, angular velocity)
struct Model
{
  double dt = 0.005, mass = 56.8;
  int contacts = 0;
  bool pendulum = false;
  bool forces = false, comBias = false, absolute = false, unmodelled = false;
  M3 Kfe = 40000 * M3::Identity(), Kte = 600 * M3::Identity(), Kfv = 600 * M3::Identity(), Ktv = 60 * M3::Identity();
  M3 Rfe = 40000 * M3::Identity(), Rte = 600 * M3::Identity(), Rfv = 600 * M3::Identity(), Rtv = 60 * M3::Identity();
  V3 pe = V3::Zero();
  long inputSize() const { return 48 + 12 * contacts; }
  long measurementSize() const { return 6 + (forces ? 6 * contacts : 0) + (absolute ? 6 : 0); }
  static L3 at(const LV & v, long i) { return v.segment<3>(i); }
  static LM3 inertia(const LV & u, long i)
  {
    LM3 m;
    m << u(i), u(i + 3), u(i + 4), u(i + 3), u(i + 1), u(i + 5), u(i + 4), u(i + 5), u(i + 2);
    return m;
  }
  static LM3 K(const M3 & m) { return m.cast<R_>(); }
  L3 com(const LV & x, const LV & u) const
  {
    L3 c = at(u, 0);
    if(comBias) c(0) -= x(30), c(1) -= x(31);
    return c;
  }
  /// total force, and moment about the world origin, without the weight
  void wrench(const LV & x, const LV & u, L3 & F, L3 & T) const
  {
    LM3 R = expl3(at(x, 3));
    L3 p = at(x, 0), fa = R * at(u, 42), ta = R * at(u, 45);
    F = fa + at(x, 24);
    T = ta + p.cross(fa) + at(x, 27);
    if(pendulum) F += at(x, 12), T += at(x, 15);
    else
      for(long i = 0; i < contacts; ++i)
      {
        LM3 C = R * expl3(at(u, 48 + 12 * i + 3));
        L3 f = C * at(x, 12 + 6 * i), t = C * at(x, 15 + 6 * i), c = p + R * at(u, 48 + 12 * i);
        F += f;
        T += t + c.cross(f);
      }
  }
  static L3 weight(R_ m) { return L3(0, 0, -9.8 * m); }
  /// rate of change of linear and angular momentum (about the world origin) due to all forces
  LV momentaDot(const LV & x, const LV & u) const
  {
    L3 F, T;
    wrench(x, u, F, T);
    L3 P = at(x, 0) + expl3(at(x, 3)) * com(x, u);
    LV r(6);
    r << F + weight(mass), T + P.cross(weight(mass));
    return r;
  }
  /// the same, of a robot which moves with the given accelerations of its flexibility
  LV momentaDot(const LV & x, const LV & u, const L3 & a, const L3 & wd) const
  {
    LM3 R = expl3(at(x, 3)), I = R * inertia(u, 9) * R.transpose(), dI = R * inertia(u, 18) * R.transpose();
    L3 p = at(x, 0), w = at(x, 9), c = R * com(x, u), cd = R * at(u, 3), cdd = R * at(u, 6);
    L3 Lw = R * at(u, 15), Ld = R * at(u, 24);
    L3 acc = a + wd.cross(c) + w.cross(w.cross(c)) + 2 * w.cross(cd) + cdd;
    LV r(6);
    r.head<3>() = mass * acc;
    r.tail<3>() = w.cross(L3(I * w)) + dI * w + I * wd + w.cross(Lw) + Ld + p.cross(L3(mass * acc)) + c.cross(L3(mass * a));
    return r;
  }
  /// the accelerations for which both agree: the second one is affine in (a, wd)
  LV accelerations(const LV & x, const LV & u) const
  {
    LV want = momentaDot(x, u), b = momentaDot(x, u, L3::Zero(), L3::Zero());
    LM A(6, 6);
    for(int i = 0; i < 6; ++i)
    {
      LV e = LV::Zero(6);
      e(i) = 1;
      A.col(i) = momentaDot(x, u, L3(e.head<3>()), L3(e.tail<3>())) - b;
    }
    return Eigen::FullPivLU<LM>(A).solve(want - b);
  }
  /// contact wrenches (2 x 6)
  LV reactions(const LV & x, const LV & u) const
  {
    LV r = LV::Zero(12);
    L3 o = at(x, 3), p = at(x, 0), v = at(x, 6), w = at(x, 9);
    LM3 R = expl3(o);
    if(pendulum)
    {
      L3 F = L3::Zero(), T(0, 0, -R_(Rte(2, 2)) * o(2));
      for(long i = 0; i < contacts; ++i)
      {
        L3 c = at(u, 48 + 12 * i), e = pe.cast<R_>(), d = p + R * c - e;
        F -= K(Rfe) * d * ((d.norm() - (c - e).norm()) / d.norm());
      }
      F -= K(Rfv) * v;
      T -= K(Rtv) * w;
      r.segment<3>(0) = F;
      r.segment<3>(3) = T;
      return r;
    }
    for(long i = 0; i < contacts; ++i)
    {
      L3 c = at(u, 48 + 12 * i), cv = at(u, 48 + 12 * i + 6);
      LM3 C = R * expl3(at(u, 48 + 12 * i + 3));
      L3 Rc = R * c;
      r.segment<3>(6 * i) = -K(Kfe) * (C.transpose() * L3(p + Rc - c)) - K(Kfv) * (C.transpose() * L3(v + w.cross(Rc) + R * cv));
      r.segment<3>(6 * i + 3) = -K(Kte) * (C.transpose() * o) - K(Ktv) * (C.transpose() * w);
    }
    return r;
  }
  /// a rope has no direction when its contact is at its attachment
  bool singularRope(const LV & x, const LV & u) const
  {
    if(pendulum)
      for(long i = 0; i < contacts; ++i)
        if(L3(at(x, 0) + expl3(at(x, 3)) * at(u, 48 + 12 * i) - pe.cast<R_>()).norm() < 1e-3L) return true;
    return false;
  }
  LV f(const LV & x, const LV & u) const
  {
    LV acc = accelerations(x, u), r = x;
    L3 a = acc.head<3>(), wd = acc.tail<3>();
    R_ t = dt;
    r.segment<3>(0) += t * at(x, 6) + t * t / 2 * a;
    r.segment<3>(3) = logl3(expl3(t * at(x, 9) + t * t / 2 * wd) * expl3(at(x, 3)));
    r.segment<3>(6) += t * a;
    r.segment<3>(9) += t * wd;
    r.segment<12>(12) = reactions(r, u);
    if(!unmodelled) r.segment<6>(24).setZero();
    return r;
  }
  LV h(const LV & x, const LV & u) const
  {
    LV y(measurementSize()), acc = accelerations(x, u);
    LM3 F = expl3(at(x, 3)), R = F * expl3(at(u, 30));
    L3 w = at(x, 9), wd = acc.tail<3>(), p = F * at(u, 27);
    L3 a = acc.head<3>() + wd.cross(p) + w.cross(w.cross(p)) + 2 * w.cross(L3(F * at(u, 33))) + F * at(u, 39);
    y.segment<3>(0) = R.transpose() * (a + L3(0, 0, 9.8));
    y.segment<3>(3) = R.transpose() * (w + F * at(u, 36));
    long i = 6;
    if(forces)
    {
      y.segment(i, 6 * contacts) = x.segment(12, 6 * contacts);
      i += 6 * contacts;
    }
    if(absolute)
    {
      LM3 D = expl3(L3(0, 0, x(34)));
      y.segment<3>(i) = D * at(x, 0) + L3(x(32), x(33), 0);
      y.segment<3>(i + 3) = logl3(D * F);
    }
    return y;
  }
};
inline M3 gain(Gen & g, double lo, double hi)
{
  double m = g.mag(lo, hi);
  switch(g.u(2))
  {
    case 0: return m * M3::Identity();
    case 1: return M3(V3(m, m * g.real(0.2, 2), m * g.real(0.2, 2)).asDiagonal());
    default: return M3(m * g.spd(3, 0.5, 0.3));
  }
}
inline V3 rotVec(Gen & g, double max)
{
  if(g.p(1, 6)) return V3::Zero();
  return g.axis() * g.real(0, max);
}
/// F: forward differences of the reference with the same steps (bounds the truncation error)
inline void compareJacobian(const Mat & got, const LM & J, const LM & F, const Vec & dx, const Vec & scale, long c0, long c1,
                     const char * what)
{
  for(long r = 0; r < J.rows(); ++r)
    for(long c = c0; c < c1; ++c)
    {
      double tol = 2 * std::fabs(double(F(r, c) - J(r, c))) + 1e-13 * (1 + scale(r)) / dx(c) + 1e-6 * std::fabs(double(J(r, c)))
                   + 1e-7;
      REQUIRE(std::fabs(got(r, c) - double(J(r, c))) <= tol, what << " (" << r << ',' << c << ") got " << got(r, c)
                                                                  << " expected " << double(J(r, c)) << " tolerance "
                                                                  << tol);
    }
}
template<class Fn>
LM forward(const Fn & fn, const LV & x, const Vec & dx)
{
  LV y = fn(x);
  LM r(y.size(), x.size());
  for(long i = 0; i < x.size(); ++i)
  {
    LV a = x;
    a(i) += dx(i);
    r.col(i) = (fn(a) - y) / dx(i);
  }
  return r;
}
/// loss of precision in solving for the accelerations
inline double amplification(const Model & m, const Vec & x, const Vec & u)
{
  M3 I = Model::inertia(ref::LVc(u), 9).cast<double>();
  V3 c = m.com(ref::LVc(x), ref::LVc(u)).cast<double>();
  M3 J = I - m.mass * (c.squaredNorm() * M3::Identity() - c * c.transpose());
  return 1 + I.norm() * J.inverse().norm();
}
} // namespace elastic
