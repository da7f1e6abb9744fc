// C04: finite-difference Jacobians against true derivatives of generated models.
#include "models.hpp"
#include <map>
#include <memory>
#include <state-observation/observer/extended-kalman-filter.hpp>
using namespace stateObservation;
using models::Functor;
using models::Manifold;
using ref::L;

/// fourth-order central difference of t -> F(t) at 0
template<class F>
static Vec derivative(F f, double h)
{
  return (8. * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h);
}

FACET(jacobians, 400000, 1600000, "state of tangent dimension at least two, at a generic point, with different steps")
{
  bool flat = g.p(1, 3);
  Manifold sm = models::manifold(g, 4, flat), mm = models::manifold(g, 3, flat || g.b());
  long n = sm.size(), nt = sm.tangent(), m = mm.size(), mt = mm.tangent(), p = long(g.u(2));
  bool uState = p && g.b(), uOut = p && g.b();
  models::Arithmetics ar;
  ar.s = sm, ar.m = mm;
  ExtendedKalmanFilter f(n, nt, m, mt, p, uOut, uState);
  if(!flat || g.b()) f.setStateArithmetics(&ar);
  Functor fn(g, sm, mm, p);
  // the model may read inputs that the filter is told not to feed it with: they are null then, unless the sensor's is known
  const bool reads = p && g.b();
  fn.uState = uState || reads, fn.uOut = uOut || reads;
  f.setFunctor(&fn);
  long k = g.time(-3, 100);
  Vec x = sm.point(g, 2);
  std::map<long, Vec> u;
  if(g.p(1, 4))
  { // what was computed at the same time for another state, another input or another model is not used again
    Functor other(g, sm, mm, p);
    other.uState = fn.uState, other.uOut = fn.uOut;
    bool sameState = g.b(), sameModel = g.b();
    f.setState(sameState ? x : sm.point(g, 2), k);
    if(!sameModel) f.setFunctor(&other);
    if(p)
      for(long i = 0; i < 2; ++i) f.setInput(g.gvec(p, 2), k + i);
    for(size_t i = 1 + g.u(2); i > 0; --i) switch(g.u(4))
      {
        case 0: f.getAMatrixFD(Vec::Constant(nt, 1e-6)); break;
        case 1: f.getCMatrixFD(Vec::Constant(nt, 1e-6)); break;
        case 2: f.updateStatePrediction(); break;
        case 3: f.updateStateAndMeasurementPrediction(); break;
        default: f.getSimulatedMeasurement(k);
      }
    f.setFunctor(&fn);
    f.clearInputs();
    if(!sameState) g.b() ? f.setState(x, k) : f.setCurrentState(x);
    g.label("computed something else before");
  }
  else f.setState(x, k);
  if(p && (uState || uOut || g.b()))
  {
    u[k] = g.gvec(p, 2), f.setInput(u[k], k);
    if(uOut || g.b()) u[k + 1] = g.gvec(p, 2), f.setInput(u[k + 1], k + 1);
  }
  const Vec *u0 = uState ? &u[k] : nullptr, *u1 = u.count(k + 1) ? &u[k + 1] : nullptr;
  g.labelIf(reads && !uState, "input withheld from the process");
  Vec dx(nt);
  for(long i = 0; i < nt; ++i) dx(i) = (g.b() ? 1 : -1) * g.mag(-7, -3);
  g.note() << "n=" << n << "/" << nt << " m=" << m << "/" << mt << " p=" << p << " dx=" << dx.transpose();
  if(nt > 1) g.nontrivial();
  g.labelIf(n != nt, "n!=nt");
  g.labelIf(m != mt, "m!=mt");
  if(g.b()) f.updateStateAndMeasurementPrediction();
  if(p && g.p(1, 3))
  { // simulating the sensor leaves nothing behind
    Vec ys = f.getSimulatedMeasurement(k);
    CLOSE(ys, fn.h(x, u.count(k) ? &u[k] : nullptr, k), 1e-11, "simulated measurement");
  }
  Mat A, C;
  bool first = g.b();
  if(first) A = f.getAMatrixFD(dx);
  C = f.getCMatrixFD(dx);
  if(!first) A = f.getAMatrixFD(dx);
  REQUIRE(A.rows() == nt && A.cols() == nt, "A is " << A.rows() << "x" << A.cols());
  REQUIRE(C.rows() == mt && C.cols() == nt, "C is " << C.rows() << "x" << C.cols() << " instead of " << mt << "x" << nt);
  Vec xb = fn.f(x, u0, k), yb = fn.h(xb, u1, k + 1);
  for(long i = 0; i < nt; ++i)
  {
    Vec e = Vec::Unit(nt, i);
    Vec a = derivative([&](double t) { return sm.diff(fn.f(sm.sum(x, t * e), u0, k), xb); }, 1e-3);
    Vec c = derivative([&](double t) { return mm.diff(fn.h(sm.sum(xb, t * e), u1, k + 1), yb); }, 1e-3);
    // second derivatives of the generated models are bounded by about 10; rounding is amplified by 1/step
    double tol = 30 * std::fabs(dx(i)) + 1e-14 / std::fabs(dx(i)) + 1e-8;
    CLOSE(Vec(A.col(i)), a, tol, "column of A");
    CLOSE(Vec(C.col(i)), c, tol, "column of C");
  }
  REQUIRE(f.getCurrentEstimatedState() == x && f.getCurrentTime() == k, "the state changed");
}

FACET(linearExact, 300000, 1200000, "steps differ between components and are far from infinitesimal")
{
  // for affine models any step gives the exact matrix
  long n = 1 + long(g.many(4, 15)), m = 1 + long(g.many(3, 12)), p = 1 + long(g.u(1));
  struct Lin : DynamicalSystemFunctorBase
  {
    Mat A, B, C, D;
    Vec stateDynamics(const Vec & x, const Vec & u, TimeIndex k) override { return A * x + B * u + Vec::Constant(A.rows(), double(k)); }
    Vec measureDynamics(const Vec & x, const Vec & u, TimeIndex k) override { return C * x + D * u - Vec::Constant(C.rows(), double(k)); }
    Index getStateSize() const override { return A.rows(); }
    Index getInputSize() const override { return B.cols(); }
    Index getMeasurementSize() const override { return C.rows(); }
  } lin;
  lin.A = g.gmat(n, n, 2), lin.B = g.gmat(n, p, 1), lin.C = g.gmat(m, n, 2), lin.D = g.gmat(m, p, 1);
  ExtendedKalmanFilter f(n, m, p);
  f.setFunctor(&lin);
  long k = g.i(0, 5);
  f.setState(g.vec(n, 3), k);
  f.setInput(g.gvec(p, 2), k);
  f.setInput(g.gvec(p, 2), k + 1);
  Vec dx(n);
  for(long i = 0; i < n; ++i) dx(i) = g.gen(2);
  CLOSE(f.getAMatrixFD(dx), lin.A, 1e-10, "A");
  CLOSE(f.getCMatrixFD(dx), lin.C, 1e-10, "C");
  if(n > 1) g.nontrivial();
  g.note() << "n=" << n << " m=" << m << " dx=" << dx.transpose();
}

FACET(noSideEffect, 150000, 600000, "at least two steps")
{
  // a filter that also computes finite differences (any number, anywhere) estimates the same
  Manifold sm = models::manifold(g, 3, g.b()), mm = models::manifold(g, 2, g.b());
  long nt = sm.tangent(), mt = mm.tangent(), p = long(g.u(2)), N = 1 + long(g.u(4));
  models::Arithmetics ar;
  ar.s = sm, ar.m = mm;
  Functor fn(g, sm, mm, p);
  ExtendedKalmanFilter a(sm.size(), nt, mm.size(), mt, p, true, true), b(sm.size(), nt, mm.size(), mt, p, true, true);
  fn.uState = fn.uOut = p > 0;
  Vec x = sm.point(g, 2);
  Mat A = g.gmat(nt, nt, 0.7), C = g.gmat(mt, nt, 0.7), Q = g.spd(nt, 0.4, 0.05), R = g.spd(mt, 0.4, 0.1), P = g.spd(nt, 0.4, 0.05);
  Vec u0 = g.gvec(p, 1);
  for(auto f : {&a, &b})
  {
    f->setFunctor(&fn), f->setStateArithmetics(&ar), f->setState(x, 0), f->setA(A), f->setC(C), f->setQ(Q), f->setR(R),
        f->setStateCovariance(P);
    f->setInput(u0, 0);
  }
  Vec xx = x, uu = u0;
  for(long k = 0; k < N; ++k)
  {
    Vec u1 = g.gvec(p, 1);
    Vec ybar = fn.h(fn.f(xx, &uu, k), &u1, k + 1), y = mm.sum(ybar, g.vec(mt, 0.4));
    for(auto f : {&a, &b}) f->setInput(u1, k + 1), f->setMeasurement(y, k + 1);
    Vec dx(nt);
    for(long i = 0; i < nt; ++i) dx(i) = g.mag(-7, -1);
    for(size_t q = g.u(3); q > 0; --q) switch(g.u(3))
      {
        case 0: b.getAMatrixFD(dx); break;
        case 1: b.getCMatrixFD(dx); break;
        case 2: b.updateStatePrediction(); break;
        default: b.updateStateAndMeasurementPrediction();
      }
    Vec ea = a.getEstimatedState(k + 1), eb = b.getEstimatedState(k + 1);
    CLOSE(eb, ea, 1e-13, "estimate after finite differences");
    CLOSE(b.getStateCovariance(), a.getStateCovariance(), 1e-13, "covariance after finite differences");
    xx = ea;
    uu = u1;
  }
  if(N > 1) g.nontrivial();
}
