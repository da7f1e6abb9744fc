// C23: the fixed-contact flexibility estimator against a reference EKF of an independent contact model.
#include "ref.hpp"
#include "models.hpp"
#include <memory>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/examples/offline-ekf-flexibility-estimation.hpp>
using namespace stateObservation;
using flexibilityEstimation::FixedContactEKFFlexEstimatorIMU;
using ref::D;
using ref::L;
using ref::LM;
using ref::LV;
using ref::LVc;
typedef long double R_;
typedef Eigen::Matrix<R_, 3, 1> L3;
typedef Eigen::Matrix<R_, 3, 3> LM3;

namespace
{
LM3 skewl(const L3 & v)
{
  LM3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
LM3 expl3(const L3 & w)
{
  R_ t2 = w.squaredNorm(), t = std::sqrt(t2), a, b;
  if(t < 1e-3L) a = 1 - t2 / 6 + t2 * t2 / 120, b = 0.5L - t2 / 24 + t2 * t2 / 720;
  else a = std::sin(t) / t, b = 2 * std::sin(t / 2) * std::sin(t / 2) / t2;
  LM3 k = skewl(w);
  return LM3::Identity() + a * k + b * (k * k);
}
/// logarithm away from half turns
L3 logl3(const LM3 & R)
{
  L3 v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  v /= 2;
  R_ s = v.norm(), c = (R.trace() - 1) / 2, a = std::atan2(s, c);
  if(s < 1e-9L) return v;
  return v * (a / s);
}
/// state: p, rotation vector, v, w, a, wd; input: p, rotation vector, v, w, a of the IMU in the flexible frame
struct Model
{
  double dt = 0.005;
  std::vector<V3> contacts;
  LV f(const LV & x) const
  {
    LV r = x;
    L3 v = x.segment<3>(6), w = x.segment<3>(9), a = x.segment<3>(12), wd = x.segment<3>(15);
    R_ t = dt;
    r.segment<3>(0) += t * v + t * t / 2 * a;
    r.segment<3>(3) = logl3(expl3(t * w + t * t / 2 * wd) * expl3(x.segment<3>(3)));
    r.segment<3>(6) += t * a;
    r.segment<3>(9) += t * wd;
    return r;
  }
  LV h(const LV & x, const Vec & u_) const
  {
    LV u = LVc(u_), y(6 + 3 * long(contacts.size()));
    LM3 F = expl3(x.segment<3>(3)), R = F * expl3(u.segment<3>(3));
    L3 w = x.segment<3>(9), wd = x.segment<3>(15), a = x.segment<3>(12);
    L3 p = F * u.segment<3>(0), v = F * u.segment<3>(6), ac = F * u.segment<3>(12), wc = F * u.segment<3>(9);
    L3 acc = a + wd.cross(p) + w.cross(w.cross(p)) + 2 * w.cross(v) + ac + L3(0, 0, 9.8);
    y.segment<3>(0) = R.transpose() * acc;
    y.segment<3>(3) = R.transpose() * L3(w + wc);
    for(size_t i = 0; i < contacts.size(); ++i)
    {
      L3 c = contacts[i].cast<R_>();
      y.segment<3>(6 + 3 * long(i)) = F * c + L3(x.segment<3>(0)) - c;
    }
    return y;
  }
  template<class Fn>
  static void derive(const Fn & fn, const LV & x, LM & J, LM & H)
  {
    LV y0 = fn(x);
    J.resize(y0.size(), x.size());
    H.resize(y0.size(), x.size());
    for(long i = 0; i < x.size(); ++i)
    {
      const R_ e = 1e-5L;
      LV a = x, b = x;
      a(i) += e, b(i) -= e;
      LV ya = fn(a), yb = fn(b);
      J.col(i) = (ya - yb) / (2 * e);
      H.col(i) = (ya - 2 * y0 + yb) / (e * e);
    }
  }
};
/// forward differences with steps of at most 1e-4: second order error, plus rounding
void compareJacobian(const Mat & got, const LM & J, const LM & H, double scale, const char * what)
{
  REQUIRE(got.rows() == J.rows() && got.cols() == J.cols(), what << " size " << got.rows() << 'x' << got.cols());
  for(long r = 0; r < J.rows(); ++r)
    for(long c = 0; c < J.cols(); ++c)
    {
      double tol = 1.5e-4 * std::fabs(double(H(r, c))) + 3e-6 * (1 + scale);
      REQUIRE(std::fabs(got(r, c) - double(J(r, c))) <= tol,
              what << " (" << r << ',' << c << ") got " << got(r, c) << " expected " << double(J(r, c)));
    }
}
Vec input(Gen & g)
{
  Vec u(15);
  u << g.v3(1), V3(g.axis() * g.angle()), g.v3(1), g.v3(1), g.v3(5);
  return u;
}
Vec smallState(Gen & g)
{
  Vec x(18);
  x << g.v3(0.2), V3(g.axis() * (g.p(1, 5) ? 0. : g.real(0, 1.5))), g.v3(1), g.v3(1), g.v3(5), g.v3(5);
  return x;
}
M3 pose(const Vec & x) { return pbt::expm(x.segment<3>(3)); }
Mat diagSpd(Gen & g, long n, double lo, double hi)
{
  if(g.b())
  {
    Mat m = Mat::Zero(n, n);
    for(long i = 0; i < n; ++i) m(i, i) = g.mag(lo, hi);
    return m;
  }
  return g.spd(n, std::sqrt(std::pow(10., hi) / double(n)), std::pow(10., lo));
}

struct Estimator
{
  FixedContactEKFFlexEstimatorIMU & e;
  Model m;
  Mat R, Q, P;
  double virt;
  Vec x;
  long k = 0;
  explicit Estimator(FixedContactEKFFlexEstimatorIMU & es) : e(es) { sync(); }
  void sync()
  {
    R = e.getMeasurementNoiseCovariance();
    Q = e.getProcessNoiseCovariance();
    P = e.getFlexibilityCovariance();
    virt = e.getVirtualMeasurementsCovariance();
  }
  Mat fullR() const
  {
    long n = 6 + 3 * long(m.contacts.size());
    Mat r = Mat::Identity(n, n) * virt;
    r.topLeftCorner(6, 6) = R;
    return r;
  }
  Vec fullY(const Vec & y) const
  {
    Vec r = Vec::Zero(6 + 3 * long(m.contacts.size()));
    r.head(6) = y;
    return r;
  }
};
} // namespace

FACET(history, 30000, 150000, "at least three estimation steps with contacts, or a change of configuration between them")
{
  double dt0 = g.p(1, 3) ? 0.005 : g.mag(-3.3, -0.7);
  std::unique_ptr<FixedContactEKFFlexEstimatorIMU> ep;
  if(dt0 == 0.005) ep.reset(new FixedContactEKFFlexEstimatorIMU);
  else ep.reset(new FixedContactEKFFlexEstimatorIMU(dt0));
  FixedContactEKFFlexEstimatorIMU & e = *ep;
  Estimator s(e);
  s.m.dt = dt0;
  s.x = Vec::Zero(18);
  REQUIRE(e.getStateSize() == 18 && e.getInputSize() == 15 && e.getMeasurementSize() == 6, "sizes");
  CLOSE(e.getFlexibilityVector(), s.x, 0, "flexibility before anything is set");
  const Mat R0 = s.R, Q0 = s.Q;
  const bool precise = g.p(1, 5); // keep the very precise default constraints
  if(!precise) e.setVirtualMeasurementsCovariance(s.virt = g.mag(-5, -1));
  bool haveY = false;
  Vec y, uk, uk1;
  bool haveU = false, haveU1 = false;
  long steps = 0, changes = 0;
  size_t ops = 4 + g.many(g.thorough ? 40 : 25, 150);
  for(size_t o = 0; o < ops; ++o)
  {
    switch(g.u(16))
    {
      case 0:
        if(!haveY)
        {
          size_t n = g.many(3, 9);
          e.setContactsNumber(unsigned(n));
          s.m.contacts.resize(n, V3::Zero());
          for(size_t i = 0; i < n; ++i)
            if(g.p(4, 5)) e.setContactPosition(unsigned(i), s.m.contacts[i] = g.v3(1));
          g.note() << "contacts" << n << ' ';
          ++changes;
        }
        break;
      case 1:
        if(!s.m.contacts.empty())
        {
          size_t i = g.u(s.m.contacts.size() - 1);
          e.setContactPosition(unsigned(i), s.m.contacts[i] = g.v3(1));
          g.note() << "move" << i << ' ';
          ++changes;
        }
        break;
      case 2:
        e.setSamplingPeriod(s.m.dt = g.mag(-3.3, -0.7));
        g.note() << "dt" << s.m.dt << ' ';
        ++changes;
        break;
      case 3:
        s.R = diagSpd(g, 6, -3, -0.5);
        e.setMeasurementNoiseCovariance(s.R);
        CLOSE(e.getMeasurementNoiseCovariance(), s.R, 0, "measurement covariance");
        g.note() << "R ";
        ++changes;
        break;
      case 4:
        s.Q = diagSpd(g, 18, -5, -1);
        e.setProcessNoiseCovariance(s.Q);
        CLOSE(e.getProcessNoiseCovariance(), s.Q, 0, "process covariance");
        g.note() << "Q ";
        ++changes;
        break;
      case 5:
        if(precise) break;
        s.virt = g.mag(-5, -1);
        e.setVirtualMeasurementsCovariance(s.virt);
        CLOSE(e.getVirtualMeasurementsCovariance(), s.virt, 0, "virtual covariance");
        g.note() << "virt ";
        ++changes;
        break;
      case 6:
        s.P = diagSpd(g, 18, -4, -1);
        e.setFlexibilityCovariance(s.P);
        CLOSE(e.getFlexibilityCovariance(), s.P, 1e-12, "state covariance");
        g.note() << "P ";
        ++changes;
        break;
      case 7: // guesses in the three forms
      {
        Vec x = smallState(g);
        M3 Rg = pose(x);
        switch(g.u(2))
        {
          case 0: e.setFlexibilityGuess(x); break;
          case 1:
          {
            Vec v(6);
            v << x.segment<3>(0), x.segment<3>(3);
            e.setFlexibilityGuess(v);
            x.tail(12).setZero();
            break;
          }
          default:
          {
            Mat M = Mat::Identity(4, 4);
            M.topLeftCorner(3, 3) = Rg;
            M.topRightCorner(3, 1) = x.segment<3>(0);
            e.setFlexibilityGuess(M);
            x.tail(12).setZero();
          }
        }
        Vec got = e.getEKF().getCurrentEstimatedState();
        CLOSE(got, x, 1e-9, "guess held by the filter");
        s.x = got;
        CLOSE(e.getEKF().getQ(), s.Q, 0, "process covariance after a guess");
        if(!haveY)
        {
          CLOSE(e.getFlexibilityVector(), s.x, 1e-9, "guess not reported");
          s.x = e.getFlexibilityVector();
        }
        g.note() << "guess ";
        ++changes;
        break;
      }
      case 8:
        uk = input(g);
        e.setInput(uk);
        haveU = true;
        CLOSE(e.getInput(), uk, 0, "input");
        g.note() << "u ";
        break;
      case 9:
        if(g.p(1, 3))
        {
          e.resetCovarianceMatrices();
          CLOSE(e.getMeasurementNoiseCovariance(), R0, 0, "original measurement covariance");
          CLOSE(e.getProcessNoiseCovariance(), Q0, 0, "original process covariance");
          s.sync();
          g.note() << "resetCov ";
          ++changes;
        }
        break;
      case 10: // a prediction asked for by the user changes nothing
        if(haveU1 && s.x.segment<3>(3).norm() < 2)
        {
          LV xb = s.m.f(LVc(s.x));
          if(xb.segment<3>(3).norm() > 3) break;
          CLOSE(e.getPrediction(), D(xb), 1e-9, "prediction");
          CLOSE(e.getPredictedMeasurement(), D(s.m.h(xb, uk1)), 1e-9, "predicted measurement");
          CLOSE(e.getLastPrediction(), D(xb), 1e-9, "last prediction");
          CLOSE(e.getLastPredictedMeasurement(), D(s.m.h(xb, uk1)), 1e-9, "last predicted measurement");
          g.note() << "pred ";
        }
        break;
      case 11: // an unusable measurement leaves the previous estimate
        if(haveY && haveU1 && s.k >= 1 && g.p(1, 3))
        {
          Vec bad = y;
          bad(long(g.u(5))) = NAN;
          e.setMeasurement(bad);
          Vec got = e.getFlexibilityVector();
          CLOSE(got, s.x, 0, "estimate after a NaN measurement");
          ++s.k;
          CLOSE(e.getMeasurementNoiseCovariance(), R0, 0, "original measurement covariance after a NaN measurement");
          CLOSE(e.getProcessNoiseCovariance(), Q0, 0, "original process covariance after a NaN measurement");
          s.sync();
          REQUIRE(s.P.allFinite(), "covariance after a NaN measurement");
          uk = uk1, haveU = true, haveU1 = false, haveY = false;
          g.label("NaN measurement");
          g.note() << "nan ";
        }
        break;
      default: // one step
      {
        bool first = g.b();
        auto giveU = [&] {
          if(haveU1 && g.p(2, 3)) return;
          uk1 = input(g);
          e.setMeasurementInput(uk1);
          if(!haveU) uk = uk1, haveU = true;
          haveU1 = true;
          CLOSE(e.getMeasurementInput(), uk1, 0, "measurement input");
          CLOSE(e.getInput(), uk, 0, "input");
        };
        if(first) giveU();
        else if(!haveU1) giveU();
        LV xb = s.m.f(LVc(s.x));
        if(!(xb.segment<3>(3).norm() < 3 && s.x.segment<3>(3).norm() < 3))
        { // half turns: outside of the smooth domain, start again from a guess
          Vec x = smallState(g);
          e.setFlexibilityGuess(x);
          s.x = x;
          xb = s.m.f(LVc(s.x));
          if(xb.segment<3>(3).norm() > 3) return;
          g.label("restarted");
        }
        LV yb = s.m.h(xb, uk1);
        y = Vec(D(yb)).head(6) + g.vec(6, 0.5);
        e.setMeasurement(y);
        haveY = true;
        CLOSE(e.getMeasurement().head(6), y, 0, "measurement");
        if(g.p(1, 8)) break; // stays pending for a while
        if(!first && g.p(1, 4))
        {
          uk1 = input(g);
          e.setMeasurementInput(uk1);
          yb = s.m.h(xb, uk1);
        }
        Vec got = g.b() ? Vec(e.getFlexibilityVector()) : (e.getFlexibility(), Vec(e.getFlexibilityVector()));
        ++s.k;
        Mat A = e.getEKF().getA(), C = e.getEKF().getC();
        LM J, H;
        Model::derive([&](const LV & v) { return s.m.f(v); }, LVc(s.x), J, H);
        compareJacobian(A, J, H, s.x.cwiseAbs().maxCoeff(), "process Jacobian");
        Model::derive([&](const LV & v) { return s.m.h(v, uk1); }, xb, J, H);
        compareJacobian(C, J, H, double(yb.cwiseAbs().maxCoeff()), "sensor Jacobian");
        ref::Update up = ref::update(L(A), L(C), L(s.Q), L(s.fullR()), L(s.P), LVc(s.fullY(y)) - yb);
        Vec X = D(xb + up.dx);
        double t = 1e-14 * std::max(1e4, up.condS) * (1 + double(up.Pbar.norm())) * (1 + double(up.K.norm()) * C.norm());
        if(t < 1e-3)
        {
          CLOSE(e.getInnovation(), D(up.dx), t, "innovation");
          CLOSE(e.getLastPrediction(), D(xb), 1e-9, "last prediction");
          CLOSE(e.getLastPredictedMeasurement(), D(yb), 1e-9, "last predicted measurement");
          CLOSE(e.getFlexibilityCovariance(), D(up.P), t, "covariance");
          CLOSE(pose(got), pose(X), 10 * t, "estimated orientation");
          REQUIRE(got.segment<3>(3).norm() <= 1.5 * M_PI + 1e-9, "rotation vector " << got.segment<3>(3).norm());
          if(X.segment<3>(3).norm() < 1.5 * M_PI - 1e-6)
            CLOSE(Vec(got.segment<3>(3)), Vec(X.segment<3>(3)), 10 * t, "estimated rotation vector");
          else g.label("rotation vector regularised");
          X.segment<3>(3) = got.segment<3>(3);
          CLOSE(got, X, 10 * t, "estimate");
        }
        else
        { // the very precise constraints with a large uncertainty: beyond double precision
          g.label("ill conditioned");
          return;
        }
        REQUIRE(e.getEKF().getCurrentTime() == s.k, "time " << e.getEKF().getCurrentTime() << " expected " << s.k);
        s.x = got;
        s.P = e.getFlexibilityCovariance();
        // reading again, in any form, changes nothing
        for(size_t r = g.u(2); r > 0; --r)
        {
          if(g.b())
          {
            Mat M = e.getFlexibility(), W = Mat::Identity(4, 4);
            W.topLeftCorner(3, 3) = pose(s.x);
            W.topRightCorner(3, 1) = s.x.head(3);
            CLOSE(M, W, 1e-10, "flexibility as a matrix");
          }
          if(g.b()) CLOSE(e.getSimulatedMeasurement(), D(s.m.h(LVc(s.x), uk1)), 1e-9, "simulated measurement");
          CLOSE(e.getFlexibilityVector(), s.x, 0, "second reading");
          CLOSE(e.getFlexibilityCovariance(), s.P, 0, "covariance after the second reading");
        }
        uk = uk1, haveU = true, haveU1 = false, haveY = false;
        ++steps;
        g.note() << "step ";
        if(s.x.cwiseAbs().maxCoeff() > 50 || s.x.segment<3>(9).norm() * s.m.dt > 1)
        {
          Vec x = smallState(g);
          e.setFlexibilityGuess(x);
          s.x = x;
        }
      }
    }
  }
  if(steps >= 3 && (!s.m.contacts.empty() || changes)) g.nontrivial();
  g.labelIf(s.m.contacts.size() >= 2, "two contacts or more");
}

/// the offline function is the estimator fed sample by sample with the given period
FACET(offline, 7500, 30000, "at least four samples and one contact")
{
  double dt = g.mag(-3, -1);
  long n = 1 + long(g.u(8)), k0 = 1;
  size_t nc = g.u(2);
  Model m;
  m.dt = dt;
  std::vector<Vector3, Eigen::aligned_allocator<Vector3>> pos;
  for(size_t i = 0; i < nc; ++i)
  {
    pos.push_back(g.v3(1));
    m.contacts.push_back(pos.back());
  }
  IndexedVectorArray y, u;
  bool zeroInput = g.p(1, 3);
  LV x = LVc(smallState(g));
  Vec x0 = D(x);
  for(long k = k0 - 1; k < k0 + n; ++k) u.setValue(zeroInput ? Vec(Vec::Zero(15)) : input(g), k);
  for(long k = k0; k < k0 + n; ++k)
  {
    x = m.f(x);
    if(x.segment<3>(3).norm() > 2.5) return;
    y.setValue(Vec(D(m.h(x, u[k]))).head(6) + g.vec(6, 0.01), k);
  }
  IndexedVectorArray r, ino, pre;
  if(zeroInput) r = examples::offlineEKFFlexibilityEstimation(y, x0, unsigned(nc), pos, dt);
  else r = examples::offlineEKFFlexibilityEstimation(y, u, x0, unsigned(nc), pos, dt, &ino, &pre);
  REQUIRE(r.getFirstIndex() == k0 - 1 && r.getNextIndex() == k0 + n, "range of the estimates");
  CLOSE(r[k0 - 1], x0, 0, "initial estimate");
  if(!zeroInput)
    for(long k = k0; k < k0 + n; ++k)
    {
      REQUIRE(ino.checkIndex(k) && pre.checkIndex(k), "recorded innovations and predictions");
      // the recorded values belong to the estimates: prediction from the previous one, plus the innovation
      Vec prev = r[k - 1];
      if(prev.segment<3>(3).norm() > 2 || prev.cwiseAbs().maxCoeff() > 100 || prev.segment<3>(9).norm() * dt > 0.5)
        break;
      LV xb = m.f(LVc(prev));
      double big = 1 + double(xb.cwiseAbs().maxCoeff());
      if(pbt::knownFinding("offline-period") && dt != 0.005)
      { // listed: the estimator keeps its default sampling period
        Model d = m;
        d.dt = 0.005;
        LV xd = d.f(LVc(prev));
        // which of both periods explains the recorded values
        auto misfit = [&](const Model & mm, const LV & xx) {
          Vec e = r[k] - (D(xx) + ino[k]);
          e.segment<3>(3).setZero(); // compared as rotations below
          return std::max((pre[k] - D(mm.h(xx, u[k]))).cwiseAbs().maxCoeff(), e.cwiseAbs().maxCoeff());
        };
        if(misfit(d, xd) < misfit(m, xb))
        {
          xb = xd;
          pbt::knownFindingSeen("offline-period");
        }
      }
      CLOSE(pre[k], D(m.h(xb, u[k])), 1e-8 * big, "recorded predicted measurement");
      Vec X = D(xb) + ino[k], got = r[k];
      CLOSE(pose(got), pose(X), 1e-8 * big, "recorded innovation (orientation)");
      X.segment<3>(3) = got.segment<3>(3);
      CLOSE(got, X, 1e-8 * big, "recorded innovation");
    }
  if(n >= 4 && nc) g.nontrivial();
}

namespace
{
/// a user's estimator: any model behind the base class
struct Custom : flexibilityEstimation::EKFFlexibilityEstimatorBase
{
  models::Functor & fn;
  Mat R0, Q0, P0;
  int resets = 0;
  Custom(models::Functor & f, const Vec & dx)
  : EKFFlexibilityEstimatorBase(f.s.size(), f.m.size(), f.p, dx), fn(f)
  {
    ekf_.setFunctor(&f);
  }
  void setFlexibilityGuess(const Matrix & x) override
  {
    ekf_.setState(x, k_);
    lastX_ = x;
  }
  Matrix4 getFlexibility() override { return Matrix4::Identity(); }
  Index getStateSize() const override { return fn.s.size(); }
  Index getMeasurementSize() const override { return fn.m.size(); }
  Index getInputSize() const override { return fn.p; }
  void resetCovarianceMatrices() override
  {
    ++resets;
    setMeasurementNoiseCovariance(R0);
    setProcessNoiseCovariance(Q0);
    setFlexibilityCovariance(P0);
  }
  using EKFFlexibilityEstimatorBase::setJacobians;
  using EKFFlexibilityEstimatorBase::useFiniteDifferencesJacobians;
};
} // namespace

/// an estimator derived from the base class with any model: its Jacobians are the given ones or forward differences with
/// the given steps
FACET(derived, 40000, 200000, "at least three steps, with both given and finite difference Jacobians")
{
  models::Manifold sm = models::manifold(g, 4, true), mm = models::manifold(g, 4, true);
  models::Functor f(g, sm, mm, 1 + long(g.u(2)));
  long n = sm.size(), m = mm.size(), p = f.p;
  Vec dx(n);
  for(long i = 0; i < n; ++i) dx(i) = g.mag(-4, -1);
  Custom e(f, dx);
  Mat Q = g.spd(n, 1, 0.01), R = g.spd(m, 1, 0.05), P = g.spd(n, 1, 0.01);
  e.Q0 = Q, e.R0 = R, e.P0 = P;
  e.resetCovarianceMatrices();
  e.resets = 0;
  Vec x = g.vec(n, 2), uk, uk1;
  e.setFlexibilityGuess(x);
  bool fd = true, haveU = false, gaveJ = false, usedFd = false, usedJ = false;
  Mat A, C;
  const flexibilityEstimation::EKFFlexibilityEstimatorBase & ce = e;
  long k = 0, steps = 0;
  for(size_t o = 4 + g.u(14); o > 0; --o)
  {
    switch(g.u(9))
    {
      case 0:
        Q = g.spd(n, 1, 0.01);
        e.setProcessNoiseCovariance(Q);
        CLOSE(ce.getProcessNoiseCovariance(), Q, 0, "process covariance");
        break;
      case 1:
        R = g.spd(m, 1, 0.05);
        e.setMeasurementNoiseCovariance(R);
        CLOSE(ce.getMeasurementNoiseCovariance(), R, 0, "measurement covariance");
        break;
      case 2:
        P = g.spd(n, 1, 0.01);
        e.setFlexibilityCovariance(P);
        CLOSE(ce.getFlexibilityCovariance(), P, 0, "state covariance");
        break;
      case 3:
        fd = false, gaveJ = true;
        A = g.gmat(n, n, 0.5), C = g.gmat(m, n, 0.7);
        e.setJacobians(A, C);
        g.note() << "given ";
        break;
      case 4:
        fd = true;
        for(long i = 0; i < n; ++i) dx(i) = g.mag(-4, -1);
        e.useFiniteDifferencesJacobians(dx);
        g.note() << "fd ";
        break;
      case 5:
        x = g.vec(n, 2);
        e.setFlexibilityGuess(x);
        CLOSE(e.getFlexibilityVector(), x, 0, "guess");
        g.note() << "guess ";
        break;
      default:
      {
        if(!haveU || g.b())
        {
          uk = g.vec(p, 2);
          e.setInput(uk);
          haveU = true;
          CLOSE(e.getInput(), uk, 0, "input");
        }
        uk1 = g.vec(p, 2);
        e.setMeasurementInput(uk1);
        CLOSE(e.getInput(), uk, 0, "input after that of the measurement");
        CLOSE(e.getMeasurementInput(), uk1, 0, "input of the measurement");
        Vec xb = f.f(x, &uk, k), yb = f.h(xb, &uk1, k + 1);
        if(g.p(1, 4)) CLOSE(e.getPrediction(), xb, 1e-12, "prediction");
        if(g.p(1, 4)) CLOSE(e.getPredictedMeasurement(), yb, 1e-12, "predicted measurement");
        bool bad = k >= 1 && g.p(1, 8);
        Vec y = yb + g.vec(m, 1);
        if(bad) y(long(g.u(size_t(m - 1)))) = NAN;
        e.setMeasurement(y);
        if(!bad) CLOSE(e.getMeasurement(), y, 0, "measurement");
        Vec got = e.getFlexibilityVector();
        ++k;
        REQUIRE(ce.getEKF().getCurrentTime() == k && &ce.getEKF() == &e.getEKF(), "time of the filter");
        if(bad)
        {
          CLOSE(got, x, 0, "estimate after a NaN measurement");
          REQUIRE(e.resets == 1, e.resets << " resets after a NaN measurement");
          e.resets = 0;
          Q = e.Q0, R = e.R0, P = e.P0;
          g.note() << "nan ";
        }
        else
        {
          REQUIRE(e.resets == 0, "covariances reset");
          if(fd)
          {
            A.resize(n, n), C.resize(m, n);
            for(long i = 0; i < n; ++i)
            {
              Vec d = Vec::Zero(n);
              d(i) = dx(i);
              A.col(i) = (f.f(x + d, &uk, k - 1) - xb) / dx(i);
              C.col(i) = (f.h(xb + d, &uk1, k) - yb) / dx(i);
            }
            usedFd = true;
          }
          else usedJ = true;
          double t = 1e-13 * (fd ? 1 / dx.minCoeff() : 1.) * (1 + x.norm() + xb.norm() + yb.norm());
          CLOSE(ce.getEKF().getA(), A, t, "process Jacobian");
          CLOSE(ce.getEKF().getC(), C, t, "sensor Jacobian");
          ref::Update up = ref::update(L(A), L(C), L(Q), L(R), L(P), LVc(y - yb));
          t = (t + 1e-14) * 1e3 * up.condS * (1 + double(up.Pbar.norm())) * (1 + double(up.K.norm()) * C.norm())
              * (1 + double(up.dx.norm()));
          if(!(t < 1e-3)) return;
          CLOSE(got, D(LVc(xb) + up.dx), t, "estimate");
          CLOSE(ce.getFlexibilityCovariance(), D(up.P), t, "covariance");
          CLOSE(e.getInnovation(), D(up.dx), t, "innovation");
          CLOSE(e.getLastPrediction(), xb, 1e-11, "last prediction");
          CLOSE(e.getLastPredictedMeasurement(), yb, 1e-11, "last predicted measurement");
          x = got;
          P = e.getFlexibilityCovariance();
          CLOSE(e.getSimulatedMeasurement(), f.h(x, &uk1, k), 1e-11, "simulated measurement");
          ++steps;
          g.note() << "step ";
          if(x.norm() > 100) return;
        }
        CLOSE(e.getFlexibilityVector(), x, 0, "second reading");
        uk = uk1;
      }
    }
  }
  if(steps >= 3 && usedFd && usedJ) g.nontrivial();
}
