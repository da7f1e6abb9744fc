// C24: the model-based flexibility estimator against a reference EKF of an independent elastic model.
#include "elastic.hpp"
#include <memory>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
using namespace stateObservation;
using elastic::L3;
using elastic::LM;
using elastic::LV;
using elastic::Model;
using ref::D;
using ref::L;
using ref::LVc;
typedef flexibilityEstimation::ModelBaseEKFFlexEstimatorIMU Est;

namespace
{
const long fc = 12, unmod = 24, bias = 30, drift = 32;
struct Bench
{
  Gen & g;
  Model m;
  std::unique_ptr<Est> ep;
  Est & e;
  // the declared noises
  Mat R6, force6 = Mat::Identity(6, 6) * 1e-4;
  double absVar = 1e-4;
  bool custom = false; ///< the user gave the whole measurement covariance
  Mat R, Q, P;
  Vec x = Vec::Zero(35), y, uk, uk1;
  bool haveY = false, haveU = false, haveU1 = false, on = true, limit = true;
  V3 fLim, tLim;
  long k = 0, steps = 0, changes = 0;

  static Est * make(Gen & g, Model & m)
  {
    if(g.b()) return new Est;
    m.dt = g.mag(-3, -1.7);
    return new Est(m.dt);
  }
  explicit Bench(Gen & g_) : g(g_), ep(make(g_, m)), e(*ep)
  {
    R6 = 1e-6 * Mat::Identity(6, 6);
    CLOSE(Est::getDefaultRIMU(), R6, 1e-18, "default IMU covariance");
    Q = e.getProcessNoiseCovariance();
    P = e.getFlexibilityCovariance();
    fLim = e.getForcesLimit();
    tLim = e.getTorquesLimit();
    REQUIRE(e.getLimitOn(), "limits are on at first");
    sizes();
    covariance();
    CLOSE(e.getFlexibilityVector(), x, 0, "flexibility before anything is set");
  }
  void sizes()
  {
    REQUIRE(e.getStateSize() == 35, "state size");
    REQUIRE(e.getInputSize() == m.inputSize(), "input size " << e.getInputSize());
    REQUIRE(e.getEKF().getInputSize() == m.inputSize(), "input size of the filter");
    REQUIRE(e.getMeasurementSize() == m.measurementSize(), "measurement size " << e.getMeasurementSize());
    REQUIRE(e.getEKF().getMeasureSize() == m.measurementSize(), "measurement size of the filter");
    REQUIRE(e.getContactsNumber() == unsigned(m.contacts), "contacts number");
    REQUIRE(e.getWithForcesMeasurements() == m.forces && e.getWithComBias() == m.comBias
                && e.getWithAbsolutePos() == m.absolute && e.getWithUnmodeledForces() == m.unmodelled,
            "features");
  }
  Mat declared() const
  {
    long n = m.measurementSize(), i = 6;
    Mat r = Mat::Zero(n, n);
    r.topLeftCorner(6, 6) = R6;
    if(m.forces)
      for(int c = 0; c < m.contacts; ++c, i += 6) r.block(i, i, 6, 6) = force6;
    if(m.absolute) r.block(i, i, 6, 6) = absVar * Mat::Identity(6, 6);
    return r;
  }
  /// after a change of sensors or of their noise
  void covariance(bool change = true)
  {
    Mat got = e.getMeasurementNoiseCovariance();
    long n = m.measurementSize();
    REQUIRE(got.rows() == n && got.cols() == n, "size of the measurement covariance " << got.rows());
    if(!custom) CLOSE(got, declared(), 1e-16, "measurement covariance");
    else if(change)
    { // what becomes of a covariance given for other sensors is up to the estimator, except that of the IMU
      CLOSE(got.topLeftCorner(6, 6), R6, 1e-16, "IMU covariance");
      REQUIRE(got.allFinite(), "measurement covariance");
    }
    else CLOSE(got, R, 0, "measurement covariance");
    CLOSE(e.getEKF().getR(), got, 0, "measurement covariance of the filter");
    R = got;
  }
  static double lowest(const Mat & c)
  {
    Vec s(35);
    for(long i = 0; i < 35; ++i) s(i) = c(i, i) > 0 ? 1 / std::sqrt(c(i, i)) : 1e150;
    return Eigen::SelfAdjointEigenSolver<Mat>(s.asDiagonal() * c * s.asDiagonal()).eigenvalues()(0);
  }
  void resized(long before)
  { // measurements of another size are dropped
    if(before != m.measurementSize()) haveY = false;
  }
  void contacts(int n)
  {
    long before = m.measurementSize();
    if(haveY) return;
    if(n != m.contacts) haveU = haveU1 = false;
    m.contacts = n;
    e.setContactsNumber(unsigned(n));
    g.note() << "contacts" << n << ' ';
    resized(before);
    sizes();
    covariance();
  }
  void configure(size_t what)
  {
    long before = m.measurementSize();
    ++changes;
    switch(what)
    {
      case 0: contacts(int(g.u(2))); return;
      case 1: e.setWithForcesMeasurements(m.forces = g.b()), g.note() << "forces" << m.forces << ' '; break;
      case 2: e.setWithComBias(m.comBias = g.b()), g.note() << "bias" << m.comBias << ' '; break;
      case 3: e.setWithAbsolutePos(m.absolute = g.b()), g.note() << "abs" << m.absolute << ' '; break;
      case 4: e.setWithUnmodeledForces(m.unmodelled = g.b()), g.note() << "unmod" << m.unmodelled << ' '; break;
      case 5: e.setRobotMass(m.mass = g.p(1, 3) ? 56.8 : g.mag(0.5, 2.2)); break;
      case 6: e.setSamplingPeriod(m.dt = g.mag(-3, -1.7)); break;
      case 7: e.setKfe(m.Kfe = elastic::gain(g, 2, 4.6)); break;
      case 8: e.setKte(m.Kte = elastic::gain(g, 1, 3)); break;
      case 9: e.setKfv(m.Kfv = elastic::gain(g, 1, 3)); break;
      case 10: e.setKtv(m.Ktv = elastic::gain(g, 0, 2)); break;
      case 11: e.setKfeRopes(m.Rfe = elastic::gain(g, 2, 4.6)); break;
      case 12: e.setKteRopes(m.Rte = elastic::gain(g, 1, 3)); break;
      case 13: e.setKfvRopes(m.Rfv = elastic::gain(g, 1, 3)); break;
      case 14: e.setKtvRopes(m.Rtv = elastic::gain(g, 0, 2)); break;
      case 15: e.setPe(m.pe = V3(g.v3(1) + V3(0, 0, 4))); break;
      case 16:
      {
        double d = g.mag(-6, 0);
        force6 = d * Mat::Identity(6, 6);
        e.setForceVariance(d);
        g.note() << "forceVar ";
        break;
      }
      case 17:
      {
        M3 c = g.spd(3, 0.1, 1e-4);
        force6.setZero();
        force6.topLeftCorner(3, 3) = force6.bottomRightCorner(3, 3) = c;
        e.setForceVariance(c);
        g.note() << "forceCov ";
        break;
      }
      case 18: e.setAbsolutePosVariance(absVar = g.mag(-6, -1)), g.note() << "absVar "; break;
      case 19:
        if(g.p(1, 3))
        { // a covariance for other sensors than those in use: that of the IMU is its beginning
          long n = 6 * (1 + long(g.u(4)));
          Mat r = g.spd(n, 0.02, 1e-5);
          if(n == m.measurementSize()) break;
          R6 = r.topLeftCorner(6, 6);
          custom = true;
          e.setMeasurementNoiseCovariance(r);
          g.label("covariance of another size");
        }
        else
        {
          R6 = g.spd(6, 0.02, 1e-6);
          custom = false;
          e.setMeasurementNoiseCovariance(R6);
        }
        g.note() << "R6 ";
        break;
      case 20:
      {
        Mat r = g.spd(m.measurementSize(), 0.02, 1e-5);
        R6 = r.topLeftCorner(6, 6);
        custom = r.rows() > 6;
        R = r;
        e.setMeasurementNoiseCovariance(r);
        covariance(false);
        g.note() << "R ";
        return;
      }
      case 21:
        Q = process();
        e.setProcessNoiseCovariance(Q);
        g.note() << "Q ";
        break;
      case 22:
      {
        P = process();
        double big = g.p(1, 4) ? 0.3 : 1e-3;
        Mat s = g.spd(12, big, big * 1e-3);
        P.topLeftCorner(12, 12) = s;
        e.setFlexibilityCovariance(P);
        CLOSE(e.getFlexibilityCovariance(), P, 1e-12, "state covariance");
        CLOSE(e.getStateCovariance(), Vec(P.diagonal()), 1e-12, "state variances");
        g.note() << "P ";
        break;
      }
      case 23:
      {
        double d = g.p(1, 6) ? 0 : g.mag(-6, 0);
        e.setUnmodeledForceVariance(d);
        if(d > 0) m.unmodelled = true;
        Mat got = e.getFlexibilityCovariance(), want = P;
        for(long i = 0; i < 35; ++i)
          for(long j = 0; j < 35; ++j)
            if((i >= unmod && i < bias) || (j >= unmod && j < bias)) want(i, j) = got(i, j);
        for(long i = unmod; i < bias; ++i) want(i, i) = d;
        CLOSE(got, want, 1e-15, "covariance after setting that of the unmodelled wrench");
        CLOSE(Mat(got.transpose()), got, 1e-15, "symmetry of the covariance");
        // correlations are bounded by the variances, as far as they were before
        double low = lowest(got), before = std::min(0., lowest(P));
        REQUIRE(low > 2 * before - 1e-7, "indefinite covariance: " << low << ", before: " << before);
        P = got;
        g.note() << "unmodVar ";
        break;
      }
      case 24:
      {
        double d = g.p(1, 6) ? 0 : g.mag(-6, 0);
        e.setUnmodeledForceProcessVariance(d);
        if(d > 0) m.unmodelled = true;
        Q.diagonal().segment<6>(unmod).setConstant(d);
        g.note() << "unmodQ ";
        break;
      }
      case 25:
        e.setForcesLimit(fLim = V3(g.mag(0, 4), g.mag(0, 4), g.mag(0, 4)));
        e.setTorquesLimit(tLim = V3(g.mag(-1, 3), g.mag(-1, 3), g.mag(-1, 3)));
        CLOSE(e.getForcesLimit(), fLim, 0, "force limits");
        CLOSE(e.getTorquesLimit(), tLim, 0, "torque limits");
        g.note() << "limits ";
        break;
      case 26: e.setLimitOn(limit = g.b()), g.note() << "limit" << limit << ' '; break;
      case 27:
        m.pendulum = g.p(1, 3);
        e.setContactModel(m.pendulum ? unsigned(Est::contactModel::pendulum) : unsigned(Est::contactModel::elasticContact));
        break;
      case 28:
        if(g.p(1, 2))
        {
          e.resetCovarianceMatrices();
          R6 = Est::getDefaultRIMU();
          custom = false;
          resetProcess();
          g.note() << "reset ";
        }
        else
        {
          e.resetStateCovarianceMatrix();
          g.note() << "resetP ";
        }
        P = Q;
        CLOSE(e.getFlexibilityCovariance(), P, 0, "reset covariance");
        break;
    }
    resized(before);
    sizes();
    covariance(what != 21 && what != 22);
    CLOSE(e.getProcessNoiseCovariance(), Q, 0, "process covariance");
    CLOSE(e.getEKF().getQ(), Q, 0, "process covariance of the filter");
    CLOSE(e.getFlexibilityCovariance(), P, 1e-12, "state covariance");
    CLOSE(e.getKfe(), m.Kfe, 0, "Kfe");
    CLOSE(e.getKte(), m.Kte, 0, "Kte");
    CLOSE(e.getKfv(), m.Kfv, 0, "Kfv");
    CLOSE(e.getKtv(), m.Ktv, 0, "Ktv");
    REQUIRE(e.getRobotMass() == m.mass, "mass");
    REQUIRE(e.getLimitOn() == limit, "limit");
  }
  /// original values of the process covariance, none for what is not estimated
  void resetProcess()
  {
    Mat q = e.getProcessNoiseCovariance(), d = Est::getDefaultQ();
    CLOSE(q.topLeftCorner(24, 24), d.topLeftCorner(24, 24), 0, "original process covariance");
    auto part = [&](long i, long n, bool with, const char * what) {
      Mat b = q.block(i, i, n, n);
      if(with) REQUIRE(b.diagonal().minCoeff() > 0, "no process noise although enabled: " << what);
      else CLOSE(b, Mat(Mat::Zero(n, n)), 0, what);
    };
    part(unmod, 6, m.unmodelled, "process noise of the unmodelled wrench");
    part(bias, 2, m.comBias, "process noise of the bias");
    part(drift, 3, m.absolute, "process noise of the drift");
    Q = q;
  }
  Mat process()
  {
    Mat q = Mat::Zero(35, 35);
    auto d = [&](long i, long n, double lo, double hi) {
      for(long j = i; j < i + n; ++j) q(j, j) = g.mag(lo, hi);
    };
    d(0, 12, -9, -5);
    d(fc, 12, -4, 1);
    if(m.unmodelled) d(unmod, 6, -4, 1);
    if(m.comBias) d(bias, 2, -10, -5);
    if(m.absolute) d(drift, 3, -8, -4);
    return q;
  }
  Vec state()
  {
    Vec r(35);
    r << g.v3(0.02), elastic::rotVec(g, 0.6), g.v3(0.2), g.v3(0.4), g.vec(12, 100), g.vec(6, 10), g.vec(2, 0.05), g.v3(0.2);
    return r;
  }
  Vec input()
  {
    Vec u(m.inputSize());
    V3 c = g.v3(0.5), cb = c;
    if(m.comBias) cb(0) -= x(bias), cb(1) -= x(bias + 1);
    M3 I = g.spd(3, 0.7, 1) + m.mass * ((0.05 + cb.squaredNorm()) * M3::Identity() - cb * cb.transpose());
    u.head(27) << c, g.v3(1), g.v3(3), I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2), g.v3(5), g.vec(6, 2),
        g.v3(5);
    u.segment(27, 21) << g.v3(1), elastic::rotVec(g, 3.1), g.v3(1), g.v3(1), g.v3(5), g.vec(6, 10);
    for(long i = 0; i < m.contacts; ++i)
    {
      V3 at = g.v3(0.5); // a rope has no direction when its contact is at its attachment
      if((at - m.pe).norm() < 0.1) at += V3(0.3, 0.2, 0.1);
      u.segment(48 + 12 * i, 12) << at, elastic::rotVec(g, 3.1), g.v3(0.2), g.v3(0.2);
    }
    return u;
  }
  void giveInputs()
  {
    if(haveU1 && g.p(2, 3)) return;
    uk1 = input();
    e.setMeasurementInput(uk1);
    if(!haveU) uk = uk1, haveU = true;
    haveU1 = true;
    CLOSE(e.getMeasurementInput(), uk1, 0, "measurement input");
    CLOSE(e.getInput(), uk, 0, "input");
  }
  bool tame(const Vec & v) const
  {
    return v.allFinite() && v.segment<3>(3).norm() < 2 && v.head(12).cwiseAbs().maxCoeff() < 20
           && v.cwiseAbs().maxCoeff() < 1e6 && v.segment<3>(9).norm() * m.dt < 0.5 && std::fabs(v(34)) < 0.8
           && v.segment<2>(bias).norm() < 0.1;
  }
  static double posDef(const Model & m, const Vec & x, const Vec & u)
  { // smallest principal inertia about the center of mass
    M3 I = Model::inertia(LVc(u), 9).cast<double>();
    V3 c = m.com(LVc(x), LVc(u)).cast<double>();
    M3 J = I - m.mass * (c.squaredNorm() * M3::Identity() - c * c.transpose());
    return Eigen::SelfAdjointEigenSolver<M3>(J).eigenvalues()(0);
  }
  void guess(const Vec & v)
  {
    Vec w = v;
    switch(g.u(3))
    {
      case 0: e.setFlexibilityGuess(w); break;
      case 1:
      {
        Vec s(6);
        s << w.head(6);
        w.tail(29).setZero();
        e.setFlexibilityGuess(s);
        break;
      }
      case 2:
      {
        Mat M = Mat::Identity(4, 4);
        M.topLeftCorner(3, 3) = pbt::expm(w.segment<3>(3));
        M.topRightCorner(3, 1) = w.head(3);
        w.tail(29).setZero();
        e.setFlexibilityGuess(M);
        break;
      }
      default:
        w = x;
        w.segment(bias, 2) = g.vec(2, 0.05);
        e.setComBiasGuess(Vec(w.segment(bias, 2)));
    }
    Vec got = e.getEKF().getCurrentEstimatedState();
    CLOSE(got, w, 1e-9, "guess held by the filter");
    x = got;
    if(!haveY && on)
    {
      CLOSE(e.getFlexibilityVector(), x, 1e-9, "guess not reported");
      x = e.getFlexibilityVector();
    }
    CLOSE(e.getEKF().getQ(), Q, 0, "process covariance after a guess");
    CLOSE(e.getFlexibilityCovariance(), P, 0, "covariance after a guess");
    g.note() << "guess ";
    ++changes;
  }
  /// reading, in any form, changes nothing once the measurement is used
  void read()
  {
    for(size_t r = g.u(3); r > 0; --r)
      switch(g.u(5))
      {
        case 0:
        {
          Mat M = e.getFlexibility(), W = Mat::Identity(4, 4);
          W.topLeftCorner(3, 3) = pbt::expm(x.segment<3>(3));
          W.topRightCorner(3, 1) = x.head(3);
          CLOSE(M, W, 1e-10, "flexibility as a matrix");
          break;
        }
        case 1: CLOSE(e.getForcesAndMoments(), Vec(x.segment(fc, 6 * m.contacts)), 0, "contact wrenches"); break;
        case 2:
          if(haveU && on && posDef(m, x, uk) > 0.01)
            CLOSE(e.getMomentaDotFromForces(), D(m.momentaDot(LVc(x), LVc(uk))), 1e-9, "momentum rate from forces");
          break;
        case 3:
          if(haveU && on && posDef(m, x, uk) > 0.01)
            CLOSE(e.getMomentaDotFromKinematics(), D(m.momentaDot(LVc(x), LVc(uk))), 1e-8, "momentum rate from kinematics");
          break;
        case 4:
          if(haveU && posDef(m, x, uk) > 0.01)
            CLOSE(e.computeAccelerations(), D(m.accelerations(LVc(x), LVc(uk))), 1e-8, "accelerations");
          break;
        default:
          if(haveU && on && steps && std::fabs(x(34)) + x.segment<3>(3).norm() < 2.9 && posDef(m, x, uk) > 0.01
             && e.getEKF().getInputsNumber() > 0)
          {
            Vec got = e.getSimulatedMeasurement(), want = D(m.h(LVc(x), LVc(uk)));
            CLOSE(Vec(got.head(6)), Vec(want.head(6)), 1e-8, "simulated IMU measurement");
            CLOSE(got, want, 1e-8, "simulated measurement");
          }
      }
    CLOSE(e.getFlexibilityVector(), x, 0, "second reading");
    CLOSE(e.getFlexibilityCovariance(), P, 0, "covariance after the second reading");
  }
  void comparePrediction(const Vec & got, const Vec & want)
  {
    REQUIRE(got.size() == 35, "size of the prediction");
    CLOSE(Vec(got.head(12)), Vec(want.head(12)), 1e-8, "predicted kinematics");
    CLOSE(Vec(got.segment(fc, 12)), Vec(want.segment(fc, 12)), 1e-8, "predicted contact wrenches");
    for(long i = unmod; i < bias; ++i)
      if(m.unmodelled)
        REQUIRE(std::fabs(got(i)) <= std::fabs(x(i)) && std::fabs(got(i) - x(i)) <= 2e-3 * std::fabs(x(i)),
                "unmodelled wrench " << got(i) << " from " << x(i));
      else REQUIRE(got(i) == 0, "unmodelled wrench although disabled");
    CLOSE(Vec(got.tail(5)), Vec(x.tail(5)), 0, "predicted bias and drift");
  }
  /// false when the history leaves the domain of the comparison
  bool step()
  {
    bool first = g.b();
    if(first || !haveU1) giveInputs();
    if(!tame(x)) restart();
    // forces that are not bounded by the limits could be huge: only the state matters
    LV xb = m.f(LVc(x), LVc(uk));
    if(posDef(m, x, uk) < 0.05 || posDef(m, D(xb), uk1) < 0.05 || !tame(D(xb))) return false;
    LV yb = m.h(xb, LVc(uk1));
    y = Vec(D(yb)) + g.vec(yb.size(), g.p(1, 6) ? 20 : 0.2);
    e.setMeasurement(y);
    haveY = true;
    CLOSE(e.getMeasurement(), y, 0, "measurement");
    g.note() << "y ";
    if(g.p(1, 8)) return true; // stays pending
    return estimate();
  }
  void restart()
  {
    Vec v = state();
    e.setFlexibilityGuess(v);
    x = v;
    g.label("restarted");
  }
  bool estimate()
  {
    if(!tame(x)) restart();
    LV xb = m.f(LVc(x), LVc(uk));
    if(posDef(m, x, uk) < 0.05 || posDef(m, D(xb), uk1) < 0.05 || !tame(D(xb))) return false;
    const Vec x0 = x;
    Vec mom;
    size_t how = g.u(4);
    switch(how)
    { // any reading uses the measurement
      case 1: e.getFlexibility(); break;
      case 2: e.getForcesAndMoments(); break;
      case 3: mom = e.getMomentaDotFromForces(); break;
      case 4: mom = e.computeAccelerations(); break;
      default: break;
    }
    Vec got = e.getFlexibilityVector();
    ++k;
    REQUIRE(e.getEKF().getCurrentTime() == k, "time " << e.getEKF().getCurrentTime() << " expected " << k);
    Vec pred = e.getLastPrediction();
    comparePrediction(pred, D(xb));
    xb.segment<6>(unmod) = LVc(pred).segment<6>(unmod);
    LV yb = m.h(xb, LVc(uk1));
    Vec py = e.getLastPredictedMeasurement(), Yb = D(yb);
    REQUIRE(py.size() == yb.size(), "size of the predicted measurement");
    CLOSE(Vec(py.head(6)), Vec(Yb.head(6)), 1e-8, "predicted IMU measurement");
    CLOSE(py, Yb, 1e-8, "predicted measurement");
    Mat A = e.getEKF().getA(), C = e.getEKF().getC();
    jacobians(A, C, x0, xb);
    // what follows is decided from the prediction and the Jacobians compared above
    ref::Update up = ref::update(L(A), L(C), L(Q), L(R), L(P), LVc(y) - LVc(py));
    Vec X = pred + Vec(D(up.dx));
    // rounding errors are relative to the magnitudes of the terms: compare in standard deviations
    Mat aP = P.cwiseAbs(), aA = A.cwiseAbs(), aC = C.cwiseAbs();
    Vec sig = (aA * aP * aA.transpose() + Q.cwiseAbs()).diagonal().cwiseSqrt();
    Vec sy = (aC * (sig * sig.transpose()) * aC.transpose() + R.cwiseAbs()).diagonal().cwiseSqrt();
    Mat Sn = D(up.S);
    for(long i = 0; i < sy.size(); ++i)
      for(long j = 0; j < sy.size(); ++j) Sn(i, j) /= sy(i) * sy(j);
    double kappa = 1 / std::max(1e-300, Eigen::SelfAdjointEigenSolver<Mat>(0.5 * (Sn + Sn.transpose())).eigenvalues()(0));
    double nu = Vec(y - py).cwiseQuotient(sy).norm();
    double t = 1e-13 * std::pow(kappa, 1.5);
    if(!(t < 1e-4) || !(nu < 1e9))
    { // beyond double precision: go on from well conditioned values
      g.label("ill conditioned");
      x = got;
      uk = uk1, haveU = true, haveU1 = false, haveY = false;
      restart();
      configure(22);
      R6 = 1e-2 * Mat::Identity(6, 6);
      custom = false;
      e.setMeasurementNoiseCovariance(R6);
      covariance();
      return true;
    }
    Vec inno = e.getInnovation(), wantI = D(up.dx);
    Mat gotP = e.getFlexibilityCovariance(), wantP = D(up.P);
    REQUIRE(inno.size() == 35 && gotP.rows() == 35 && gotP.cols() == 35, "sizes of the update");
    for(long i = 0; i < 35; ++i)
    {
      REQUIRE(std::fabs(inno(i) - wantI(i)) <= t * (1 + nu) * sig(i) + 1e-15 * std::fabs(pred(i)),
              "innovation of " << i << ": " << inno(i) << " expected " << wantI(i) << " sigma " << sig(i) << " t " << t * (1 + nu));
      for(long j = 0; j < 35; ++j)
        REQUIRE(std::fabs(gotP(i, j) - wantP(i, j)) <= t * sig(i) * sig(j),
                "covariance of " << i << ", " << j << ": " << gotP(i, j) << " expected " << wantP(i, j) << " sigmas " << sig(i)
                                 << ' ' << sig(j) << " t " << t);
    }
    t = 1e-12 + t * (1 + nu) * sig.maxCoeff();
    CLOSE(pbt::expm(got.segment<3>(3)), pbt::expm(X.segment<3>(3)), 10 * t, "estimated orientation");
    REQUIRE(got.segment<3>(3).norm() <= 1.5 * M_PI + 1e-9, "rotation vector " << got.segment<3>(3).norm());
    if(X.segment<3>(3).norm() > 1.5 * M_PI + 1e-6) g.label("rotation vector regularised");
    if(X.segment<3>(3).norm() < 1.5 * M_PI - 1e-6)
      CLOSE(Vec(got.segment<3>(3)), Vec(X.segment<3>(3)), 10 * t, "estimated rotation vector");
    X.segment<3>(3) = got.segment<3>(3);
    if(limit)
      for(int c = 0; c < 2; ++c)
        for(int i = 0; i < 3; ++i)
        {
          double &f = X(fc + 6 * c + i), &w = X(fc + 6 * c + 3 + i);
          if(std::fabs(f) > fLim(i) || std::fabs(w) > tLim(i)) g.label("limited");
          f = std::max(-fLim(i), std::min(fLim(i), f));
          w = std::max(-tLim(i), std::min(tLim(i), w));
          REQUIRE(std::fabs(got(fc + 6 * c + i)) <= fLim(i), "force above the limit");
          REQUIRE(std::fabs(got(fc + 6 * c + 3 + i)) <= tLim(i), "torque above the limit");
        }
    CLOSE(got, X, 10 * t, "estimate");
    CLOSE(e.getEKF().getCurrentEstimatedState(), got, 0, "the filter holds the reported estimate");
    x = got;
    P = e.getFlexibilityCovariance();
    if(posDef(m, x, uk1) > 0.01)
    {
      if(how == 3) CLOSE(mom, D(m.momentaDot(LVc(x), LVc(uk1))), 1e-9, "momentum rate of a new estimate");
      if(how == 4) CLOSE(mom, D(m.accelerations(LVc(x), LVc(uk1))), 1e-8, "accelerations of a new estimate");
    }
    Mat O(2 * C.rows(), 35);
    O << C, C * A;
    if(g.p(1, 6)) CLOSE(e.computeLocalObservationMatrix(), O, 1e-12, "local observation matrix");
    uk = uk1, haveU = true, haveU1 = false, haveY = false;
    ++steps;
    g.note() << "step ";
    read();
    return true;
  }
  void jacobians(const Mat & A, const Mat & C, const Vec & x0, const LV & xb)
  {
    Vec dx = Vec::Constant(35, 1e-8);
    dx.segment<3>(3).fill(1e-4);
    dx.segment<3>(9).fill(1e-4);
    REQUIRE(A.rows() == 35 && A.cols() == 35, "size of A");
    REQUIRE(C.rows() == m.measurementSize() && C.cols() == 35, "size of C");
    if(x0.segment<3>(3).norm() < 1e-3 || xb.segment<3>(3).norm() < 1e-3L) return; // small angles: see C22
    LM J, H, F;
    LV X = LVc(x0), U = LVc(uk), U1 = LVc(uk1);
    auto blocks = [&](const Mat & got, const Vec & scale, const char * what) {
      elastic::compareJacobian(got, J, F, dx, scale, 0, 24, what);
      if(m.unmodelled) elastic::compareJacobian(got, J, F, dx, scale, unmod, bias, what);
      elastic::compareJacobian(got, J, F, dx, scale, bias, 35, what); // constant, and without effect when they are not estimated
    };
    elastic::derive([&](const LV & v) { return m.f(v, U); }, X, J, H);
    F = elastic::forward([&](const LV & v) { return m.f(v, U); }, X, dx);
    if(m.unmodelled)
      for(long i = unmod; i < bias; ++i)
      {
        REQUIRE(std::fabs(A(i, i) - 1) < 2e-3, "unmodelled wrench forgotten: " << A(i, i));
        F(i, i) = J(i, i) = A(i, i);
      }
    Vec sc = Vec(D(m.f(X, U)).cwiseAbs());
    double kin = D(m.accelerations(X, U)).cwiseAbs().maxCoeff();
    double amp = (1 + kin) * m.dt * elastic::amplification(m, x0, uk) + 1;
    sc.head(12).array() += amp;
    double K = m.pendulum ? m.Rfe.norm() + m.Rte.norm() : m.Kfe.norm() + m.Kte.norm();
    double V = m.pendulum ? m.Rfv.norm() + m.Rtv.norm() : m.Kfv.norm() + m.Ktv.norm();
    sc.segment(12, 12).array() += sc.segment(12, 12).maxCoeff() + (K * (1 + m.dt) + V) * (2 + amp);
    blocks(A, sc, "process Jacobian");
    elastic::derive([&](const LV & v) { return m.h(v, U1); }, xb, J, H);
    F = elastic::forward([&](const LV & v) { return m.h(v, U1); }, xb, dx);
    Vec sy = Vec(D(m.h(xb, U1)).cwiseAbs());
    sy.head(6).array() += 10 * D(m.accelerations(xb, U1)).cwiseAbs().maxCoeff() * elastic::amplification(m, D(xb), uk1);
    blocks(C, sy, "sensor Jacobian");
  }
  void bad()
  { // an unusable measurement leaves the previous estimate, and covariances can be used again
    if(!haveU1 || k < 1 || !on) return;
    Vec b = Vec::Zero(m.measurementSize());
    b(long(g.u(size_t(b.size() - 1)))) = NAN;
    if(!tame(x)) return;
    LV xb = m.f(LVc(x), LVc(uk));
    if(posDef(m, x, uk) < 0.05 || posDef(m, D(xb), uk1) < 0.05 || !tame(D(xb))) return;
    e.setMeasurement(b);
    CLOSE(e.getFlexibilityVector(), x, 0, "estimate after a NaN measurement");
    ++k;
    R6 = Est::getDefaultRIMU();
    custom = false;
    resetProcess();
    P = Q;
    CLOSE(e.getFlexibilityCovariance(), P, 0, "covariance after a NaN measurement");
    covariance();
    uk = uk1, haveU = true, haveU1 = false, haveY = false;
    g.label("NaN measurement");
    g.note() << "nan ";
  }
  void turn()
  {
    bool b = g.b();
    e.setOn(b);
    on = b;
    g.note() << "on" << b << ' ';
    ++changes;
  }
  void off()
  {
    if(g.b() && haveU1)
    {
      y = g.vec(m.measurementSize(), 5);
      e.setMeasurement(y);
      haveY = true;
    }
    if(g.b())
    {
      if(!haveU || e.getEKF().getInputsNumber() == 0) return;
      CLOSE(e.getMomentaDotFromForces(), Vec(Vec::Zero(6)), 0, "momentum rate although off");
      CLOSE(e.getMomentaDotFromKinematics(), Vec(Vec::Zero(6)), 0, "momentum rate although off");
      return;
    }
    x.setZero();
    CLOSE(e.getFlexibilityVector(), x, 0, "flexibility although off");
    CLOSE(e.getFlexibility(), Mat(Mat::Identity(4, 4)), 0, "flexibility although off");
    CLOSE(e.getForcesAndMoments(), Vec(Vec::Zero(6 * m.contacts)), 0, "contact wrenches although off");
    CLOSE(e.getEKF().getCurrentEstimatedState(), x, 0, "state of the filter although off");
    REQUIRE(e.getEKF().getMeasurementsNumber() == 0, "measurements kept although off");
    REQUIRE(e.getEKF().getCurrentTime() == k, "time although off");
    if(haveY)
    {
      haveY = haveU = haveU1 = false;
      P = Q;
      g.label("pending data forgotten");
    }
    CLOSE(e.getFlexibilityCovariance(), P, 0, "covariance although off");
    g.note() << "off ";
  }
};
} // namespace

FACET(history, 4000, 80000, "three estimation steps or more, with contacts and changes of configuration")
{
  Bench b(g);
  b.m.pendulum = g.p(1, 5);
  b.e.setContactModel(b.m.pendulum ? unsigned(Est::contactModel::pendulum) : unsigned(Est::contactModel::elasticContact));
  if(g.p(3, 4)) b.contacts(1 + int(g.u(1)));
  for(size_t n = g.u(6); n > 0; --n) b.configure(g.u(28));
  size_t ops = 4 + g.many(g.thorough ? 30 : 18, 80);
  bool contacts = false;
  for(size_t o = 0; o < ops; ++o)
  {
    contacts = contacts || b.m.contacts;
    size_t what = g.u(15);
    if(what < 4) b.configure(g.u(28));
    else if(what == 4) b.guess(b.state());
    else if(what == 5)
    {
      b.uk = b.input();
      b.e.setInput(b.uk);
      b.haveU = true;
      CLOSE(b.e.getInput(), b.uk, 0, "input");
      g.note() << "u ";
    }
    else if(what == 6)
    {
      if(g.p(1, 3)) b.turn();
    }
    else if(what == 7)
    {
      if(g.p(1, 3)) b.bad();
    }
    else if(!b.on)
    {
      b.off();
      if(g.p(1, 3)) b.turn();
    }
    else if(b.haveY)
    {
      if(g.p(1, 10))
      { // switched off with data waiting
        b.turn();
        if(!b.on)
        {
          b.off();
          continue;
        }
      }
      if(!b.haveU || !b.haveU1) b.giveInputs();
      if(!b.estimate()) return;
    }
    else if(!b.step()) return;
  }
  if(b.steps >= 3 && b.changes >= 2 && contacts) g.nontrivial();
  g.labelIf(b.m.pendulum, "pendulum");
  g.labelIf(b.m.contacts == 2, "two contacts");
  g.labelIf(b.m.measurementSize() > 6, "more than the IMU");
}

/// sensors and noises only: many configuration changes between few reads
FACET(sensors, 20000, 400000, "at least three changes of sensors, with force sensing or absolute pose at the end")
{
  Bench b(g);
  size_t sensors = 0;
  for(size_t n = 3 + g.u(12); n > 0; --n)
  {
    size_t w = g.pick<size_t>({0, 1, 3, 0, 1, 3, 16, 17, 18, 19, 20, 4, 2, 28, 23, 24, 26, 25});
    b.configure(w);
    if(w < 4) ++sensors;
    if(g.p(1, 6)) b.guess(b.state());
  }
  if(sensors >= 3 && b.m.measurementSize() > 6) g.nontrivial();
}
