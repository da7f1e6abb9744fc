// C03: the extended Kalman filter against a reference EKF over generated manifold models and histories.
#include "models.hpp"
#include <map>
#include <memory>
#include <state-observation/observer/extended-kalman-filter.hpp>
using namespace stateObservation;
using models::Functor;
using models::Manifold;
using ref::D;
using ref::L;
using ref::LVc;

FACET(history, 240000, 1500000, "at least three estimation steps and two overrides or queries between them")
{
  bool flat = g.p(1, 3);
  Manifold sm = models::manifold(g, 4, flat), mm = models::manifold(g, 3, flat || g.b());
  long n = sm.size(), nt = sm.tangent(), m = mm.size(), mt = mm.tangent(), p = long(g.u(2));
  bool uState = p && g.b(), uOut = p && g.b();
  models::Arithmetics ar;
  ar.s = sm, ar.m = mm;
  auto make = [&] {
    if(flat && p == 0 && g.b()) return ExtendedKalmanFilter(n, m);
    if(flat && g.b()) return ExtendedKalmanFilter(n, m, p, uOut, uState);
    return ExtendedKalmanFilter(n, nt, m, mt, p, uOut, uState);
  };
  Relocatable<ExtendedKalmanFilter> fp(make());
  if(!flat || g.b()) fp->setStateArithmetics(&ar);
  std::vector<std::unique_ptr<Functor>> fs;
  for(int i = 0; i < 2; ++i) fs.emplace_back(new Functor(g, sm, mm, p));
  size_t cur = 0;
  // models may read the input they are given even when no feedthrough is declared: they get none (zero) in the process
  // and the stored one, if any, in the sensor
  const bool reads = g.b();
  auto flags = [&] {
    for(auto & q : fs) q->uState = uState || reads, q->uOut = uOut || reads;
  };
  flags();
  fp->setFunctor(fs[0].get());
  REQUIRE(fp->getFunctor() == fs[0].get() && fp->functor() == fs[0].get(), "functor");
  Mat A, C, Q, R, P;
  auto setA = [&] { A = g.structured(g.gmat(nt, nt, 0.7)); fp->setA(A); };
  auto setC = [&] { C = g.structured(g.gmat(mt, nt, 0.7)); fp->setC(C); };
  auto setQ = [&] { Q = g.spd(nt, 0.4, 0.01); fp->setQ(Q); };
  auto setR = [&] { R = g.spd(mt, 0.4, 0.1); fp->setR(R); };
  auto setP = [&] { P = g.spd(nt, 0.4, 0.01); fp->setStateCovariance(P); };
  setA(), setC(), setQ(), setR(), setP();
  long k = g.time(-2, 30);
  Vec x = sm.point(g, 2);
  fp->setState(x, k);
  std::map<long, Vec> u, y;
  auto U = [&](long t) -> const Vec * {
    auto it = u.find(t);
    return it == u.end() ? nullptr : &it->second;
  };
  auto needU = [&](long t) { // inputs k..t; the last one is only necessary with feedthrough to the output
    if(!p) return;
    if(!uOut && g.b()) --t;
    for(long i = u.empty() ? k : u.rbegin()->first + 1; i <= t; ++i)
    {
      u[i] = g.gvec(p, 2);
      if(g.b()) fp->setInput(u[i], i);
      else fp->pushInput(u[i]);
    }
  };
  auto predict = [&] { return fs[cur]->f(x, uState ? U(k) : nullptr, k); };
  auto sensor = [&](const Vec & s, long t) { return fs[cur]->h(s, U(t), t); };
  long steps = 0, between = 0;
  double tol = 1e-9;
  size_t ops = 4 + g.many(g.thorough ? 40 : 22, 200);
  for(size_t o = 0; o < ops; ++o)
  {
    if(g.p(1, 20))
    {
      if(g.b()) fp.copied();
      else fp.assigned(1, 2);
      g.label("filter copied");
    }
    switch(g.u(17))
    {
      case 0:
        needU(k + 1);
        CLOSE(fp->updateStatePrediction(), predict(), tol, "state prediction");
        CLOSE(fp->getLastPrediction(), predict(), tol, "last prediction");
        g.note() << "pred ";
        ++between;
        break;
      case 1:
        needU(k + 1);
        CLOSE(fp->updateStateAndMeasurementPrediction(), sensor(predict(), k + 1), tol, "measurement prediction");
        CLOSE(fp->getLastPredictedMeasurement(), sensor(predict(), k + 1), tol, "last predicted measurement");
        CLOSE(fp->getLastPrediction(), predict(), tol, "last prediction");
        g.note() << "predY ";
        ++between;
        break;
      case 2:
        x = sm.point(g, 2);
        fp->setCurrentState(x);
        g.note() << "setCurrent ";
        ++between;
        break;
      case 3:
      {
        x = sm.point(g, 2);
        long nk = k + (g.b() ? 0 : g.i(-2, 2));
        fp->setState(x, nk);
        if(nk < k) u.clear(), y.clear();
        k = nk;
        u.erase(u.begin(), u.lower_bound(k));
        y.erase(y.begin(), y.upper_bound(k));
        if(!u.empty() && u.begin()->first > k) fp->clearInputs(), u.clear();
        g.note() << "setState ";
        ++between;
        break;
      }
      case 4:
        if(p && !u.empty())
        {
          long t = u.begin()->first + long(g.u(u.size() - 1));
          u[t] = g.gvec(p, 2);
          fp->setInput(u[t], t);
          g.note() << "reinput" << t - k << ' ';
          ++between;
        }
        break;
      case 5:
        cur = 1 - cur;
        fp->setFunctor(fs[cur].get());
        g.note() << "functor ";
        ++between;
        break;
      case 6:
        fs[cur]->regenerate(g);
        g.note() << "mutate ";
        ++between;
        break;
      case 7:
        if(p)
        {
          uState = g.b();
          uOut = g.b();
          flags();
          fp->setDirectInputStateFeedthrough(uState);
          fp->setDirectInputOutputFeedthrough(uOut);
          g.note() << "feed" << uState << uOut << ' ';
        }
        break;
      case 8:
        switch(g.u(4))
        {
          case 0: setA(); break;
          case 1: setC(); break;
          case 2: setQ(); break;
          case 3: setR(); break;
          default: setP();
        }
        break;
      case 9:
        if(g.p(1, 3))
        {
          int before = fs[cur]->resets;
          fp->reset();
          REQUIRE(fs[cur]->resets > before, "the functor is not reset");
          REQUIRE(!fp->stateIsSet(), "state still set after reset");
          u.clear();
          y.clear();
          x = sm.point(g, 2);
          k = g.b() ? k : g.time(-2, 30);
          fp->setState(x, k);
          setP();
          g.note() << "reset ";
          ++between;
        }
        break;
      case 10:
        needU(k);
        CLOSE(fp->getSimulatedMeasurement(k), sensor(x, k), tol, "simulated measurement");
        REQUIRE(fp->getCurrentTime() == k, "time");
        g.note() << "simY ";
        ++between;
        break;
      case 11:
        if(p && g.p(1, 2))
        {
          fp->clearInputs();
          u.clear();
          g.note() << "clearU ";
        }
        break;
      case 12: // finite differences leave everything as it is
      {
        needU(k + 1);
        Vec dx = Vec::Constant(nt, 1e-6);
        if(g.b()) fp->getAMatrixFD(dx);
        if(g.b()) fp->getCMatrixFD(dx);
        REQUIRE(fp->getCurrentEstimatedState() == x, "finite differences changed the state");
        REQUIRE(fp->getA() == A && fp->getC() == C, "finite differences changed the matrices");
        g.note() << "FD ";
        ++between;
        break;
      }
      default:
      {
        long burst = g.p(1, 4) ? 2 : 1;
        // the measurement is chosen around the prediction (differences on manifolds are local)
        Vec X = x;
        ref::LM Pl = L(P);
        long kk = k;
        needU(k + burst);
        double cond = 1;
        Vec xbar, ybar;
        ref::Update up;
        for(long i = 0; i < burst; ++i)
        {
          xbar = fs[cur]->f(X, uState ? U(kk) : nullptr, kk);
          ybar = sensor(xbar, kk + 1);
          Vec d = g.vec(mt, 0.5);
          Vec yy = mm.sum(ybar, d);
          if(g.b()) fp->setMeasurement(yy, kk + 1);
          else fp->pushMeasurement(yy);
          up = ref::update(L(A), L(C), L(Q), L(R), Pl, LVc(mm.diff(yy, ybar)));
          X = sm.sum(xbar, D(up.dx));
          Pl = up.P;
          cond = std::max(cond, up.condS);
          ++kk;
        }
        double t = 1e-10 * std::max(10., cond);
        Vec e;
        if(g.b()) e = fp->getEstimatedState(kk);
        else
        {
          REQUIRE(fp->estimateState() == kk, "time after estimateState");
          e = fp->getCurrentEstimatedState();
        }
        CLOSE(e, X, t, "estimate");
        CLOSE(fp->getStateCovariance(), D(Pl), t, "covariance");
        CLOSE(fp->getInnovation(), D(up.dx), t, "innovation");
        CLOSE(fp->getLastGain(), D(up.K), t, "gain");
        CLOSE(fp->getLastPrediction(), xbar, t, "last prediction");
        CLOSE(fp->getLastPredictedMeasurement(), ybar, t, "last predicted measurement");
        x = e;
        P = fp->getStateCovariance();
        k = kk;
        REQUIRE(fp->getCurrentTime() == k, "time");
        u.erase(u.begin(), u.lower_bound(k));
        // the measurement at the current time is still held; a new history starts after it
        ++steps;
        g.note() << "step" << burst << ' ';
      }
    }
    if(fp->stateIsSet()) CLOSE(fp->getCurrentEstimatedState(), x, 0, "current state");
  }
  if(steps >= 3 && between >= 2) g.nontrivial();
  g.labelIf(!flat, "manifold");
  g.labelIf(uState, "input to state");
  g.labelIf(uOut, "input to output");
}

FACET(linearAgreement, 60000, 300000, "at least two steps")
{
  // on a linear model with its matrices as Jacobians, the estimate does not depend on the class used: compare with the
  // closed recursion
  long n = 1 + long(g.u(3)), m = 1 + long(g.u(2)), N = 1 + long(g.u(6));
  struct Lin : DynamicalSystemFunctorBase
  {
    Mat A, C;
    Vec stateDynamics(const Vec & x, const Vec &, TimeIndex) override { return A * x; }
    Vec measureDynamics(const Vec & x, const Vec &, TimeIndex) override { return C * x; }
    Index getStateSize() const override { return A.rows(); }
    Index getInputSize() const override { return 0; }
    Index getMeasurementSize() const override { return C.rows(); }
  } lin;
  lin.A = g.gmat(n, n, 0.9);
  lin.C = g.gmat(m, n, 1);
  ExtendedKalmanFilter f(n, m);
  f.setFunctor(&lin);
  ref::Linear r;
  Mat Q = g.spd(n, 0.5, 0.01), R = g.spd(m, 0.5, 0.1), P = g.spd(n, 0.5, 0.01);
  Vec x = g.vec(n, 4);
  f.setQ(Q), f.setR(R), f.setStateCovariance(P), f.setState(x, 0), f.setA(lin.A), f.setC(lin.C);
  r.A = L(lin.A), r.C = L(lin.C), r.Q = L(Q), r.R = L(R), r.P = L(P), r.x = LVc(x);
  for(long i = 1; i <= N; ++i)
  {
    Vec y = g.vec(m, 5);
    f.setMeasurement(y, i);
    r.step(nullptr, nullptr, LVc(y));
    CLOSE(f.getEstimatedState(i), D(r.x), 1e-7, "estimate");
    CLOSE(f.getStateCovariance(), D(r.P), 1e-7, "covariance");
  }
  if(N > 1) g.nontrivial();
}

FACET(tangentSizes, 48000, 192000, "state and measurement sizes differ from their tangent sizes")
{ // the sizes of everything expressed in the tangent spaces
  long n = 1 + long(g.u(5)), nt = 1 + long(g.u(5)), m = 1 + long(g.u(5)), mt = 1 + long(g.u(5)), p = long(g.u(3)), a = 1 + long(g.u(5)),
       b = 1 + long(g.u(5));
#define TANGENT(X, ROWS, COLS)                                                                                       \
  REQUIRE(f.get##X##matrixZero() == Mat::Zero(ROWS, COLS) && f.get##X##matrixConstant(c) == Mat::Constant(ROWS, COLS, c) \
              && f.check##X##matrix(Mat::Zero(a, b)) == (a == (ROWS) && b == (COLS)) && f.check##X##matrix(Mat::Zero(ROWS, COLS)), \
          "matrix " #X);
  if(n != nt && m != mt) g.nontrivial();
  ExtendedKalmanFilter f(n, nt, m, mt, p, false, false);
  auto check = [&] {
    double c = g.sym(5);
    REQUIRE(f.getStateSize() == n && f.getMeasureSize() == m && f.getInputSize() == p, "sizes");
    REQUIRE(f.stateVectorZero() == Vec::Zero(n) && f.measureVectorZero() == Vec::Zero(m) && f.stateVectorConstant(c) == Vec::Constant(n, c)
                && f.measureVectorConstant(c) == Vec::Constant(m, c),
            "vectors");
    REQUIRE(f.stateTangentVectorZero() == Vec::Zero(nt) && f.measureTangentVectorZero() == Vec::Zero(mt)
                && f.stateTangentVectorConstant(c) == Vec::Constant(nt, c) && f.measureTangentVectorConstant(c) == Vec::Constant(mt, c)
                && f.stateTangentVectorRandom().size() == nt && f.measureTangentVectorRandom().size() == mt,
            "tangent vectors");
    REQUIRE(f.checkStateVector(Vec::Zero(a)) == (a == n) && f.checkMeasureVector(Vec::Zero(a)) == (a == m)
                && f.checkStateTangentVector(Vec::Zero(a)) == (a == nt) && f.checkMeasureTangentVector(Vec::Zero(a)) == (a == mt),
            "recognition of vectors");
    TANGENT(A, nt, nt)
    TANGENT(C, mt, nt)
    TANGENT(Q, nt, nt)
    TANGENT(R, mt, mt)
    TANGENT(P, nt, nt)
  };
  check();
  for(size_t changes = g.u(3); changes > 0; --changes)
  { // either size alone, or both; what is expressed with them is forgotten, the rest is kept
    Mat A = g.mat(nt, nt, 1), C = g.mat(mt, nt, 1), Q = g.mat(nt, nt, 1), R = g.mat(mt, mt, 1), P = g.mat(nt, nt, 1);
    f.setA(A), f.setC(C), f.setQ(Q), f.setR(R), f.setStateCovariance(P);
    const bool state = g.b(), other = g.b();
    long & size = state ? n : m;
    long & tan = state ? nt : mt;
    const long s0 = size, t0 = tan;
    if(other) size = 1 + long(g.u(5));
    if(!other || g.b()) tan = 1 + long(g.u(5));
    const bool one = size == tan && g.b();
    if(state && one) f.setStateSize(size);
    else if(state) f.setStateSize(size, tan);
    else if(one) f.setMeasureSize(size);
    else f.setMeasureSize(size, tan);
    check();
    const bool same = size == s0 && tan == t0;
    auto is = [](const Mat & x, const Mat & y) { return x.rows() == y.rows() && x.cols() == y.cols() && x == y; };
    REQUIRE(is(f.getA(), A) == (same || !state) && is(f.getQ(), Q) == (same || !state) && is(f.getStateCovariance(), P) == (same || !state)
                && is(f.getC(), C) == same && is(f.getR(), R) == (same || state),
            "matrices after a change of sizes");
    if(!same && g.b())
    { // and back
      if(state) f.setStateSize(s0, t0);
      else f.setMeasureSize(s0, t0);
      size = s0, tan = t0;
      check();
      if(state)
        REQUIRE(!f.checkAmatrix(f.getA()) && !f.checkQmatrix(f.getQ()) && !f.checkPmatrix(f.getStateCovariance()), "matrices kept");
      else
        REQUIRE(!f.checkRmatrix(f.getR()), "matrices kept");
      REQUIRE(!f.checkCmatrix(f.getC()), "matrix kept");
    }
  }
}
