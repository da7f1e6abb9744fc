// C01: the linear Kalman filter against a long double textbook recursion.
#include "ref.hpp"
#include <memory>
#include <state-observation/observer/linear-kalman-filter.hpp>
using namespace stateObservation;
using ref::D;
using ref::L;
using ref::LVc;

static Mat psd(Gen & g, long n, double m)
{
  switch(g.u(4))
  {
    case 0: return Mat::Zero(n, n);
    case 1: // rank deficient
    {
      Mat a = g.gmat(n, std::max(1l, n - 1), m);
      Mat r = a * a.transpose();
      return 0.5 * (r + r.transpose());
    }
    case 2:
    {
      Vec d(n);
      for(long i = 0; i < n; ++i) d(i) = g.mag(-3, 1);
      return d.asDiagonal();
    }
    default: return g.spd(n, m, 0.01);
  }
}

FACET(recursion, 200000, 1500000, "at least three steps with a generic (non diagonal, nonzero) system")
{
  long n = 1 + long(g.many(5, 15)), m = 1 + long(g.many(3, 9)), p = long(g.many(3, 9));
  bool sized = g.b();
  Relocatable<LinearKalmanFilter> fp(sized ? LinearKalmanFilter(n, m, p) : LinearKalmanFilter());
  if(!sized)
  {
    fp->setStateSize(n);
    fp->setMeasureSize(m);
    fp->setInputSize(p);
  }
  REQUIRE(fp->getStateSize() == n && fp->getMeasureSize() == m && fp->getInputSize() == p, "sizes");
  ref::Linear r;
  const double unit = g.p(1, 4) ? g.mag(-15, 15) : 1; // unit of the inputs: B and D in its inverse
  double scaleC = g.p(1, 4) ? g.mag(-2, 2) : 1;
  auto setA = [&] { Mat a = g.structured(g.gmat(n, n, 1.1 / std::sqrt(double(n)))); fp->setA(a); r.A = L(a); REQUIRE(fp->getA() == a, "getA"); };
  auto setC = [&] { Mat a = g.structured(g.mat(m, n, scaleC)); fp->setC(a); r.C = L(a); REQUIRE(fp->getC() == a, "getC"); };
  auto setQ = [&] { Mat a = psd(g, n, 0.6); if(g.b()) fp->setQ(a); else fp->setProcessCovariance(a); r.Q = L(a);
                    REQUIRE(fp->getQ() == a && fp->getProcessCovariance() == a, "getQ"); };
  auto setR = [&] { Mat a = g.spd(m, 0.6, g.mag(-2, 1)); if(g.b()) fp->setR(a); else fp->setMeasurementCovariance(a); r.R = L(a);
                    REQUIRE(fp->getR() == a && fp->getMeasurementCovariance() == a, "getR"); };
  auto setP = [&] { Mat a = psd(g, n, 1); fp->setStateCovariance(a); r.P = L(a); REQUIRE(fp->getStateCovariance() == a, "getP"); };
  auto setB = [&] {
    if(p == 0)
    {
      if(g.b()) fp->setB(fp->getBmatrixZero()); // optional without input
      return;
    }
    bool z = g.p(1, 5);
    Mat a = z ? Mat(Mat::Zero(n, p)) : g.mat(n, p, 2) / unit;
    fp->setB(a);
    r.B = a.isZero(0) ? ref::LM() : L(a);
  };
  auto setD = [&] {
    if(p == 0) return;
    switch(g.u(3))
    {
      case 0: fp->clearD(); r.Dm = ref::LM(); break;
      case 1: fp->setD(fp->getDmatrixZero()); r.Dm = ref::LM(); break;
      default:
      {
        Mat a = g.mat(m, p, 2) / unit;
        fp->setD(a);
        r.Dm = a.isZero(0) ? ref::LM() : L(a);
      }
    }
  };
  setA(), setC(), setQ(), setR(), setP(), setB(), setD();
  Vec x0 = g.vec(n, 10);
  long k = g.time(0, 20);
  fp->setState(x0, k);
  r.x = LVc(x0);
  std::map<long, Vec> u;
  auto needU = [&](long t) {
    if(p == 0) return;
    long from = u.empty() ? k : u.rbegin()->first + 1;
    for(long i = from; i <= t; ++i)
    {
      Vec v = g.vec(p, 5) * unit;
      u[i] = v;
      if(g.b()) fp->setInput(v, i);
      else fp->pushInput(v);
    }
  };
  auto U = [&](long t, ref::LV & s) -> ref::LV * {
    auto it = u.find(t);
    if(it == u.end()) return nullptr;
    s = LVc(it->second);
    return &s;
  };
  long N = 1 + long(g.many(g.thorough ? 25 : 12, 150));
  double worst = 1, maxCond = 1;
  bool stepped = false;
  for(long s = 0; s < N; ++s)
  {
    // changes between steps
    if(g.p(1, 8))
    {
      g.b() ? fp.copied() : fp.assigned();
      g.label("filter copied");
    }
    if(g.p(1, 4)) setA();
    if(g.p(1, 4)) setB();
    if(g.p(1, 4)) setC();
    if(g.p(1, 4)) setD();
    if(g.p(1, 4)) setQ();
    if(g.p(1, 4)) setR();
    if(g.p(1, 8)) setP();
    if(g.p(1, 8))
    {
      Vec x = g.vec(n, 10);
      fp->setCurrentState(x);
      r.x = LVc(x);
    }
    long burst = g.p(1, 4) ? 1 + long(g.u(3)) : 1;
    needU(k + burst);
    ref::LV a, b;
    // queries must not disturb anything
    if(g.p(1, 3)) CLOSE(fp->updateStatePrediction(), D(r.predict(U(k, a))), 1e-9, "prediction");
    if(g.p(1, 3))
      CLOSE(fp->updateStateAndMeasurementPrediction(), D(r.sensor(r.predict(U(k, a)), U(k + 1, b))), 1e-9,
            "measurement prediction");
    for(long i = 1; i <= burst; ++i)
    {
      ref::LV ua, ub;
      ref::LV xb = r.predict(U(k + i - 1, ua));
      Vec y = g.p(1, 5) ? Vec(D(r.sensor(xb, U(k + i, ub)))) : Vec(g.vec(m, 10));
      if(g.b()) fp->setMeasurement(y, k + i);
      else fp->pushMeasurement(y);
      r.step(U(k + i - 1, ua), U(k + i, ub), LVc(y));
      worst = std::max(worst, r.cond);
    }
    k += burst;
    Vec e = fp->getEstimatedState(k);
    stepped = true;
    double tol = 1e-10 * std::max(10., worst);
    CLOSE(e, D(r.x), tol, "estimate");
    CLOSE(fp->getStateCovariance(), D(r.P), tol, "covariance");
    CLOSE(fp->getInnovation(), D(r.inno), tol, "innovation");
    CLOSE(fp->getLastGain(), D(r.K), tol, "gain");
    CLOSE(fp->getLastPrediction(), D(r.xbar), tol, "last prediction");
    CLOSE(fp->getLastPredictedMeasurement(), D(r.ybar), tol, "last predicted measurement");
    if(g.p(1, 2))
    {
      CLOSE(fp->getSimulatedMeasurement(k), D(r.sensor(r.x, U(k, a))), tol, "simulated measurement");
      CLOSE(fp->getLastPredictedMeasurement(), D(r.ybar), tol, "last predicted measurement after a simulation");
      CLOSE(fp->getLastPrediction(), D(r.xbar), tol, "last prediction after a simulation");
    }
    REQUIRE(fp->getCurrentTime() == k, "time");
    CLOSE(fp->getCurrentEstimatedState(), e, 0, "current estimate");
    // go on from the filter's own values: rounding errors do not accumulate in the comparison
    r.x = LVc(e);
    r.P = L(fp->getStateCovariance());
    maxCond = std::max(maxCond, worst);
    worst = 1;
  }
  g.note() << "n=" << n << " m=" << m << " p=" << p << " steps=" << N << " cond=" << maxCond;
  g.labelIf(p == 0, "no input");
  g.labelIf(r.Dm.size(), "feedthrough");
  if(N >= 3 && stepped && n > 1) g.nontrivial();
}

FACET(gaussianConditioning, 75000, 500000, "at least two measurements of a state of dimension at least two")
{
  // the estimate is the conditional mean of the joint Gaussian of all states and measurements (no recursion involved)
  long n = 1 + long(g.u(2)), m = 1 + long(g.u(1)), N = 1 + long(g.u(3));
  Mat A = g.gmat(n, n, 0.9), C = g.gmat(m, n, 1), Q = psd(g, n, 0.6), R = g.spd(m, 0.6, 0.1), P = g.spd(n, 0.6, 0.05);
  Vec x0 = g.vec(n, 3);
  // joint: x_k = A^k x0 + sum A^(k-j) w_j
  ref::LV mean = LVc(x0);
  ref::LM S = L(P); // covariance of x_k
  std::vector<ref::LM> cross; // cov(x_now, y_j)
  ref::LM Yc = ref::LM::Zero(N * m, N * m);
  ref::LV Ym(N * m), Yv(N * m);
  ref::LM XY = ref::LM::Zero(n, N * m);
  LinearKalmanFilter f(n, m);
  f.setA(A), f.setB(f.getBmatrixZero()), f.setC(C), f.setQ(Q), f.setR(R), f.setStateCovariance(P), f.setState(x0, 0);
  for(long i = 0; i < N; ++i)
  {
    mean = L(A) * mean;
    S = (L(A) * S * L(A).transpose() + L(Q)).eval();
    XY = (L(A) * XY).eval();
    // new measurement y = C x + v
    ref::LM cxy = S * L(C).transpose();
    Yc.block(i * m, i * m, m, m) = L(C) * S * L(C).transpose() + L(R);
    if(i > 0)
    {
      ref::LM c = L(C) * XY.leftCols(i * m);
      Yc.block(i * m, 0, m, i * m) = c;
      Yc.block(0, i * m, i * m, m) = c.transpose();
    }
    XY.block(0, i * m, n, m) = cxy;
    Ym.segment(i * m, m) = L(C) * mean;
    Vec y = g.vec(m, 5);
    Yv.segment(i * m, m) = LVc(y);
    f.setMeasurement(y, i + 1);
  }
  ref::LM G = XY * Yc.fullPivLu().inverse();
  ref::LV e = mean + G * (Yv - Ym);
  ref::LM Pe = S - G * XY.transpose();
  CLOSE(f.getEstimatedState(N), D(e), 1e-8, "conditional mean");
  CLOSE(f.getStateCovariance(), D(Pe), 1e-8, "conditional covariance");
  if(n > 1 && N > 1) g.nontrivial();
  g.note() << "n=" << n << " m=" << m << " N=" << N;
}

FACET(factories, 50000, 200000, "all sizes differ")
{
  long n = 1 + long(g.u(5)), m = 1 + long(g.u(5)), p = 1 + long(g.u(5));
  LinearKalmanFilter f(n, m, p);
  double c = g.sym(5);
  g.note() << n << ' ' << m << ' ' << p;
  if(n != m && m != p && n != p) g.nontrivial();
#define MAKERS(X, ROWS, COLS)                                                                    \
  {                                                                                              \
    REQUIRE(f.get##X##matrixConstant(c) == Mat::Constant(ROWS, COLS, c), "constant " #X);        \
    REQUIRE(f.get##X##matrixZero() == Mat::Zero(ROWS, COLS), "zero " #X);                        \
    Mat rnd = f.get##X##matrixRandom();                                                          \
    REQUIRE(rnd.rows() == ROWS && rnd.cols() == COLS, "random " #X);                             \
    long a = 1 + long(g.u(5)), b = 1 + long(g.u(5));                                             \
    REQUIRE(f.check##X##matrix(Mat::Zero(a, b)) == (a == (ROWS) && b == (COLS)), "check " #X);   \
    REQUIRE(f.check##X##matrix(Mat::Zero(ROWS, COLS)), "check " #X);                             \
  }
  MAKERS(A, n, n)
  MAKERS(B, n, p)
  MAKERS(C, m, n)
  MAKERS(D, m, p)
  MAKERS(Q, n, n)
  MAKERS(R, m, m)
  MAKERS(P, n, n)
  REQUIRE(f.getAmatrixIdentity() == Mat::Identity(n, n) && f.getQmatrixIdentity() == Mat::Identity(n, n)
              && f.getRmatrixIdentity() == Mat::Identity(m, m) && f.getPmatrixIdentity() == Mat::Identity(n, n),
          "identity");
  REQUIRE(f.stateVectorConstant(c) == Vec::Constant(n, c) && f.measureVectorConstant(c) == Vec::Constant(m, c)
              && f.inputVectorConstant(c) == Vec::Constant(p, c),
          "constant vectors");
  REQUIRE(f.stateVectorZero() == Vec::Zero(n) && f.measureVectorZero() == Vec::Zero(m) && f.inputVectorZero() == Vec::Zero(p),
          "zero vectors");
  long a = 1 + long(g.u(5));
  REQUIRE(f.checkStateVector(Vec::Zero(a)) == (a == n) && f.checkMeasureVector(Vec::Zero(a)) == (a == m)
              && f.checkInputVector(Vec::Zero(a)) == (a == p),
          "vector checks");
  REQUIRE(f.stateVectorRandom().size() == n && f.measureVectorRandom().size() == m && f.inputVectorRandom().size() == p, "random vectors");
  REQUIRE(f.stateTangentVectorConstant(c) == Vec::Constant(n, c) && f.measureTangentVectorConstant(c) == Vec::Constant(m, c)
              && f.stateTangentVectorZero() == Vec::Zero(n) && f.measureTangentVectorZero() == Vec::Zero(m)
              && f.stateTangentVectorRandom().size() == n && f.measureTangentVectorRandom().size() == m
              && f.checkStateTangentVector(Vec::Zero(a)) == (a == n) && f.checkMeasureTangentVector(Vec::Zero(a)) == (a == m),
          "tangent vectors of a linear filter are plain vectors");
  // what was set is what is read, until it is cleared
  Mat A = g.mat(n, n, 2), C = g.mat(m, n, 2), Q = g.mat(n, n, 2), R = g.mat(m, m, 2), P = g.mat(n, n, 2);
  f.setA(A);
  f.setC(C);
  f.setQ(Q);
  f.setR(R);
  f.setStateCovariance(P);
  REQUIRE(f.getA() == A && f.getC() == C && f.getQ() == Q && f.getR() == R && f.getStateCovariance() == P
              && f.getProcessCovariance() == Q && f.getMeasurementCovariance() == R,
          "matrix read is not the one set");
  switch(g.u(8))
  {
    case 6: // another size and back: what depended on it is forgotten, the rest is kept
      f.setStateSize(n + 1 + long(g.u(2)));
      f.setStateSize(n);
      REQUIRE(!f.checkAmatrix(f.getA()) && !f.checkCmatrix(f.getC()) && !f.checkQmatrix(f.getQ())
                  && !f.checkPmatrix(f.getStateCovariance()) && f.getR() == R,
              "matrices after changes of the size of the state");
      break;
    case 7:
      f.setMeasureSize(m + 1 + long(g.u(2)));
      f.setMeasureSize(m);
      REQUIRE(f.getA() == A && !f.checkCmatrix(f.getC()) && f.getQ() == Q && f.getStateCovariance() == P && !f.checkRmatrix(f.getR()),
              "matrices after changes of the size of the measurements");
      break;
    case 8:
      f.setInputSize(p + 1);
      f.setStateSize(n);
      f.setMeasureSize(m);
      REQUIRE(f.getA() == A && f.getC() == C && f.getQ() == Q && f.getStateCovariance() == P && f.getR() == R,
              "matrices after a change of the size of the inputs");
      break;
    case 0:
      f.clearA();
      REQUIRE(!f.checkAmatrix(f.getA()), "A still there");
      break;
    case 1:
      f.clearC();
      REQUIRE(!f.checkCmatrix(f.getC()), "C still there");
      break;
    case 2:
      f.clearQ();
      REQUIRE(!f.checkQmatrix(f.getQ()), "Q still there");
      break;
    case 3:
      f.clearR();
      REQUIRE(!f.checkRmatrix(f.getR()), "R still there");
      break;
    case 4:
      f.clearStates();
      REQUIRE(!f.checkPmatrix(f.getStateCovariance()) && !f.stateIsSet(), "covariance still there");
      break;
    default:
      f.reset();
      REQUIRE(!f.checkPmatrix(f.getStateCovariance()), "covariance still there");
  }
}

FACET(resize, 40000, 200000, "a used filter is given other sizes and used again")
{
  // a filter that is given new sizes (also back and forth) behaves like a new one of these sizes
  long n = 1 + long(g.u(3)), m = 1 + long(g.u(3)), p = 1 + long(g.u(2));
  LinearKalmanFilter f(n, m, p);
  auto use = [&](bool give) {
    ref::Linear r;
    Mat A = g.gmat(n, n, 1.1 / std::sqrt(double(n))), B = g.mat(n, p, 2), C = g.mat(m, n, 2), Dm = g.mat(m, p, 2);
    Mat Q = psd(g, n, 0.6), R = g.spd(m, 0.6, 0.3), P = g.spd(n, 1, 0.1);
    f.setA(A), f.setB(B), f.setC(C), f.setQ(Q), f.setR(R), f.setStateCovariance(P);
    r.A = L(A), r.B = L(B), r.C = L(C), r.Q = L(Q), r.R = L(R), r.P = L(P);
    if(give || g.b()) f.setD(Dm), r.Dm = L(Dm);
    long k = g.time(0, 5);
    Vec x = g.vec(n, 5);
    f.setState(x, k);
    r.x = LVc(x);
    long N = 1 + long(g.u(3));
    std::vector<Vec> u;
    for(long i = 0; i <= N; ++i) u.push_back(g.vec(p, 5)), f.setInput(u.back(), k + i);
    for(long i = 1; i <= N; ++i)
    {
      Vec y = g.vec(m, 5);
      f.setMeasurement(y, k + i);
      ref::LV a = LVc(u[size_t(i - 1)]), b = LVc(u[size_t(i)]);
      r.step(&a, &b, LVc(y));
      double tol = 1e-10 * std::max(10., r.cond);
      CLOSE(f.getEstimatedState(k + i), D(r.x), tol, "estimate");
      CLOSE(f.getLastPredictedMeasurement(), D(r.ybar), tol, "predicted measurement");
      CLOSE(f.getStateCovariance(), D(r.P), tol, "covariance");
      r.x = LVc(f.getCurrentEstimatedState()), r.P = L(f.getStateCovariance());
    }
  };
  use(g.p(3, 4));
  f.reset();
  int rounds = 1 + int(g.u(2));
  for(int i = 0; i < rounds; ++i)
  {
    bool dropsD = false;
    int hops = 1 + int(g.u(2));
    for(int h = 0; h < hops; ++h)
    {
      long n2 = 1 + long(g.u(3)), m2 = 1 + long(g.u(3)), p2 = 1 + long(g.u(2));
      switch(g.u(2))
      {
        case 0:
          f.setStateSize(n2);
          if(g.b()) f.setStateSize(n2 + 1), f.setStateSize(n2);
          n = n2;
          break;
        case 1:
          f.setMeasureSize(m2);
          if(m2 != m) dropsD = true;
          if(g.b()) f.setMeasureSize(m2 + 1), f.setMeasureSize(m2), dropsD = true;
          m = m2;
          break;
        default:
          f.setInputSize(p2);
          if(p2 != p) dropsD = true;
          if(g.b()) f.setInputSize(p2 + 1), f.setInputSize(p2), dropsD = true;
          p = p2;
      }
    }
    REQUIRE(f.getStateSize() == n && f.getMeasureSize() == m && f.getInputSize() == p, "sizes");
    g.labelIf(dropsD, "feedthrough dropped");
    use(!dropsD);
    f.reset();
  }
  g.note() << "n=" << n << " m=" << m << " p=" << p << " rounds=" << rounds;
  g.nontrivial();
}
