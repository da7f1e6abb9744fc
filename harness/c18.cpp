// C18: system models of IMUs, fixed-contact flexibilities and the elastic pendulum.
#include "rot.hpp"
#include <functional>
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
using namespace stateObservation;

static const V3 gravity(0, 0, 9.8), field(0, 28, -33.7);

namespace
{
struct Counter : NoiseBase
{
  int calls = 0;
  Vec d, last;
  Vector getNoisy(const Vector & v) override
  {
    ++calls;
    last = v;
    return v + double(calls) * d.head(v.size());
  }
};

/// state of 18 (rotation vector) or 19 (quaternion) components, written out
struct State
{
  V3 p, v, a, w, wd;
  M3 R;
  V3 ov; // rotation vector as stored
};
State read18(const Vec & x)
{
  State s;
  s.p = x.segment<3>(0);
  s.ov = x.segment<3>(3);
  s.R = pbt::expm(s.ov);
  s.v = x.segment<3>(6);
  s.w = x.segment<3>(9);
  s.a = x.segment<3>(12);
  s.wd = x.segment<3>(15);
  return s;
}
State read19(const Vec & x)
{
  State s;
  s.p = x.segment<3>(0);
  s.R = rot::ofQuat(rot::Q(x(6), x(3), x(4), x(5)));
  s.v = x.segment<3>(7);
  s.w = x.segment<3>(10);
  s.a = x.segment<3>(13);
  s.wd = x.segment<3>(16);
  return s;
}
V3 rotationVector(Gen & g)
{
  switch(g.u(5))
  {
    case 0: return V3::Zero();
    case 1: return g.axis() * g.mag(-10, -3);
    case 2: return g.axis() * (2 * M_PI * double(g.i(0, 2)) + g.angle()); // beyond a turn
    default: return g.axis() * g.angle();
  }
}
Vec state18(Gen & g)
{
  Vec x(18);
  x << g.v3(10), rotationVector(g), g.v3(5), g.v3(5), g.v3(20), g.v3(20);
  return x;
}
Vec state19(Gen & g)
{
  Vec x(19);
  x << g.v3(10), rot::toQuat(rot::anyRotation(g), g.b()).coeffs(), g.v3(5), g.v3(5), g.v3(20), g.v3(20);
  return x;
}
double period(Gen & g) { return g.p(1, 6) ? g.real(0.2, 1) : g.mag(-4, -0.7); }
/// constant acceleration motion over dt
void move(State & s, double dt)
{
  s.p += s.v * dt + 0.5 * dt * dt * s.a;
  s.R = pbt::expm(s.w * dt + 0.5 * dt * dt * s.wd) * s.R;
  s.v += s.a * dt;
  s.w += s.wd * dt;
}
void compare(const State & got, const State & want, const char * what)
{
  std::string w = what;
  CLOSE(got.p, want.p, 1e-10, (w + " position").c_str());
  CLOSE(got.R, want.R, 1e-9, (w + " orientation").c_str());
  CLOSE(got.v, want.v, 1e-10, (w + " velocity").c_str());
  CLOSE(got.w, want.w, 1e-10, (w + " angular velocity").c_str());
  CLOSE(got.a, want.a, 1e-10, (w + " acceleration").c_str());
  CLOSE(got.wd, want.wd, 1e-10, (w + " angular acceleration").c_str());
}
/// IMU in pose R with acceleration a and angular velocity w (world frame)
Vec imu(const M3 & R, const V3 & a, const V3 & w, bool mag)
{
  Vec y(mag ? 9 : 6);
  y.head<3>() = R.transpose() * (a + gravity);
  y.segment<3>(3) = R.transpose() * w;
  if(mag) y.tail<3>() = R.transpose() * field;
  return y;
}
/// Drives one functor through a history of predictions, measurements and noise changes.
struct Run
{
  Gen & g;
  DynamicalSystemFunctorBase & f;
  std::function<Vec(Gen &)> state, input;
  std::function<State(const Vec &)> read;
  std::function<State(const State &, const Vec &, double)> step;
  std::function<Vec(const State &, const Vec &)> sensor;
  std::function<void(double)> period;
  std::function<void()> configure;
  std::function<void(NoiseBase *)> processNoise, measurementNoise;
  Index stateSize, inputSize, noisySize;
  double dt;
  void go()
  {
    Counter pn, mn;
    pn.d = g.gvec(20, 1e-3);
    mn.d = g.gvec(30, 1);
    Counter *p = nullptr, *m = nullptr;
    size_t preds = 0, meas = 0;
    Vec x = state(g);
    for(size_t n = 2 + g.u(8); n > 0; --n)
    {
      if(g.p(1, 4))
      {
        dt = ::period(g);
        period(dt);
      }
      if(configure && g.p(1, 3)) configure();
      if(g.p(1, 8))
      {
        p = g.b() ? &pn : nullptr;
        processNoise(p);
      }
      if(g.p(1, 8))
      {
        m = g.b() ? &mn : nullptr;
        measurementNoise(m);
      }
      REQUIRE(f.getStateSize() == stateSize, "state size");
      REQUIRE(f.getInputSize() == inputSize, "input size");
      if(g.p(2, 3)) x = state(g);
      Vec u = input(g), u0 = u, x0 = x;
      TimeIndex k = g.time(0, 20);
      State s = read(x);
      if(g.b())
      {
        ++preds;
        Vec r = f.stateDynamics(x, u, k);
        if(p)
        {
          g.label("process noise");
          REQUIRE(r.size() == stateSize && p->last.size() == stateSize, "noisy state size");
          CLOSE(r, Vec(p->last + double(p->calls) * p->d.head(stateSize)), 1e-12, "noisy state");
          r = p->last;
        }
        REQUIRE(r.size() == stateSize, "predicted size");
        compare(read(r), step(s, u, dt), "predicted");
        if(g.b()) x = r; // chain
      }
      else
      {
        ++meas;
        Vec y = f.measureDynamics(x, u, k), want = sensor(s, u);
        REQUIRE(y.size() == want.size() && f.getMeasurementSize() == want.size(),
                "measurement size " << y.size() << " declared " << f.getMeasurementSize());
        if(m)
        {
          g.label("measurement noise");
          want.head(noisySize) += double(m->calls) * m->d.head(noisySize);
        }
        CLOSE(y, want, 1e-9, "predicted measurement");
      }
      REQUIRE(u == u0, "input changed");
    }
    if(preds && meas) g.nontrivial();
  }
};
} // namespace

template<class F>
static Run plain(Gen & g, F & f)
{
  Run r{g, f};
  r.dt = 1;
  r.period = [&f](double d) { f.setSamplingPeriod(d); };
  r.processNoise = [&f](NoiseBase * n) {
    n ? f.setProcessNoise(n) : f.resetProcessNoise();
    REQUIRE(f.getProcessNoise() == n, "process noise");
  };
  r.measurementNoise = [&f](NoiseBase * n) {
    n ? f.setMeasurementNoise(n) : f.resetMeasurementNoise();
    REQUIRE(f.getMeasurementNoise() == n, "measurement noise");
  };
  r.state = state18;
  r.read = read18;
  r.stateSize = 18;
  return r;
}

FACET(imu, 160000, 640000, "a prediction and a measurement")
{
  IMUDynamicalSystem f;
  Run r = plain(g, f);
  r.inputSize = 6;
  r.noisySize = 6;
  r.input = [](Gen & g) { return g.vec(6, 20); };
  r.step = [](State s, const Vec & u, double dt) {
    move(s, dt);
    s.a = u.head<3>();
    s.wd = u.tail<3>();
    return s;
  };
  r.sensor = [](const State & s, const Vec &) { return imu(s.R, s.a, s.w, false); };
  r.go();
}
FACET(imu_magnetometer, 160000, 640000, "a prediction and a measurement")
{
  IMUMagnetometerDynamicalSystem f;
  Run r = plain(g, f);
  r.inputSize = 0;
  r.noisySize = 9;
  r.input = [](Gen & g) { return g.vec(0, 20); };
  r.step = [](State s, const Vec &, double dt) {
    move(s, dt);
    s.a.setZero();
    s.wd.setZero();
    return s;
  };
  r.sensor = [](const State & s, const Vec &) { return imu(s.R, s.a, s.w, true); };
  r.go();
}
FACET(imu_multiplicative, 160000, 640000, "a prediction and a measurement")
{
  IMUMltpctiveDynamicalSystem f;
  Run r = plain(g, f);
  r.stateSize = 19;
  r.inputSize = 6;
  r.noisySize = 6;
  r.state = state19;
  r.read = [](const Vec & x) {
    REQUIRE(std::fabs(x.segment<4>(3).norm() - 1) < 1e-6, "quaternion norm " << x.segment<4>(3).norm());
    return read19(x);
  };
  r.input = [](Gen & g) { return g.vec(6, 20); };
  r.step = [](State s, const Vec & u, double dt) {
    move(s, dt);
    s.a = u.head<3>();
    s.wd = u.tail<3>();
    return s;
  };
  r.sensor = [](const State & s, const Vec &) { return imu(s.R, s.a, s.w, false); };
  r.go();
}
/// quaternions stay unit when the model is iterated, whatever the rounding or the normalisation of the first one
FACET(multiplicative_norm, 12000, 48000, "rotating over at least 50 steps")
{
  IMUMltpctiveDynamicalSystem f;
  double dt = period(g);
  f.setSamplingPeriod(dt);
  Vec x = state19(g), u(6);
  State s = read19(x);
  if(g.b()) x.segment<4>(3) *= 1 + g.real(-0.2, 0.2); // not normalised: the same rotation is meant
  u << g.v3(1), g.v3(1);
  size_t n = 1 + g.u(150);
  if(n > 50 && s.w.norm() > 0.1) g.nontrivial();
  for(size_t k = 0; k < n; ++k)
  {
    x = f.stateDynamics(x, u, TimeIndex(k));
    move(s, dt);
    s.a = u.head<3>();
    s.wd = u.tail<3>();
    REQUIRE(std::fabs(x.segment<4>(3).norm() - 1) < 2e-6, "quaternion norm " << x.segment<4>(3).norm());
    State r = read19(x);
    r.R = rot::ofQuat(rot::Q(x(6), x(3), x(4), x(5)).normalized());
    CLOSE(r.R, s.R, 1e-7, "orientation");
    if(r.w.norm() * dt > 50) break; // many turns per step: rounding of the angle dominates
  }
}
FACET(multiplicative_manifold, 240000, 1000000, "rotated state and increment with an angle above 0.01")
{
  IMUMltpctiveDynamicalSystem f;
  Vec a = state19(g), b = state19(g), d(18);
  d << g.v3(10), V3(g.axis() * g.angle()), g.v3(5), g.v3(5), g.v3(20), g.v3(20);
  if(pbt::logm(read19(a).R).norm() > 0.01 && d.segment<3>(3).norm() > 0.01) g.nontrivial();
  StateVectorArithmetics & ar = f;
  Vector s, e;
  ar.stateSum(a, d, s);
  REQUIRE(s.size() == 19, "size of the sum");
  State sa = read19(a), ss = read19(s);
  CLOSE(ss.p, V3(sa.p + d.segment<3>(0)), 1e-12, "sum position");
  CLOSE(ss.R, M3(pbt::expm(d.segment<3>(3)) * sa.R), 1e-9, "sum orientation");
  CLOSE(ss.v, V3(sa.v + d.segment<3>(6)), 1e-12, "sum velocity");
  CLOSE(ss.w, V3(sa.w + d.segment<3>(9)), 1e-12, "sum angular velocity");
  CLOSE(ss.a, V3(sa.a + d.segment<3>(12)), 1e-12, "sum acceleration");
  CLOSE(ss.wd, V3(sa.wd + d.segment<3>(15)), 1e-12, "sum angular acceleration");
  ar.stateDifference(s, a, e);
  REQUIRE(e.size() == 18, "size of the difference");
  // an increment of half a turn has two logarithms
  if(d.segment<3>(3).norm() < M_PI - 1e-3)
    CLOSE(e, d, 1e-7, "difference undoes sum");
  else
  {
    CLOSE(pbt::expm(e.segment<3>(3)), pbt::expm(d.segment<3>(3)), 1e-7, "difference undoes sum (orientation)");
    e.segment<3>(3) = d.segment<3>(3);
    CLOSE(e, d, 1e-9, "difference undoes sum (rest)");
  }
  ar.stateDifference(b, a, e);
  REQUIRE(e.segment<3>(3).norm() < M_PI + 1e-6, "difference takes the long way round: " << e.segment<3>(3).norm());
  ar.stateSum(a, e, s);
  State sb = read19(b), sc = read19(s);
  compare(sc, sb, "sum of the difference");
}
/// Jacobians of the multiplicative model: derivatives along tangent directions, computed with the harness' own model
FACET(multiplicative_jacobians, 80000, 320000, "rotating state")
{
  IMUMltpctiveDynamicalSystem f;
  const double h = 1e-5;
  for(size_t rep = 1 + g.u(1); rep > 0; --rep)
  {
    double dt = 1;
    if(g.p(4, 5)) f.setSamplingPeriod(dt = period(g));
    else if(rep == 1) f.setSamplingPeriod(1);
    Vec x = state19(g);
    if(rep > 1)
    { // earlier linearisations leave nothing behind
      f.getAMatrix(x);
      f.getCMatrix(x);
      continue;
    }
    if(g.p(1, 5)) x.segment<3>(10).setZero();
    if(g.p(1, 5)) x.segment<3>(16).setZero();
    State s = read19(x);
    V3 turn = s.w * dt + 0.5 * dt * dt * s.wd;
    if(turn.norm() > 6) return; // several turns in one step
    if(turn.norm() > 0.01) g.nontrivial();
    Mat A = f.getAMatrix(x), C = f.getCMatrix(x);
    REQUIRE(A.rows() == 18 && A.cols() == 18 && C.rows() == 6 && C.cols() == 18, "sizes");
    auto add = [](const State & a, const Vec & d) {
      State r = a;
      r.p += d.segment<3>(0);
      r.R = pbt::expm(d.segment<3>(3)) * a.R;
      r.v += d.segment<3>(6);
      r.w += d.segment<3>(9);
      r.a += d.segment<3>(12);
      r.wd += d.segment<3>(15);
      return r;
    };
    auto sub = [](const State & a, const State & b) {
      Vec d(18);
      d << a.p - b.p, pbt::logm(a.R * b.R.transpose()), a.v - b.v, a.w - b.w, a.a - b.a, a.wd - b.wd;
      return d;
    };
    auto next = [&](State a) {
      move(a, dt);
      a.a.setZero();
      a.wd.setZero();
      return a;
    };
    Mat An(18, 18), Cn(6, 18);
    State n0 = next(s);
    for(int c = 0; c < 18; ++c)
    {
      Vec d = Vec::Zero(18);
      d(c) = h;
      State plus = add(s, d), minus = add(s, Vec(-d));
      An.col(c) = (sub(next(plus), n0) - sub(next(minus), n0)) / (2 * h);
      Cn.col(c) = (imu(plus.R, plus.a, plus.w, false) - imu(minus.R, minus.a, minus.w, false)) / (2 * h);
    }
    CLOSE(A, An, 1e-6, "process Jacobian");
    CLOSE(C, Cn, 1e-6, "sensor Jacobian");
  }
}
template<class F>
static void fixedContact(Gen & g, bool stable)
{
  double dt = period(g);
  F f(dt);
  Run r = plain(g, f);
  r.dt = dt;
  r.inputSize = 15;
  r.noisySize = 6;
  std::vector<V3> contacts;
  r.configure = [&]() {
    if(g.b())
    {
      size_t n = g.u(4);
      f.setContactsNumber(unsigned(n));
      contacts.resize(n, V3::Zero());
    }
    for(size_t k = 0; k < contacts.size(); ++k)
      if(g.b())
      {
        contacts[k] = g.v3(3);
        f.setContactPosition(unsigned(k), contacts[k]);
      }
    g.labelIf(contacts.size() > 1, "several contacts");
  };
  r.input = [](Gen & g) {
    Vec u(15);
    u << g.v3(3), rotationVector(g), g.v3(3), g.v3(3), g.v3(20);
    return u;
  };
  r.step = [stable](State s, const Vec &, double dt) {
    if(stable)
    { // critically slow spring-damper of pulsation 5 and damping ratio 0.1 on both pose vectors
      s.a = -25 * s.p - 2 * 0.1 * 5 * s.v;
      s.wd = -25 * s.ov - 2 * 0.1 * 5 * s.w;
    }
    move(s, dt);
    return s;
  };
  r.sensor = [&](const State & s, const Vec & u) {
    rot::Motion flex, control;
    flex.p = s.p;
    flex.R = s.R;
    flex.v = s.v;
    flex.w = s.w;
    flex.a = s.a;
    flex.wd = s.wd;
    control.p = u.segment<3>(0);
    control.R = pbt::expm(u.segment<3>(3));
    control.v = u.segment<3>(6);
    control.w = u.segment<3>(9);
    control.a = u.segment<3>(12);
    rot::Motion m = rot::Motion::of(flex.jet() * control.jet());
    Vec y(6 + 3 * long(contacts.size()));
    y.head<6>() = imu(m.R, m.a, m.w, false);
    for(size_t k = 0; k < contacts.size(); ++k)
      y.segment<3>(6 + 3 * long(k)) = s.R * contacts[k] + s.p - contacts[k];
    return y;
  };
  r.go();
}
FACET(fixed_contact, 160000, 640000, "a prediction and a measurement")
{
  fixedContact<flexibilityEstimation::IMUFixedContactDynamicalSystem>(g, false);
}
FACET(stable_fixed_contact, 160000, 640000, "a prediction and a measurement")
{
  fixedContact<flexibilityEstimation::StableIMUFixedContactDynamicalSystem>(g, true);
}
FACET(pendulum, 240000, 1000000, "moving mass off the axis")
{
  // Mass m at (p,h) in a frame turned by theta about the foot, held by a spring k theta; p'' is commanded.
  // Lagrange: d/dt(m(p^2+h^2)theta' - m h p') = -k theta - m g (p cos theta - h sin theta)
  BidimElasticInvPendulum f;
  double m = 1, h = 1, k = g.mag(-1, 4), dt = 1;
  f.setElasticity(k);
  Counter n;
  n.d = g.gvec(4, 1);
  bool noisy = false;
  REQUIRE(f.getStateSize() == 4 && f.getInputSize() == 1 && f.getMeasurementSize() == 0, "sizes");
  REQUIRE(!f.getProcessNoise() && !f.getMeasurementNoise(), "noise nobody gave");
  for(size_t round = 1 + g.u(2); round > 0; --round)
  { // every parameter can be changed at any time
    if(g.b()) f.setMass(m = g.mag(-1, 2));
    if(g.b()) f.setHeight(h = g.mag(-1, 1));
    if(g.b()) f.setElasticity(k = g.mag(-1, 4));
    if(g.p(3, 4)) f.setSamplingPeriod(dt = period(g));
    if(g.p(1, 4))
    {
      noisy = !noisy;
      noisy ? f.setProcessNoise(&n) : f.resetProcessNoise();
      REQUIRE(f.getProcessNoise() == (noisy ? &n : nullptr), "process noise");
    }
    Vec x = g.vec(4, 2), u = g.vec(1, 10);
    if(std::fabs(x(0)) > 0.01 && std::fabs(x(2)) > 0.01 && std::fabs(x(3)) > 0.01) g.nontrivial();
    Vec r = f.stateDynamics(x, u, g.i(0, 9));
    REQUIRE(r.size() == 4, "size of the state");
    REQUIRE(f.measureDynamics(x, u, 0).size() == 0, "measurement size");
    double p = x(0), th = x(1), pd = x(2), td = x(3);
    double momentumRate = -k * th - m * 9.8 * (p * std::cos(th) - h * std::sin(th));
    double tdd = (momentumRate - 2 * m * p * pd * td + m * h * u(0)) / (m * (p * p + h * h));
    Vec want(4);
    want << p + dt * pd, th + dt * td, pd + dt * u(0), td + dt * tdd;
    if(noisy) want += double(n.calls) * n.d;
    CLOSE(r, want, 1e-9, "next state");
  }
}
