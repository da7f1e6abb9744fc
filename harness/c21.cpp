#include "ref.hpp"
// C21: tilt estimator.
#include "rot.hpp"
#include <state-observation/observer/tilt-estimator.hpp>
using namespace stateObservation;

static const double g0 = 9.8;

namespace
{
struct Config
{
  double alpha, beta, gamma, dt = 0.005;
  V3 p = V3::Zero(), v = V3::Zero(), w = V3::Zero(), vc = V3::Zero();
  M3 R = M3::Identity();
};
/// velocity of the sensor in its own frame
V3 sensorVelocity(const Config & c, const V3 & yg)
{
  V3 controlRate = c.R * yg - c.w; // in the control frame
  return c.R.transpose() * (c.vc + c.v + controlRate.cross(c.p));
}
Vec step(const Config & c, const Vec & x, const V3 & ya, const V3 & yg)
{
  V3 v = x.head<3>(), z1 = x.segment<3>(3), z = x.tail<3>();
  V3 e = sensorVelocity(c, yg) - v;
  Vec n(9);
  n.head<3>() = v + c.dt * (-yg.cross(v) - g0 * z1 + ya + c.alpha * e);
  n.segment<3>(3) = z1 + c.dt * (-yg.cross(z1) - c.beta * e);
  V3 rate = yg - c.gamma * z.cross(z1);
  n.tail<3>() = (z + c.dt * (-rate.cross(z))).normalized();
  return n;
}
/// sensor moving in a control frame which moves in the world
struct World
{
  V3 wK, axis, wS, pS, vS, p0;
  double freq;
  M3 RK, RS;
  rot::Motion control(double t) const
  {
    rot::Motion m;
    m.R = pbt::expm(wK * t) * RK;
    m.w = wK;
    m.p = p0 + axis * std::sin(freq * t);
    m.v = axis * freq * std::cos(freq * t);
    m.a = -axis * freq * freq * std::sin(freq * t);
    return m;
  }
  rot::Motion sensor(double t) const
  {
    rot::Motion m;
    m.R = pbt::expm(wS * t) * RS;
    m.w = wS;
    m.p = pS + vS * std::sin(t);
    m.v = vS * std::cos(t);
    m.a = -vS * std::sin(t);
    return m;
  }
  rot::Motion imu(double t) const { return rot::Motion::of(control(t).jet() * sensor(t).jet()); }
  V3 ya(double t) const
  {
    rot::Motion m = imu(t);
    return m.R.transpose() * (m.a + V3(0, 0, g0));
  }
  V3 yg(double t) const
  {
    rot::Motion m = imu(t);
    return m.R.transpose() * m.w;
  }
  Vec truth(double t) const
  {
    rot::Motion m = imu(t);
    Vec x(9);
    V3 tilt = m.R.transpose() * V3(0, 0, 1);
    x << m.R.transpose() * m.v, tilt, tilt;
    return x;
  }
  void place(TiltEstimator & e, double t) const
  {
    rot::Motion c = control(t), s = sensor(t);
    e.setSensorPositionInC(s.p);
    e.setSensorOrientationInC(s.R);
    e.setSensorLinearVelocityInC(s.v);
    e.setSensorAngularVelocityInC(s.w);
    e.setControlOriginVelocityInW(c.R.transpose() * c.v);
  }
};
World world(Gen & g, double m)
{
  World w;
  w.wK = g.v3(m);
  w.axis = g.v3(0.5 * m);
  w.freq = g.real(0, 2);
  w.wS = g.v3(m);
  w.pS = g.v3(1);
  w.vS = g.v3(0.5 * m);
  w.p0 = g.v3(1);
  w.RK = rot::anyRotation(g);
  w.RS = rot::anyRotation(g);
  return w;
}
} // namespace

FACET(step, 320000, 1280000, "at least three steps with a placed, moving sensor")
{
  Config c;
  c.alpha = g.mag(-1, 2);
  c.beta = g.mag(-1, 2);
  c.gamma = g.mag(-1, 2);
  Relocatable<TiltEstimator> ep(c.alpha, c.beta, c.gamma);
  REQUIRE(ep->getStateSize() == 9 && ep->getMeasureSize() == 6, "sizes");
  Vec x(9);
  auto tilt = [&]() -> V3 { return g.axis() * (g.p(1, 6) ? g.mag(-1, 1) : 1.); }; // whatever its norm, the next one is 1
  x << g.v3(3), g.v3(1), tilt();
  TimeIndex k = g.time(0, 20);
  ep->setState(x, k);
  bool placed = false;
  size_t steps = 0, n = 1 + g.many(10, 150);
  for(size_t s = 0; s < n; ++s)
  {
    if(g.p(1, 12))
    {
      if(g.b()) ep.copied();
      else ep.assigned(1., 1., 1.);
    }
    if(g.p(1, 3))
    {
      switch(g.u(3))
      {
        case 0:
          ep->setAlpha(c.alpha = g.p(1, 8) ? 0 : g.mag(-1, 2));
          REQUIRE(ep->getAlpha() == c.alpha, "alpha");
          break;
        case 1:
          ep->setBeta(c.beta = g.p(1, 8) ? 0 : g.mag(-1, 2));
          REQUIRE(ep->getBeta() == c.beta, "beta");
          break;
        case 2:
          ep->setGamma(c.gamma = g.p(1, 8) ? 0 : g.mag(-1, 2));
          REQUIRE(ep->getGamma() == c.gamma, "gamma");
          break;
        default:
          ep->setSamplingTime(c.dt = g.mag(-4, g.b() ? -1 : 0.3));
          REQUIRE(ep->getSamplingTime() == c.dt, "sampling time");
      }
    }
    if(g.b())
    {
      ep->setSensorPositionInC(c.p = g.v3(2));
      ep->setSensorOrientationInC(c.R = rot::anyRotation(g));
      ep->setSensorLinearVelocityInC(c.v = g.v3(2));
      ep->setSensorAngularVelocityInC(c.w = g.v3(2));
      placed = true;
      REQUIRE(V3(ep->getSensorPositionInC()) == c.p && M3(ep->getSensorOrientationInC()) == c.R
                  && V3(ep->getSensorLinearVelocityInC()) == c.v && V3(ep->getSensorAngularVelocityInC()) == c.w,
              "placement");
    }
    if(g.b())
    {
      ep->setControlOriginVelocityInW(c.vc = g.v3(2));
      REQUIRE(V3(ep->getControlOriginVelocityInW()) == c.vc, "control origin velocity");
    }
    if(g.p(1, 8))
    {
      x << g.v3(3), g.v3(1), tilt();
      k = g.time(0, 40);
      ep->setState(x, k);
      g.label("state override");
    }
    size_t batch = 1 + (g.p(1, 3) ? g.u(3) : 0);
    for(size_t b = 0; b < batch; ++b)
    {
      V3 ya = g.v3(15), yg = g.v3(3);
      if(g.b())
        ep->setMeasurement(ya, yg, k + 1 + TimeIndex(b));
      else
      {
        Vec y(6);
        y << ya, yg;
        static_cast<ObserverBase &>(*ep).setMeasurement(y, k + 1 + TimeIndex(b));
      }
      x = step(c, x, ya, yg);
      ++steps;
    }
    k += TimeIndex(batch);
    g.labelIf(batch > 1, "several steps at once");
    for(size_t r = 1 + g.u(1); r > 0; --r)
    {
      Vec got = ep->getEstimatedState(k);
      REQUIRE(std::fabs(got.tail<3>().norm() - 1) < 1e-12, "tilt norm " << got.tail<3>().norm());
      CLOSE(got, x, 1e-9, "estimate");
      REQUIRE(ep->getCurrentTime() == k, "time");
      CLOSE(Vec(ep->getCurrentEstimatedState()), x, 1e-9, "current estimate");
    }
    x = ep->getEstimatedState(k);
  }
  if(steps >= 3 && placed) g.nontrivial();
}

/// started at the true state of a motion, the estimate follows it up to the error of the integration scheme
FACET(follows_motion, 80000, 320000, "rotating sensor")
{
  World w = world(g, 1.5);
  double t = g.real(-1, 1);
  double alpha = g.real(1, 20), beta = g.real(0.1, 5), gamma = g.real(0.5, 20);
  if(w.yg(t).norm() > 0.05) g.nontrivial();
  double err[2];
  for(int r = 0; r < 2; ++r)
  {
    const double dt = r == 0 ? 1e-3 : 1e-4;
    TiltEstimator e(alpha, beta, gamma);
    e.setSamplingTime(dt);
    e.setState(w.truth(t), 0);
    w.place(e, t + dt);
    e.setMeasurement(w.ya(t + dt), w.yg(t + dt), 1);
    err[r] = (e.getEstimatedState(1) - w.truth(t + dt)).norm();
  }
  // quadratic in dt: constants of these motions stay below a few hundred
  REQUIRE(err[0] < 2e3 * 1e-6 && err[1] < 2e3 * 1e-8, "error after one step " << err[0] << " at 1e-3, " << err[1] << " at 1e-4");
}

FACET(convergence, 1920, 7680, "initial tilt error above 0.5 rad and rotating sensor")
{
  World w = world(g, 0.5);
  const double dt = 0.002;
  double alpha = g.real(8, 30), beta = g.real(0.5, 1) * alpha * alpha / (4 * g0), gamma = g.real(4, 15);
  Vec x = w.truth(0);
  V3 z = x.tail<3>();
  // initial error: turn the tilt by up to 170 degrees
  V3 n = z.cross(g.axis());
  if(n.norm() < 1e-3) n = z.cross(V3(z(1), z(2), z(0)) + V3(0.3, -0.2, 0.5));
  double err = g.real(0, 2.9);
  z = pbt::expm(n.normalized() * err) * z;
  if(err > 0.5 && w.yg(0).norm() > 0.02) g.nontrivial();
  x.head<3>() += g.v3(0.5);
  x.segment<3>(3) = z;
  x.tail<3>() = z;
  TiltEstimator e(alpha, beta, gamma);
  e.setSamplingTime(dt);
  e.setState(x, 0);
  // slowest mode of the linear part (damping between critical and half of it) and of the tilt correction
  double slow = alpha / 2 * (1 - std::sqrt(std::max(0., 1 - 4 * g0 * beta / (alpha * alpha))));
  double T = 10 / slow + 12 / gamma + 1;
  TimeIndex N = TimeIndex(T / dt);
  for(TimeIndex k = 1; k <= N; ++k)
  {
    double t = double(k) * dt;
    w.place(e, t);
    e.setMeasurement(w.ya(t), w.yg(t), k);
    e.getEstimatedState(k);
  }
  Vec f = e.getEstimatedState(N), truth = w.truth(double(N) * dt);
  double angle = std::atan2(f.tail<3>().cross(truth.tail<3>()).norm(), f.tail<3>().dot(truth.tail<3>()));
  g.note() << "error " << err << " -> " << angle << " after " << T << " s";
  REQUIRE(angle < 0.05, "tilt error " << angle << " rad after " << T << " s from " << err);
  REQUIRE((f.head<3>() - truth.head<3>()).norm() < 0.1, "velocity error " << (f.head<3>() - truth.head<3>()).norm());
}
