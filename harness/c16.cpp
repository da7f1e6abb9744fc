// C16: simulated inertial and magnetic sensors.
#include "rot.hpp"
#include <memory>
#include <state-observation/noise/noise-base.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
using namespace stateObservation;

static const V3 gravity(0, 0, 9.8), field(0, 28, -33.7);

namespace
{
/// a noise that tells how often it was used: adds its call number times a direction
struct Counter : NoiseBase
{
  int calls = 0;
  Vec d;
  Vec at(const Vec & v, int n) const { return v + double(n) * d.head(v.size()); }
  Vector getNoisy(const Vector & v) override
  {
    ++calls;
    last = v;
    return at(v, calls);
  }
  Vec last;
};
} // namespace

template<class S>
static void history(Gen & g, bool mag)
{
  S s;
  Counter noise, noise2;
  noise.d = g.gvec(20, 1);
  noise2.d = g.gvec(20, 1);
  Counter * cur = nullptr;
  bool matrix = false, known = false, noisyRead = false;
  long extra = 0, time = 0;
  const long base = mag ? 9 : 6;
  Vec y, noisy; // expected noiseless measurement and the noisy one read at this instant
  size_t n = 2 + g.u(12);
  size_t reads = 0;
  for(size_t c = 0; c < n; ++c)
  {
    switch(g.u(6))
    {
      case 0:
        g.label("mode");
        matrix = g.b();
        s.setMatrixMode(matrix);
        known = false;
        break;
      case 1:
      {
        g.label("concatenate");
        extra = long(g.u(4));
        Index r = s.concatenateWithInput(extra);
        REQUIRE(r == base + extra, "concatenateWithInput returns " << r);
        known = false;
        break;
      }
      case 2:
      {
        g.label("noise");
        known = false; // a new noise applies to the next instant
        switch(g.u(3))
        {
          case 0:
            s.resetNoise();
            cur = nullptr;
            break;
          case 1:
            s.setNoise(&noise2);
            cur = &noise2;
            break;
          default: s.setNoise(&noise); cur = &noise;
        }
        REQUIRE(s.getNoise() == cur, "noise in force");
        break;
      }
      default:
      {
        REQUIRE(s.getStateSize() == (matrix ? 15 : 10) + extra, "state size " << s.getStateSize());
        REQUIRE(s.getMeasurementSize() == base + extra, "measurement size " << s.getMeasurementSize());
        M3 R = rot::anyRotation(g);
        V3 a = g.v3(20), w = g.v3(10);
        Vec e = g.vec(extra, 5), x(s.getStateSize());
        if(matrix)
          x << R.col(0), R.col(1), R.col(2), a, w, e;
        else
          x << rot::toQuat(R, g.b()).coeffs(), a, w, e;
        REQUIRE(s.checkStateVector(x), "state vector refused");
        long other = long(g.u(20));
        REQUIRE(s.checkStateVector(Vec::Zero(other)) == (other == x.size()), "vector of size " << other << " as a state of size " << x.size());
        REQUIRE(s.stateVectorZero() == Vec::Zero(x.size()), "null state");
        time = g.time(0, 50);
        s.setState(x, time);
        y.resize(base + extra);
        y.head<3>() = R.transpose() * (a + gravity);
        y.segment<3>(3) = R.transpose() * w;
        if(mag) y.segment<3>(6) = R.transpose() * field;
        y.tail(extra) = e;
        known = true;
        noisyRead = false;
        g.labelIf(matrix, "matrix mode");
        g.labelIf(extra > 0, "extra measurements");
        g.labelIf(cur != nullptr, "with noise");
      }
    }
    if(!known) continue;
    REQUIRE(s.getTime() == time, "time " << s.getTime());
    for(size_t r = g.u(4); r > 0; --r)
    {
      ++reads;
      bool ask = g.b();
      int before = cur ? cur->calls : 0;
      Vec m = (ask && g.b()) ? s.getMeasurements() : s.getMeasurements(ask);
      if(ask && cur)
      {
        if(!noisyRead)
        {
          REQUIRE(cur->calls == before + 1, "noise drawn " << cur->calls - before << " times");
          CLOSE(cur->last, y, 1e-12, "measurement given to the noise");
          noisy = cur->at(y, cur->calls);
          noisyRead = true;
        }
        else
          REQUIRE(cur->calls == before, "noise drawn again at the same instant");
        CLOSE(m, noisy, 1e-12, "noisy measurement");
      }
      else
      {
        CLOSE(m, y, 1e-12, "measurement");
        if(cur) REQUIRE(cur->calls == before, "noise drawn for a noiseless read");
      }
    }
  }
  if(reads >= 2) g.nontrivial();
}
FACET(imu, 900000, 3600000, "at least two reads") { history<AccelerometerGyrometer>(g, false); }
FACET(imu_magnetometer, 900000, 3600000, "at least two reads") { history<AccelerometerGyrometerMagnetometer>(g, true); }

FACET(representations, 300000, 1200000, "rotated sensor")
{ // the same rotation as a quaternion of either sign or a matrix gives the same measurement, and the algorithms alone agree
  M3 R = rot::anyRotation(g);
  if(pbt::logm(R).norm() > 0.01) g.nontrivial();
  V3 a = g.v3(20), w = g.v3(10);
  AccelerometerGyrometerMagnetometer q, m;
  m.setMatrixMode(true);
  Vec xq(10), xn(10), xm(15);
  xq << rot::toQuat(R, false).coeffs(), a, w;
  xn << rot::toQuat(R, true).coeffs(), a, w;
  xm << R.col(0), R.col(1), R.col(2), a, w;
  q.setState(xq, 0);
  Vec y = q.getMeasurements();
  q.setState(xn, 1);
  CLOSE(q.getMeasurements(), y, 1e-12, "opposite quaternion");
  m.setState(xm, 0);
  CLOSE(m.getMeasurements(), y, 1e-12, "matrix");
  CLOSE(V3(algorithm::LinearAcceleration().accelerationMeasure(a, R)), V3(y.head<3>()), 1e-12, "accelerometer");
  CLOSE(V3(algorithm::RotationVelocity().rotationVelocityMeasure(w, R)), V3(y.segment<3>(3)), 1e-12, "gyrometer");
  CLOSE(V3(algorithm::MagneticField().magneticFieldMeasure(R)), V3(y.segment<3>(6)), 1e-12, "magnetometer");
  // turning the world and everything in it does not change what the inertial sensors feel, except gravity
  V3 acc = R * y.head<3>() - a;
  CLOSE(acc, gravity, 1e-12, "specific force is acceleration plus gravity reaction");
}
