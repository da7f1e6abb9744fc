// C25: contacts and sensors of the kinetics observer over time (model-based histories).
#include "kinetics.hpp"
using namespace kinetics;
using ref::D;
using ref::LVc;

namespace
{
struct History : Driver
{
  int estimations = 0, removed = 0, gaps = 0;
  History(Gen & g_, int nc, int ni) : Driver(g_, nc, ni)
  {
    samplingTime(g.mag(-3, -1.5));
    mass(g.real(5, 80));
    compareBook();
    // moderate uncertainties everywhere
    o.setStateCovarianceMat(Mat(1e-3 * Mat::Identity(m.tsize(), m.tsize())));
    o.setProcessNoiseCovarianceMat(Mat(1e-4 * Mat::Identity(m.tsize(), m.tsize())));
    o.setContactInitCovMatDefault(M12(1e-3 * M12::Identity()));
    state();
  }
  /// a robot at rest somewhere
  void state()
  {
    Vec x = Vec::Zero(m.size());
    x.segment<3>(0) = g.v3(1);
    x.segment<4>(3) = rot::toQuat(rotmat(g, 1), g.p(1, 4)).coeffs();
    x.segment<3>(7) = g.v3(0.5), x.segment<3>(10) = g.v3(0.5);
    Vec now = o.getCurrentStateVector();
    for(int i = 0; i < m.nc; ++i) x.segment<13>(m.contactAt(i)) = now.segment<13>(m.contactAt(i));
    o.setStateVector(x, false);
  }
  void inputs()
  {
    // the inertia at the origin of the frame is that of the centre of mass, and the mass at this place
    V3 c = g.v3(0.3);
    M3 I = M3(V3(3, 2, 4).asDiagonal()) + m.mass * (c.squaredNorm() * M3::Identity() - c * c.transpose());
    inertia(I, true, M3(M3::Zero()));
    com(c, 2, g.v3(0.2), g.v3(0.5));
    if(g.b()) momentum(g.v3(1), true, g.v3(1));
  }
  bool addOne()
  {
    std::vector<int> l = contactList(false);
    if(l.empty()) return false;
    int n = g.b() ? -1 : l[g.u(l.size() - 1)];
    bool st[4] = {true, true, true, true};
    M3 K[4] = {elastic::gain(g, 1, 3), elastic::gain(g, 0, 1), elastic::gain(g, 0, 2), elastic::gain(g, -1, 0)};
    M12 ci = M12(1e-3 * M12::Identity()), cp = M12(1e-4 * M12::Identity());
    bool own = g.b();
    add(n, g.v3(1), rotmat(g, 1), own ? &ci : nullptr, &cp, st, K);
    return true;
  }
  void estimate()
  {
    if(kEst == kData)
    { // nothing new: the estimate and its time do not change
      Vec x = o.getCurrentStateVector();
      Mat P = o.getStateCovarianceMat();
      CLOSE(Vec(o.update()), x, 0, "update without new data");
      CLOSE(o.getStateCovarianceMat(), P, 0, "covariance of an update without new data");
      compareBook();
      return;
    }
    for(int i : contactList())
      if(!m.contacts[size_t(i)].fresh) contact(i, vec6(g, 100, 10), g.b(), -3, 0);
    Vec y = measurement();
    Mat R = noise();
    compareBook();
    Vec x0 = o.getCurrentStateVector();
    o.update();
    ++kEst;
    full = false;
    ++estimations;
    compareBook();
    const so::ExtendedKalmanFilter & f = o.getEKF();
    REQUIRE(f.getMeasureSize() == y.size(), "measurement size of the filter " << f.getMeasureSize() << " expected " << y.size());
    CLOSE(f.getR(), R, 1e-14, "measurement covariance");
    for(long i = 0; i < R.rows(); ++i)
      for(long j = 0; j < R.cols(); ++j)
        REQUIRE(std::fabs(f.getR()(i, j) - R(i, j)) <= 1e-14 * std::sqrt(R(i, i) * R(j, j)),
                "covariance of the measurements " << i << ", " << j << ": " << f.getR()(i, j) << " expected " << R(i, j));
    Vec xb = f.getLastPrediction(), yb = f.getLastPredictedMeasurement();
    if(xb.allFinite() && xb.norm() < 1e5)
    {
      Vec want = D(m.measure(LVc(xb)));
      REQUIRE(yb.size() == want.size(), "predicted measurement of size " << yb.size() << " expected " << want.size());
      double amp = m.amplification();
      CLOSE(yb, want, 1e-10 * amp, "measurement predicted for the sensors present, where they are");
    }
    REQUIRE(f.getCurrentTime() == kEst, "time of the filter");
    if(!tame()) state(), zeroForces();
  }
  bool tame()
  {
    Vec x = o.getCurrentStateVector();
    for(int i = 0; i < m.nc; ++i)
      if(!m.contacts[size_t(i)].set) x.segment<13>(m.contactAt(i)).setZero();
    return x.allFinite() && x.head(7).norm() < 20 && x.segment<6>(7).norm() < 20 && x.tail(x.size() - 13).norm() < 1e4
           && o.getStateCovarianceMat().cwiseAbs().maxCoeff() < 1e3;
  }
  void zeroForces()
  {
    Kine k = o.getKinematics();
    o.setStateKinematics(k);
    o.setStateCovarianceMat(Mat(1e-3 * Mat::Identity(m.tsize(), m.tsize())));
  }
};
} // namespace

FACET(history, 24000, 96000, "at least three estimations, a contact removed and a wrench sensor or an IMU present")
{
  int nc = int(g.many(4, 8));
  History h(g, nc, int(g.many(3, 7)));
  if(g.p(3, 4)) h.inputs();
  h.wild = g.p(1, 4);
  size_t n = 6 + g.many(g.thorough ? 80 : 40, 200);
  bool sensors = false;
  for(size_t i = 0; i < n; ++i)
  {
    std::vector<int> l = h.contactList();
    switch(g.u(15))
    {
      case 0:
      case 1: h.addOne(); break;
      case 2:
        if(!l.empty())
        {
          int c = l[g.u(l.size() - 1)];
          h.remove(c);
          ++h.removed;
          g.label("remove");
          if(g.b())
          {
            h.compareBook();
            bool st[4] = {false, false, false, false};
            M3 K[4];
            M12 ci = M12(1e-3 * M12::Identity()), cp = M12(1e-4 * M12::Identity());
            h.add(g.b() ? c : -1, g.v3(1), rotmat(g, 1), &ci, &cp, st, K);
            g.label("added again");
          }
        }
        break;
      case 3:
        if(g.p(1, 3))
        {
          h.clear();
          ++h.removed;
          g.label("clear");
        }
        break;
      case 4:
      case 5:
      case 6:
        if(h.imu(g.v3(10), g.v3(2), -4, 0)) sensors = true;
        break;
      case 7:
      case 8:
        if(!l.empty())
        {
          int c = l[g.u(l.size() - 1)];
          bool s = g.b();
          h.contact(c, vec6(g, 100, 10), s, -4, 0);
          sensors |= s;
        }
        break;
      case 9: h.absolutePose(g.v3(1), rotmat(g, 2), -4, 0); break;
      case 10: h.defaults(-4, 0); break;
      case 11:
        switch(g.u(5))
        {
          case 0: h.o.resetSensorsDefaultCovMat(), h.builtInCovariances(); break;
          case 1: h.resetInputs(), g.label("resetInputs"); break;
          case 2: h.mass(g.real(5, 80)), h.inputs(); break;
          case 3: h.samplingTime(g.mag(-3, -1.5)), h.full = true; break;
          case 4: h.o.setWithUnmodeledWrench(h.m.unmodelled = g.b()); break;
          default: h.o.setWithGyroBias(h.m.bias = g.b()); break;
        }
        break;
      default: h.estimate(); break;
    }
    h.compareBook();
  }
  h.estimate();
  if(h.estimations >= 3 && h.removed > 0 && sensors) g.nontrivial();
  g.labelIf(h.estimations > 1, "several estimations");
}
