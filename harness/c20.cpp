// C20: limits on the DCM bias in the robot frame.
#include "dcm.hpp"
using namespace stateObservation;
using namespace dcm;

FACET(limits, 320000, 1280000, "the limit was active at least once with a robot that turned")
{
  Params p = params(g);
  Model m;
  V2 d0 = v2(g, 1), b0 = v2(g, 0.5), z0 = v2(g, 1), sd = std2(g), sb = std2(g);
  auto limits = [&]() {
    V2 l;
    for(int k = 0; k < 2; ++k) l(k) = g.p(1, 3) ? 0 : g.mag(-3, 0);
    return l;
  };
  m.limit = limits();
  LipmDcmEstimator e(p.dt, p.omega, p.drift, p.sigmaDcm, p.sigmaZmp, m.limit, z0, d0, b0, sd, sb);
  m.dt = p.dt;
  m.omega = p.omega;
  m.drift = p.drift;
  m.sigmaDcm = p.sigmaDcm;
  m.sigmaZmp = p.sigmaZmp;
  m.zmp = z0;
  m.state(d0, b0);
  m.cov(sd, sb);
  bool turned = false, oneAxis = false;
  auto check = [&]() {
    V2 local = e.getLocalBias();
    for(int k = 0; k < 2; ++k)
      if(m.limit(k) > 0)
        REQUIRE(std::fabs(local(k)) <= m.limit(k) * (1 + 1e-9), "local bias " << local.transpose() << " beyond limits "
                                                                            << m.limit.transpose());
    CLOSE(V2(e.getUnbiasedDCM()), m.dcm(), 1e-8, "unbiased DCM");
    CLOSE(V2(e.getBias()), m.bias(), 1e-8, "bias");
    CLOSE(local, V2(rot2(-m.yaw) * m.bias()), 1e-8, "local bias");
    covariances(e.getFilter().getStateCovariance(), ref::D(m.f.P), "covariance");
    m.f.P = ref::L(e.getFilter().getStateCovariance());
    m.f.x = ref::LVc(e.getFilter().getCurrentEstimatedState());
  };
  for(size_t n = 2 + g.u(16); n > 0; --n)
  {
    switch(g.u(7))
    {
      case 0:
        if(m.pending.size() > 1) break;
        e.setBiasLimit(m.limit = limits());
        break;
      case 1:
      {
        V2 v = v2(g, 1);
        if(m.pending.size() > 1) break;
        e.setBias(v);
        m.state(m.dcm(), v);
        break;
      }
      case 2:
        if(g.p(1, 3))
        {
          V2 y = v2(g, 1), z = v2(g, 1), b = v2(g, 0.3), s = std2(g);
          double yaw = g.real(-4, 4);
          bool with = g.b();
          e.resetWithMeasurements(y, z, yaw, with, b, s);
          m.reset(y, z, yaw, with, b, s);
          turned = true;
        }
        break;
      default:
      {
        V2 y = v2(g, 1), z = v2(g, 1);
        double yaw = m.pending.empty() ? m.yaw : m.pending.back().yaw;
        if(g.b())
        {
          yaw += g.real(-2, 2);
          turned = true;
        }
        e.setInputs(y, z, yaw);
        m.input(y, z, yaw);
        if(g.p(1, 6)) break;
        e.update();
        m.update();
        oneAxis = oneAxis || (m.clamped && (m.limit(0) > 0) != (m.limit(1) > 0));
        check();
      }
    }
    if(g.p(1, 8))
    {
      e.update();
      m.update();
      check();
    }
  }
  g.labelIf(oneAxis, "only one axis limited");
  if(m.clamped && turned) g.nontrivial();
}
/// metamorphic: limits that are never reached change nothing, and the sum of DCM and bias never depends on them in one step
FACET(against_unlimited, 120000, 480000, "at least five steps")
{
  Params p = params(g);
  V2 d0 = v2(g, 1), b0 = v2(g, 0.5), z0 = v2(g, 1), sd = std2(g), sb = std2(g);
  bool large = g.b();
  V2 l(large ? 1e4 : g.mag(-3, 0), large ? 1e4 : g.mag(-3, 0));
  if(g.b()) l(g.u(1)) = 0;
  LipmDcmEstimator a(p.dt, p.omega, p.drift, p.sigmaDcm, p.sigmaZmp, V2(V2::Zero()), z0, d0, b0, sd, sb);
  LipmDcmEstimator b(p.dt, p.omega, p.drift, p.sigmaDcm, p.sigmaZmp, l, z0, d0, b0, sd, sb);
  size_t n = 1 + g.many(12, 150);
  if(n >= 5) g.nontrivial();
  double yaw = 0;
  for(size_t k = 0; k < n; ++k)
  {
    V2 y = v2(g, 1), z = v2(g, 1);
    if(g.b()) yaw += g.real(-1, 1);
    a.setInputs(y, z, yaw);
    b.setInputs(y, z, yaw);
    a.update();
    b.update();
    CLOSE(V2(b.getUnbiasedDCM() + b.getBias()), V2(a.getUnbiasedDCM() + a.getBias()), 1e-8, "sum of DCM and bias");
    CLOSE(Mat(b.getFilter().getStateCovariance()), Mat(a.getFilter().getStateCovariance()), 1e-9, "covariance");
    if(large) CLOSE(V2(b.getBias()), V2(a.getBias()), 1e-8, "bias");
    // restart the limited one from the unlimited estimate
    b.setBias(a.getBias());
    b.setUnbiasedDCM(a.getUnbiasedDCM());
  }
}
