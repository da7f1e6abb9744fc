// C19: DCM and bias estimators are the Kalman filter of their documented model.
#include "dcm.hpp"
using namespace stateObservation;
using namespace dcm;

FACET(planar, 180000, 720000, "at least three measurements used, the robot turns, parameters changed or reset")
{
  Params p = params(g);
  Model m;
  V2 d0 = v2(g, 1), b0 = v2(g, 0.5), z0 = v2(g, 1), sd = std2(g), sb = std2(g);
  bool defaults = g.p(1, 6);
  if(defaults) p = {0.005, std::sqrt(9.8), 0.002, 0.01, 0.005};
  Relocatable<LipmDcmEstimator> ep(defaults
                           ? LipmDcmEstimator()
                           : LipmDcmEstimator(p.dt, p.omega, p.drift, p.sigmaDcm, p.sigmaZmp, V2(V2::Zero()), z0, d0, b0, sd, sb));
  if(defaults)
  {
    z0 = d0 = b0 = V2::Zero();
    sd = sb = V2::Constant(0.01);
  }
  m.dt = p.dt;
  m.omega = p.omega;
  m.drift = p.drift;
  m.sigmaDcm = p.sigmaDcm;
  m.sigmaZmp = p.sigmaZmp;
  m.zmp = z0;
  m.state(d0, b0);
  m.cov(sd, sb);
  size_t used = 0, changes = 0, turns = 0;
  bool alive = true; // the filter holds a state
  for(size_t n = 3 + g.u(20); n > 0; --n)
  {
    if(g.p(1, 10)) g.b() ? ep.copied() : ep.assigned();
    switch(alive ? g.u(9) : 4)
    {
      case 0: // parameters (in force when a step is estimated; with several pending, some may have been estimated)
        if(m.pending.size() > 1) break;
        ++changes;
        switch(g.u(4))
        {
          case 0: ep->setSamplingTime(m.dt = g.mag(-3, -1)); break;
          case 1: ep->setLipmNaturalFrequency(m.omega = g.real(1, 6)); break;
          case 2: ep->setBiasDriftPerSecond(m.drift = g.p(1, 8) ? 0 : g.mag(-4, 0)); break;
          case 3: ep->setDcmMeasureErrorStd(m.sigmaDcm = g.mag(-2.5, -0.5)); break;
          default: ep->setZmpMeasureErrorStd(m.sigmaZmp = g.p(1, 8) ? 0 : g.mag(-3.5, -0.5));
        }
        break;
      case 1: // state override
      {
        ++changes;
        V2 v = v2(g, 1), s = std2(g);
        bool bias = g.b(), unc = g.b();
        if(m.pending.size() > 1) break; // some of the pending steps may have been estimated already
        if(bias)
        {
          unc ? ep->setBias(v, s) : ep->setBias(v);
          m.state(m.dcm(), v);
        }
        else
        {
          unc ? ep->setUnbiasedDCM(v, s) : ep->setUnbiasedDCM(v);
          m.state(v, m.bias());
        }
        if(unc)
        {
          m.f.P.topRightCorner(2, 2).setZero();
          m.f.P.bottomLeftCorner(2, 2).setZero();
          m.f.P.block(bias ? 2 : 0, bias ? 2 : 0, 2, 2) = ref::L(Mat(V2(s.cwiseAbs2()).asDiagonal()));
        }
        break;
      }
      case 2:
        if(g.b())
        {
          ++changes;
          V2 y = v2(g, 1), z = v2(g, 1), b = v2(g, 0.3), s = std2(g);
          double yaw = g.real(-4, 4);
          bool with = g.b();
          switch(g.u(3))
          {
            case 0: ep->resetWithMeasurements(y, z, yaw, with, b, s); break;
            case 1: ep->resetWithMeasurements(y, z, Matrix2(rot2(yaw)), with, b, s); break;
            case 2: ep->resetWithMeasurements(y, z, Matrix3(heading(g, yaw)), with, b, s); break;
            default:
              ep->resetWithMeasurements(y, z, yaw);
              with = true;
              b.setZero();
              s.setConstant(0.01);
          }
          m.reset(y, z, yaw, with, b, s);
        }
        break;
      case 3:
        if(g.p(1, 3))
        { // the next measurement initialises the estimate
          ep->getFilter().reset();
          m.pending.clear();
          alive = false;
          g.label("initialised by a measurement");
        }
        break;
      case 4:
      case 5:
      case 6:
      case 7:
      {
        V2 y = v2(g, 1), z = v2(g, 1);
        double yaw = m.pending.empty() ? m.yaw : m.pending.back().yaw;
        if(g.b())
        {
          yaw += g.real(-2, 2);
          ++turns;
        }
        switch(g.u(2))
        {
          case 0: ep->setInputs(y, z, yaw); break;
          case 1: ep->setInputs(y, z, Matrix2(rot2(yaw))); break;
          default: ep->setInputs(y, z, Matrix3(heading(g, yaw)));
        }
        if(!alive)
        {
          m.reset(y, z, yaw, true, V2::Zero(), V2::Constant(0.01));
          alive = true;
          break;
        }
        m.input(y, z, yaw);
        if(g.p(2, 3))
        {
          ep->update();
          used += m.update();
        }
        else
          g.label("several measurements before an update");
        break;
      }
      default:
        ep->update();
        used += m.update();
    }
    if(!alive) continue;
    if(m.pending.empty())
    {
      for(size_t r = 1 + g.u(1); r > 0; --r)
      {
        CLOSE(V2(ep->getUnbiasedDCM()), m.dcm(), 1e-8, "unbiased DCM");
        CLOSE(V2(ep->getBias()), m.bias(), 1e-8, "bias");
        CLOSE(V2(ep->getLocalBias()), V2(rot2(-m.yaw) * m.bias()), 1e-8, "local bias");
        covariances(ep->getFilter().getStateCovariance(), ref::D(m.f.P), "covariance");
        CLOSE(ep->getLipmNaturalFrequency(), m.omega, 1e-15, "natural frequency");
      }
      m.f.P = ref::L(ep->getFilter().getStateCovariance());
      m.f.x = ref::LVc(ep->getFilter().getCurrentEstimatedState());
    }
  }
  if(used >= 3 && turns && changes) g.nontrivial();
}

FACET(single_axis, 180000, 720000, "at least three measurements used and parameters changed")
{
  Params p = params(g);
  double d0 = g.sym(1), b0 = g.sym(0.5), z0 = g.sym(1), sd = g.mag(-3, -0.5), sb = g.mag(-3, -0.5);
  Relocatable<UnidimLipmDcmEstimator> ep(p.dt, p.omega, p.drift, d0, z0, b0, p.sigmaDcm, p.sigmaZmp, sd, sb);
  ref::Linear f;
  f.x = ref::LVc(Vec(V2(d0, b0)));
  f.P = ref::L(Mat(V2(sd * sd, sb * sb).asDiagonal()));
  std::vector<V2> pending; // y, u
  double zmp = z0;
  size_t used = 0, changes = 0;
  auto consume = [&]() {
    double od = p.omega * p.dt;
    Mat A(2, 2), B(2, 1), C(1, 2), Q(2, 2), R(1, 1);
    A << 1 + od, 0, 0, 1;
    B << -od, 0;
    C << 1, 1;
    Q << std::pow(od * p.sigmaZmp, 2), 0, 0, std::pow(p.drift * p.dt, 2);
    R << p.sigmaDcm * p.sigmaDcm;
    f.A = ref::L(A);
    f.B = ref::L(B);
    f.C = ref::L(C);
    f.Q = ref::L(Q);
    f.R = ref::L(R);
    for(auto & q : pending)
    {
      ref::LV u = ref::LVc(Vec::Constant(1, q(1)));
      f.step(&u, nullptr, ref::LVc(Vec::Constant(1, q(0))));
      ++used;
    }
    pending.clear();
    return V2(ref::D(f.x));
  };
  for(size_t n = 3 + g.u(20); n > 0; --n)
  {
    if(g.p(1, 10)) g.b() ? ep.copied() : ep.assigned();
    switch(g.u(7))
    {
      case 0:
        if(!pending.empty()) break;
        ++changes;
        switch(g.u(4))
        {
          case 0: ep->setSamplingTime(p.dt = g.mag(-3, -1)); break;
          case 1: ep->setLipmNaturalFrequency(p.omega = g.real(1, 6)); break;
          case 2: ep->setBiasDriftPerSecond(p.drift = g.p(1, 8) ? 0 : g.mag(-4, 0)); break;
          case 3: ep->setDcmMeasureErrorStd(p.sigmaDcm = g.mag(-2.5, -0.5)); break;
          default: ep->setZmpMeasureErrorStd(p.sigmaZmp = g.p(1, 8) ? 0 : g.mag(-3.5, -0.5));
        }
        break;
      case 1:
      {
        ++changes;
        double v = g.sym(1), s = g.mag(-3, -0.5);
        bool bias = g.b(), unc = g.b();
        if(unc && !pending.empty()) break;
        if(bias)
          unc ? ep->setBias(v, s) : ep->setBias(v);
        else
          unc ? ep->setUnbiasedDCM(v, s) : ep->setUnbiasedDCM(v);
        f.x(bias ? 1 : 0) = v;
        if(unc)
        {
          f.P(0, 1) = f.P(1, 0) = 0;
          f.P(bias ? 1 : 0, bias ? 1 : 0) = (long double)s * s;
        }
        break;
      }
      case 2:
        if(g.b())
        {
          ++changes;
          double y = g.sym(1), z = g.sym(1), b = g.sym(0.3), s = g.mag(-3, -0.5);
          bool with = g.b();
          Params q = params(g);
          p.drift = q.drift;
          p.sigmaDcm = q.sigmaDcm;
          p.sigmaZmp = q.sigmaZmp;
          ep->resetWithInputs(y, z, with, p.drift, p.sigmaDcm, p.sigmaZmp, b, s);
          pending.clear();
          zmp = z;
          f.x = ref::LVc(Vec(V2(with ? y - b : y, b)));
          Mat P(2, 2);
          double r = p.sigmaDcm * p.sigmaDcm;
          if(with)
            P << r + s * s, -s * s, -s * s, s * s;
          else
            P << r, 0, 0, s * s;
          f.P = ref::L(P);
        }
        break;
      case 3:
      case 4:
      case 5:
      {
        double y = g.sym(1), z = g.sym(1);
        ep->setInputs(y, z);
        pending.push_back(V2(y, zmp));
        zmp = z;
        if(g.p(1, 3)) break;
        CLOSE(V2(ep->update()), consume(), 1e-8, "returned estimate");
        break;
      }
      default:
        if(!pending.empty()) CLOSE(V2(ep->update()), consume(), 1e-8, "returned estimate");
    }
    if(pending.empty())
    {
      for(size_t r = 1 + g.u(1); r > 0; --r)
      {
        CLOSE(V2(ep->getUnbiasedDCM(), ep->getBias()), V2(ref::D(f.x)), 1e-8, "estimate");
        covariances(ep->getFilter().getStateCovariance(), ref::D(f.P), "covariance");
      }
      f.P = ref::L(ep->getFilter().getStateCovariance());
      f.x = ref::LVc(ep->getFilter().getCurrentEstimatedState());
    }
  }
  if(used >= 3 && changes) g.nontrivial();
}

/// turning the scenario, exchanging its axes, and decoupled axes
FACET(symmetries, 60000, 240000, "at least five steps with a turning robot")
{
  Params p = params(g);
  V2 d0 = v2(g, 1), b0 = v2(g, 0.5), z0 = v2(g, 1), limit = V2::Zero();
  double sd = g.mag(-3, -0.5), sb = g.mag(-3, -0.5);
  int kind = int(g.u(2)); // 0 turn, 1 exchange, 2 two single-axis estimators
  M2 T = kind == 0 ? rot2(g.real(-3, 3)) : kind == 1 ? M2((M2() << 0, 1, 1, 0).finished()) : M2(M2::Identity());
  V2 sd2 = V2::Constant(sd), sb2 = V2::Constant(sb);
  LipmDcmEstimator a(p.dt, p.omega, p.drift, p.sigmaDcm, p.sigmaZmp, limit, z0, d0, b0, sd2, sb2);
  LipmDcmEstimator b(p.dt, p.omega, p.drift, p.sigmaDcm, p.sigmaZmp, limit, V2(T * z0), V2(T * d0), V2(T * b0), sd2, sb2);
  UnidimLipmDcmEstimator x(p.dt, p.omega, p.drift, d0(0), z0(0), b0(0), p.sigmaDcm, p.sigmaZmp, sd, sb);
  UnidimLipmDcmEstimator y(p.dt, p.omega, p.drift, d0(1), z0(1), b0(1), p.sigmaDcm, p.sigmaZmp, sd, sb);
  size_t n = 1 + g.many(15, 150);
  double yaw = 0;
  bool turned = false;
  for(size_t k = 0; k < n; ++k)
  {
    V2 m = v2(g, 1), z = v2(g, 1);
    if(kind != 2 && g.b())
    {
      yaw += g.real(-1, 1);
      turned = true;
    }
    a.setInputs(m, z, yaw);
    a.update();
    if(kind == 2)
    {
      x.setInputs(m(0), z(0));
      y.setInputs(m(1), z(1));
      x.update();
      y.update();
      CLOSE(V2(a.getUnbiasedDCM()), V2(x.getUnbiasedDCM(), y.getUnbiasedDCM()), 1e-7, "planar and single-axis DCM");
      CLOSE(V2(a.getBias()), V2(x.getBias(), y.getBias()), 1e-7, "planar and single-axis bias");
      continue;
    }
    // a turn of the world adds to the heading, an exchange of the axes reverses it; the bias turns with the change of
    // heading only, so the offset of the heading cancels out
    b.setInputs(V2(T * m), V2(T * z), kind == 0 ? yaw : -yaw);
    b.update();
    CLOSE(V2(b.getUnbiasedDCM()), V2(T * a.getUnbiasedDCM()), 1e-7, "transformed DCM");
    CLOSE(V2(b.getBias()), V2(T * a.getBias()), 1e-7, "transformed bias");
  }
  if(n >= 5 && (turned || kind == 2)) g.nontrivial();
}
