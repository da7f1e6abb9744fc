// C22: the elastic flexibility model against mechanics.
#include "elastic.hpp"
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
using namespace stateObservation;
using elastic::Model;
using elastic::gain;
using elastic::rotVec;
using elastic::compareJacobian;
using elastic::forward;
using elastic::amplification;
using elastic::L3;
using elastic::LM;
using elastic::LV;
using ref::D;
using ref::LVc;
typedef flexibilityEstimation::IMUElasticLocalFrameDynamicalSystem System;

namespace
{
struct Counter : NoiseBase
{
  int calls = 0;
  Vec d, last;
  Vector getNoisy(const Vector & v) override
  {
    ++calls;
    last = v;
    return v + double(calls) * d.head(v.size());
  }
};
struct Bench
{
  Gen & g;
  System s;
  Model m;
  bool modelSet = false;
  double ori = 2.2; // bound on the rotations of the flexibility
  explicit Bench(Gen & g_) : g(g_), s(g_.p(1, 3) ? 0.005 : 0.01) { s.setSamplingPeriod(m.dt = 0.005); }
  void model(bool pendulum)
  {
    m.pendulum = pendulum;
    modelSet = true;
    s.setContactModel(pendulum ? System::contactModel::pendulum : System::contactModel::elasticContact);
  }
  void configure(int what)
  {
    switch(what)
    {
      case 0:
        m.contacts = int(g.u(2));
        s.setContactsNumber(unsigned(m.contacts));
        REQUIRE(s.getContactsNumber() == unsigned(m.contacts), "contacts number");
        break;
      case 1: s.setWithForceMeasurements(m.forces = g.b()); break;
      case 2: s.setWithComBias(m.comBias = g.b()); break;
      case 3: s.setWithAbsolutePosition(m.absolute = g.b()); break;
      case 4: s.setWithUnmodeledForces(m.unmodelled = g.b()); break;
      case 5: s.setRobotMass(m.mass = g.p(1, 3) ? 56.8 : g.mag(0, 2.2)); break;
      case 6: s.setSamplingPeriod(m.dt = g.mag(-3.5, -1.5)); break;
      case 7: s.setKfe(m.Kfe = gain(g, 2, 4.6)); break;
      case 8: s.setKte(m.Kte = gain(g, 1, 3)); break;
      case 9: s.setKfv(m.Kfv = gain(g, 1, 3)); break;
      case 10: s.setKtv(m.Ktv = gain(g, 0, 2)); break;
      case 11: s.setKfeRopes(m.Rfe = gain(g, 2, 4.6)); break;
      case 12: s.setKteRopes(m.Rte = gain(g, 1, 3)); break;
      case 13: s.setKfvRopes(m.Rfv = gain(g, 1, 3)); break;
      case 14: s.setKtvRopes(m.Rtv = gain(g, 0, 2)); break;
      case 15: s.setPe(m.pe = V3(g.v3(1) + V3(0, 0, 4))); break;
      default: model(g.p(1, 4));
    }
    REQUIRE(s.getInputSize() == m.inputSize(), "input size " << s.getInputSize());
    REQUIRE(s.getMeasurementSize() == m.measurementSize(), "measurement size " << s.getMeasurementSize());
    REQUIRE(s.getStateSize() == 35, "state size");
    REQUIRE(s.getRobotMass() == m.mass, "mass");
    REQUIRE(s.getWithForceMeasurements() == m.forces && s.getWithComBias() == m.comBias
                && s.getWithAbsolutePosition() == m.absolute,
            "features");
    CLOSE(s.getKfe(), m.Kfe, 0, "Kfe");
    CLOSE(s.getKte(), m.Kte, 0, "Kte");
    CLOSE(s.getKfv(), m.Kfv, 0, "Kfv");
    CLOSE(s.getKtv(), m.Ktv, 0, "Ktv");
  }
  Vec state()
  {
    Vec x(35);
    x << g.v3(0.1), rotVec(g, ori), g.v3(1), g.v3(1.5), g.vec(12, 100), g.vec(6, 30), g.vec(2, 0.1), g.v3(0.5);
    return x;
  }
  Vec input(const Vec & x)
  {
    Vec u(m.inputSize());
    V3 c = g.v3(1), cb = c;
    if(m.comBias) cb(0) -= x(30), cb(1) -= x(31);
    // the inertia is given about the origin of the flexible frame
    M3 I = g.spd(3, 0.7, 0.5) + m.mass * (cb.squaredNorm() * M3::Identity() - cb * cb.transpose());
    u.head(27) << c, g.v3(1), g.v3(3), I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2), g.v3(5), g.vec(6, 2),
        g.v3(5);
    u.segment(27, 21) << g.v3(1), rotVec(g, 3.1), g.v3(1), g.v3(1), g.v3(5), g.vec(6, 30);
    for(long i = 0; i < m.contacts; ++i) u.segment(48 + 12 * i, 12) << g.v3(1), rotVec(g, 3.1), g.v3(0.5), g.v3(0.5);
    return u;
  }
  bool fits(const Vec & x, const Vec & u) const
  { // rotations stay away from half turns, where rotation vectors jump
    LV r = m.f(LVc(x), LVc(u));
    L3 d = m.dt * LVc(x).segment<3>(9);
    if(r.segment<3>(3).norm() > 2.9L || d.norm() + (r.segment<3>(9) - LVc(x).segment<3>(9)).norm() * m.dt > 1.5L)
      return false;
    if(m.singularRope(LVc(x), LVc(u)) || m.singularRope(r, LVc(u))) return false;
    if(m.absolute && std::fabs(x(34)) + x.segment<3>(3).norm() > 2.9) return false;
    return true;
  }
};
void compareUnmodelled(const Vec & got, const Vec & x, bool on)
{
  if(!on) CLOSE(got, Vec(Vec::Zero(6)), 0, "unmodelled wrench although disabled");
  else
    for(long i = 0; i < 6; ++i) // constant, up to a slight forgetting
      REQUIRE(std::fabs(got(i)) <= std::fabs(x(i)) && std::fabs(got(i) - x(i)) <= 2e-3 * std::fabs(x(i)),
              "unmodelled wrench " << got(i) << " from " << x(i));
}
void compareState(const Vec & got, const Vec & want, const Vec & x, const Model & m)
{
  REQUIRE(got.size() == 35, "state size");
  // accelerations are solved from an inertia: errors are relative to the whole dynamic magnitudes
  CLOSE(Vec(got.head(12)), Vec(want.head(12)), 1e-8, "predicted kinematics");
  CLOSE(Vec(got.segment(12, 12)), Vec(want.segment(12, 12)), 1e-8, "predicted contact forces");
  compareUnmodelled(got.segment(24, 6), x.segment(24, 6), m.unmodelled);
  CLOSE(Vec(got.tail(5)), Vec(x.tail(5)), 0, "bias and drift");
}
} // namespace

FACET(history, 40000, 600000, "contacts, and both predictions and measurements or wrenches")
{
  Bench b(g);
  Model & m = b.m;
  System & s = b.s;
  b.model(g.p(1, 4));
  Counter pn, mn, *p = nullptr, *q = nullptr;
  pn.d = g.gvec(35, 1e-3);
  mn.d = g.gvec(30, 1);
  if(g.p(3, 4)) b.configure(0);
  for(size_t n = g.u(6); n > 0; --n) b.configure(int(g.u(15)));
  size_t preds = 0, others = 0, withContacts = 0;
  Vec x, u;
  for(size_t n = 2 + g.u(8); n > 0; --n)
  {
    bool fresh = x.size() == 0;
    if(g.p(1, 2))
    {
      b.configure(int(g.u(16)));
      fresh = true;
    }
    if(g.p(1, 10))
    {
      p = g.b() ? &pn : nullptr;
      p ? s.setProcessNoise(p) : s.resetProcessNoise();
      REQUIRE(s.getProcessNoise() == p, "process noise");
    }
    if(g.p(1, 10))
    {
      q = g.b() ? &mn : nullptr;
      q ? s.setMeasurementNoise(q) : s.resetMeasurementNoise();
      REQUIRE(s.getMeasurementNoise() == q, "measurement noise");
    }
    if(fresh || g.p(2, 3))
    {
      Vec old = x;
      x = b.state();
      // small changes: only some components
      if(old.size() && !fresh && g.b())
      {
        Vec nx = old;
        long i = g.pick<long>({0, 3, 6, 9, 12, 15, 18, 24, 27});
        nx.segment<3>(i) = x.segment<3>(i);
        x = nx;
      }
      else u = b.input(x);
      if(!b.fits(x, u))
      {
        x.resize(0);
        continue;
      }
    }
    LV X = LVc(x), U = LVc(u);
    TimeIndex k = g.time(0, 10);
    if(m.contacts) ++withContacts;
    switch(g.u(5))
    {
      case 0:
      case 1:
      {
        Vec r = s.stateDynamics(x, u, k);
        if(p)
        {
          g.label("process noise");
          REQUIRE(p->last.size() == 35, "size of the state given to the process noise");
          CLOSE(r, Vec(p->last + double(p->calls) * p->d), 1e-12, "noisy state");
          r = p->last;
        }
        compareState(r, D(m.f(X, U)), x, m);
        ++preds;
        break;
      }
      case 2:
      {
        Vec y = s.measureDynamics(x, u, k), want = D(m.h(X, U));
        if(q)
        {
          g.label("measurement noise");
          want += double(q->calls) * q->d.head(want.size());
        }
        REQUIRE(y.size() == want.size(), "measurement size");
        CLOSE(Vec(y.head(6)), Vec(want.head(6)), 1e-8, "IMU");
        CLOSE(Vec(y.tail(y.size() - 6)), Vec(want.tail(y.size() - 6)), 1e-9, "forces and pose");
        ++others;
        break;
      }
      case 3:
      {
        Vec a = s.computeAccelerations(x, u);
        REQUIRE(a.size() == 6, "size of the accelerations");
        Vec forces = D(m.momentaDot(X, U));
        CLOSE(D(m.momentaDot(X, U, L3(LVc(a).head<3>()), L3(LVc(a).tail<3>()))), forces, 1e-9,
              "momentum rate of the accelerations");
        ++others;
        break;
      }
      case 4:
      {
        Vec want = D(m.momentaDot(X, U));
        const uint64_t which = g.u(3); // each alone, or one after the other
        if(which != 0) CLOSE(Vec(s.getMomentaDotFromKinematics(x, u)), want, 1e-9, "momentum rate from kinematics");
        if(which != 1) CLOSE(Vec(s.getMomentaDotFromForces(x, u)), want, 1e-9, "momentum rate from forces");
        if(which == 3) CLOSE(Vec(s.getMomentaDotFromKinematics(x, u)), want, 1e-9, "momentum rate from kinematics again");
        ++others;
        break;
      }
      default:
      {
        Vec w = s.getForcesAndMoments(x, u), want = D(m.reactions(X, U));
        REQUIRE(w.size() == 6 * m.contacts, "size of the contact wrenches");
        CLOSE(w, Vec(want.head(6 * m.contacts)), 1e-9, "contact wrenches");
        CLOSE(s.getForcesAndMoments(), w, 0, "last contact wrenches");
        ++others;
      }
    }
  }
  if(preds && others && withContacts) g.nontrivial();
  g.labelIf(m.pendulum, "pendulum");
  g.labelIf(m.contacts == 2, "two contacts");
  g.labelIf(m.mass != 56.8, "other mass");
}

FACET(jacobians, 6000, 90000, "contacts and rotated flexibility")
{
  Bench b(g);
  Model & m = b.m;
  System & s = b.s;
  b.model(g.p(1, 5));
  if(g.p(3, 4)) b.configure(0);
  for(size_t n = 2 + g.u(9); n > 0; --n) b.configure(int(g.u(15)));
  Vec dx = Vec::Constant(35, 1e-6);
  for(long i = 0; i < 35; ++i)
    if(g.p(1, 4)) dx(i) = g.mag(-7, -4);
  s.setFDstep(dx);
  size_t done = 0;
  for(size_t n = 1 + g.u(2); n > 0; --n)
  {
    Vec x = b.state(), u = b.input(x), x2 = b.state(), u2 = b.input(x2);
    if(!b.fits(x, u) || !b.fits(x2, u2)) continue;
    if(x.segment<3>(3).norm() < 1e-3 || x2.segment<3>(3).norm() < 1e-3) continue;
    LV X = LVc(x), U = LVc(u), X2 = LVc(x2), U2 = LVc(u2);
    Mat Js, Jm;
    bool given = g.p(1, 3);
    if(given)
    {
      if(g.b()) s.stateDynamics(b.state(), u, 0);
      Js = s.stateDynamicsJacobian(x, u, 0);
      Jm = s.measureDynamicsJacobian(x2, u2, 3);
    }
    else
    {
      bool order = g.b();
      if(order) s.stateDynamics(x, u, 0);
      s.measureDynamics(x2, u2, 3);
      if(!order) s.stateDynamics(x, u, 0);
      order = g.b();
      if(order) Js = s.stateDynamicsJacobian();
      Jm = s.measureDynamicsJacobian();
      if(!order) Js = s.stateDynamicsJacobian();
      if(g.p(1, 4))
      {
        CLOSE(s.stateDynamicsJacobian(), Js, 0, "second computation of the state Jacobian");
        CLOSE(s.measureDynamicsJacobian(), Jm, 0, "second computation of the measurement Jacobian");
      }
    }
    REQUIRE(Js.rows() == 35 && Js.cols() == 35, "size of the state Jacobian");
    REQUIRE(Jm.rows() == m.measurementSize() && Jm.cols() == 35, "size of the measurement Jacobian");
    LM J, H, F;
    auto blocks = [&](const Mat & got, const Vec & scale, const char * what) {
      compareJacobian(got, J, F, dx, scale, 0, 24, what);
      if(m.unmodelled) compareJacobian(got, J, F, dx, scale, 24, 30, what);
      compareJacobian(got, J, F, dx, scale, 30, 35, what); // constant, and without effect when they are not estimated
    };
    elastic::derive([&](const LV & v) { return m.f(v, U); }, X, J, H);
    F = forward([&](const LV & v) { return m.f(v, U); }, X, dx);
    if(m.unmodelled)
      for(long i = 24; i < 30; ++i)
      {
        REQUIRE(std::fabs(Js(i, i) - 1) < 2e-3, "unmodelled wrench forgotten: " << Js(i, i));
        F(i, i) = J(i, i) = Js(i, i);
      }
    Vec sc = Vec(D(m.f(X, U)).cwiseAbs());
    double kin = D(m.accelerations(X, U)).cwiseAbs().maxCoeff();
    double amp = (1 + kin) * m.dt * amplification(m, x, u) + 1;
    sc.head(12).array() += amp;
    double K = m.pendulum ? m.Rfe.norm() + m.Rte.norm() : m.Kfe.norm() + m.Kte.norm();
    double V = m.pendulum ? m.Rfv.norm() + m.Rtv.norm() : m.Kfv.norm() + m.Ktv.norm();
    sc.segment(12, 12).array() += sc.segment(12, 12).maxCoeff() + (K * (1 + m.dt) + V) * (2 + amp);
    blocks(Js, sc, "state Jacobian");
    elastic::derive([&](const LV & v) { return m.h(v, U2); }, X2, J, H);
    F = forward([&](const LV & v) { return m.h(v, U2); }, X2, dx);
    Vec sy = Vec(D(m.h(X2, U2)).cwiseAbs());
    sy.head(6).array() += 10 * D(m.accelerations(X2, U2)).cwiseAbs().maxCoeff() * amplification(m, x2, u2);
    blocks(Jm, sy, "measurement Jacobian");
    ++done;
  }
  if(done && m.contacts) g.nontrivial();
}

/// the Runge-Kutta step is an approximation of a high order of the continuous motion under constant contact wrenches
FACET(rungeKutta, 4000, 60000, "contacts with force and moment")
{
  Bench b(g);
  Model & m = b.m;
  System & s = b.s;
  b.ori = 1.5;
  b.model(g.p(1, 5));
  m.contacts = 1 + int(g.u(1));
  s.setContactsNumber(unsigned(m.contacts));
  b.configure(5);
  Vec x = b.state(), u = b.input(x);
  if(!b.fits(x, u)) return;
  s.stateDynamics(x, u, 0); // fixes the velocities of the contacts
  const double dt = g.mag(-4, -3);
  IndexedVectorArray cp, co;
  for(long i = 0; i < m.contacts; ++i)
  {
    cp.setValue(u.segment<3>(48 + 12 * i), i);
    co.setValue(u.segment<3>(48 + 12 * i + 3), i);
  }
  auto tensor = [&](long i) -> M3 { return Model::inertia(LVc(u), i).cast<double>(); };
  Vector3 pos = x.segment<3>(0), vel = x.segment<3>(6), ori = x.segment<3>(3), w = x.segment<3>(9);
  Vector fc(6), tc(6);
  fc << x.segment<3>(12), x.segment<3>(18);
  tc << x.segment<3>(15), x.segment<3>(21);
  V3 c = u.segment<3>(0);
  s.iterateDynamicsRK4(c, u.segment<3>(3), u.segment<3>(6), u.segment<3>(15), u.segment<3>(24), tensor(9), tensor(18),
                       cp, co, pos, vel, fc, ori, w, tc, x.segment<3>(24), x.segment<3>(27), u.segment<3>(42),
                       u.segment<3>(45), dt);
  // reference: many midpoint steps
  LV X = LVc(x), U = LVc(u);
  const int N = 20;
  elastic::R_ h = dt / elastic::R_(N);
  double acc = D(m.accelerations(X, U)).norm();
  for(int i = 0; i < N; ++i)
  {
    LV a = m.accelerations(X, U), M = X;
    auto step = [&](LV & to, const LV & v, const LV & acc_, elastic::R_ t) {
      to.segment<3>(0) = X.segment<3>(0) + t * L3(v.segment<3>(6));
      to.segment<3>(3) = elastic::logl3(elastic::expl3(t * L3(v.segment<3>(9))) * elastic::expl3(X.segment<3>(3)));
      to.segment<3>(6) = X.segment<3>(6) + t * L3(acc_.head<3>());
      to.segment<3>(9) = X.segment<3>(9) + t * L3(acc_.tail<3>());
    };
    step(M, X, a, h / 2);
    LV am = m.accelerations(M, U), E = X;
    step(E, M, am, h);
    X = E;
  }
  // far better than an explicit Euler step
  LV a0 = m.accelerations(LVc(x), U), E = LVc(x);
  E.segment<3>(0) += dt * E.segment<3>(6);
  E.segment<3>(3) = elastic::logl3(elastic::expl3(dt * L3(E.segment<3>(9))) * elastic::expl3(E.segment<3>(3)));
  E.segment<3>(6) += dt * a0.head<3>();
  E.segment<3>(9) += dt * a0.tail<3>();
  if(acc * dt > 0.5) return;
  Vec got(12), want = Vec(D(X)).head(12);
  got << pos, ori, vel, w;
  double euler = (Vec(D(E)).head(12) - want).cwiseAbs().maxCoeff(), err = (got - want).cwiseAbs().maxCoeff();
  REQUIRE(err <= 0.2 * euler + 1e-12 * (1 + acc), "error " << err << " where an Euler step has " << euler);
  X.head(12) = LVc(got);
  Vec wr = D(m.reactions(X, U)), gw(12);
  gw << fc.head(3), tc.head(3), fc.tail(3), tc.tail(3);
  CLOSE(gw, wr, 1e-9, "contact wrenches after the step");
  if(x.segment(12, 6).cwiseAbs().minCoeff() > 1) g.nontrivial();
}
