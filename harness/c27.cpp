// C27: the kinetics observer predicts with rigid-body mechanics, and corrects as an extended Kalman filter.
#include <functional>
#include "kinetics.hpp"
using namespace kinetics;
using ref::D;
using ref::L;
using ref::LVc;

namespace
{
struct Robot : Driver
{
  M3 Ic = M3::Identity();
  Robot(Gen & g_, int nc, int ni) : Driver(g_, nc, ni) { jumps = false; }
  M3 inertiaAt(const V3 & c) const { return Ic + m.mass * (c.squaredNorm() * M3::Identity() - c * c.transpose()); }
  void body()
  {
    Vec d(3);
    for(int i = 0; i < 3; ++i) d(i) = g.mag(-0.5, 1.5);
    M3 R = rotmat(g, 3);
    Ic = R * d.asDiagonal() * R.transpose();
    Ic = (0.5 * (Ic + Ic.transpose())).eval();
  }
  Vec freeState(double v)
  {
    Vec x = Vec::Zero(m.size());
    x.segment<3>(0) = g.v3(g.p(1, 4) ? 100 : 1);
    x.segment<4>(3) = rot::toQuat(rotmat(g, 3.1), g.p(1, 4)).coeffs();
    x.segment<3>(7) = g.v3(v), x.segment<3>(10) = g.v3(v);
    if(m.bias)
      for(int i = 0; i < m.ni; ++i) x.segment<3>(m.biasAt(i)) = g.v3(0.1);
    if(m.unmodelled || g.p(1, 4)) x.segment<6>(m.wrenchAt()) = vec6(g, 30, 5); // known when it is not estimated
    for(int k = 0; k < m.nc; ++k) x(m.contactAt(k) + 6) = 1;
    return x;
  }
  /// pose in the world of a frame of the robot
  static void world(const Vec & x, const Local & l, V3 & p, M3 & R)
  {
    M3 A = D(qmat(L4(LVc(x).segment<4>(3))));
    p = x.segment<3>(0) + A * l.p;
    R = A * l.R;
  }
};
} // namespace

FACET(accelerations, 12000, 80000, "the robot rotates, its centre of mass is moving off the origin, and a contact is loaded")
{
  Robot h(g, int(g.i(0, 4)), int(g.i(0, 2)));
  h.samplingTime(g.mag(-3, -1));
  h.mass(g.mag(-0.5, 2.5));
  h.body();
  V3 c = g.v3(0.5);
  if(g.p(5, 6)) h.inertia(h.inertiaAt(c), true, M3(g.b() ? M3(M3::Zero()) : M3(g.spd(3, 1, 0.1) - g.spd(3, 1, 0.1))));
  else c.setZero(), h.m.I = M3::Identity();
  h.com(c, g.b() ? 2 : 0, g.v3(1), g.v3(5));
  if(g.b()) h.momentum(g.v3(5), g.b(), g.v3(5));
  if(g.b()) h.added(g.v3(100), g.v3(20));
  h.o.setWithUnmodeledWrench(h.m.unmodelled = g.b());
  h.o.setWithGyroBias(h.m.bias = g.b());
  Vec x = h.freeState(5);
  while(g.p(2, 3) && !h.contactList(false).empty())
  {
    std::vector<int> l = h.contactList(false);
    bool st[4] = {false, false, false, false};
    M3 K[4];
    int k = h.add(g.b() ? -1 : l[g.u(l.size() - 1)], g.v3(1), rotmat(g, 3), nullptr, nullptr, st, K);
    h.contact(k, vec6(g, 100, 10), g.b(), -3, 0);
  }
  for(int k = 0; k < h.m.nc; ++k)
  { // the wrenches of absent contacts are ignored
    x.segment<3>(h.m.contactAt(k)) = g.v3(1);
    x.segment<4>(h.m.contactAt(k) + 3) = rot::toQuat(rotmat(g, 3), g.p(1, 4)).coeffs();
    x.segment<6>(h.m.contactAt(k) + 7) = vec6(g, 200, 50);
  }
  if(g.p(1, 4))
  { // a removed contact does not push anymore
    std::vector<int> l = h.contactList();
    if(!l.empty()) h.remove(l[g.u(l.size() - 1)]), g.label("removed");
  }
  h.o.setStateVector(x, g.b());
  L3 a, al;
  h.m.accelerations(LVc(x), a, al);
  Kine k = h.o.estimateAccelerations();
  REQUIRE(k.linAcc.isSet() && k.angAcc.isSet(), "accelerations are not set");
  double scale = h.m.amplification() * (1 + double(a.norm()) + double(al.norm()) + 100 / h.m.mass), t = 1e-12 * scale;
  V3 la = D(a), aa = D(al);
  REQUIRE((k.linAcc() - la).norm() <= t, "linear acceleration " << k.linAcc().transpose() << " expected " << la.transpose());
  REQUIRE((k.angAcc() - aa).norm() <= t, "angular acceleration " << k.angAcc().transpose() << " expected " << aa.transpose());
  Kine now = h.o.getKinematics();
  CLOSE(Vec(now.linAcc()), Vec(k.linAcc()), 0, "acceleration afterwards");
  CLOSE(Vec(now.position()), Vec(x.segment<3>(0)), 0, "position");
  CLOSE(Vec(now.linVel()), Vec(x.segment<3>(7)), 0, "velocity");
  // a frame of the robot
  Local f;
  f.p = g.v3(2), f.v = g.v3(2), f.a = g.v3(2), f.w = g.v3(2), f.R = rotmat(g, 3.1);
  V3 fal = g.v3(2);
  Kine loc = pose(g, f.p, f.R);
  loc.linVel = f.v, loc.angVel = f.w, loc.linAcc = f.a, loc.angAcc = fal;
  Kine got = h.o.getKinematicsOf(loc);
  LM3 R = qmat(L4(LVc(x).segment<4>(3)));
  L3 p = R * l3(f.p), v = R * l3(f.v), w = LVc(x).segment<3>(10), wl = R * l3(f.w);
  L3 P = LVc(x).segment<3>(0) + p, V = LVc(x).segment<3>(7) + w.cross(p) + v, W = w + wl;
  L3 A = a + al.cross(p) + w.cross(w.cross(p)) + 2 * w.cross(v) + R * l3(f.a), AL = al + w.cross(wl) + R * l3(fal);
  CLOSE(Vec(got.position()), Vec(D(P)), 1e-12, "position of a frame");
  CLOSE(M3(got.orientation.toMatrix3()), M3(D(LM3(R * lm3(f.R)))), 1e-12, "orientation of a frame");
  CLOSE(Vec(got.linVel()), Vec(D(V)), 1e-12, "velocity of a frame");
  CLOSE(Vec(got.angVel()), Vec(D(W)), 1e-12, "angular velocity of a frame");
  REQUIRE((got.linAcc() - V3(D(A))).norm() <= 10 * t, "acceleration of a frame " << got.linAcc().transpose() << " expected " << D(A).transpose());
  REQUIRE((got.angAcc() - V3(D(AL))).norm() <= 10 * t, "angular acceleration of a frame");
  if(x.segment<3>(10).norm() > 0.1 && c.norm() > 0.01 && h.m.cd.norm() > 0.01 && !h.contactList().empty()) g.nontrivial();
}

namespace
{
struct Filter : Robot
{
  Vec x, dx;
  Mat P, Q;
  int estimations = 0, compared = 0;
  bool acc = false, moved = false;
  Filter(Gen & g_, int nc, int ni) : Robot(g_, nc, ni)
  {
    samplingTime(g.mag(-3, -1.7));
    mass(g.real(5, 80));
    reach = 0.5;
    body();
    dx = Vec::Constant(m.tsize(), 1e-6);
    m.unmodelled = g.b(), m.bias = g.b();
    if(m.unmodelled || g.b()) o.setWithUnmodeledWrench(m.unmodelled); // not estimated by default
    if(!m.bias || g.b()) o.setWithGyroBias(m.bias); // estimated by default
    if(g.p(1, 3)) o.setWithAccelerationEstimation(acc = g.b());
    Q = cov(g, m.tsize(), -8, -4);
    o.setProcessNoiseCovarianceMat(Q);
    restart();
    inputs(true);
  }
  void covariance()
  {
    P = cov(g, m.tsize(), -6, -3);
    o.setStateCovarianceMat(P);
  }
  void restart()
  {
    x = freeState(0.5);
    if(!m.bias)
      for(int i = 0; i < m.ni; ++i) x.segment<3>(m.biasAt(i)).setZero();
    for(int k : contactList()) place(k, x, m.contacts[size_t(k)].kin);
    o.setStateVector(x, false);
    covariance();
    g.label("state given");
  }
  /// the rest pose of a contact close to where the contact is, and any wrench
  void place(int k, Vec & v, const Local & l)
  {
    V3 p;
    M3 R;
    world(v, l, p, R);
    long a = m.contactAt(k);
    v.segment<3>(a) = p + g.v3(0.05);
    v.segment<4>(a + 3) = rot::toQuat(pbt::expm(g.axis() * g.real(0, g.p(1, 4) ? 2.0 : 0.3)) * R, g.p(1, 4)).coeffs();
    v.segment<6>(a + 7) = vec6(g, 50, 5);
  }
  void inputs(bool all)
  {
    std::vector<std::function<void()>> calls;
    if(all || g.b())
    {
      V3 cd = g.v3(0.5), c = tC == 0 ? g.v3(0.3) : V3(m.c + m.dt * cd), cdd = g.v3(2);
      if(c.norm() > 0.6) c *= 0.5;
      int given = all && g.p(2, 3) ? 2 : int(g.u(2));
      calls.push_back([=] {
        com(c, given, cd, cdd);
        if(m.cdd.norm() > 300) com(c, 2, cd, cdd); // derivatives of differences: give them
      });
      M3 I = inertiaAt(c), Id = M3(g.spd(3, 0.7, 0.1) - g.spd(3, 0.7, 0.1));
      bool rate = (all && g.p(2, 3)) || g.b();
      calls.push_back([=] {
        inertia(I, rate, Id);
        if(m.Id.norm() > 300) inertia(I, true, M3(M3::Zero()));
      });
    }
    if(g.p(1, 3))
    {
      V3 s = tS == 0 ? g.v3(2) : V3(m.s + m.dt * g.v3(3)), sd = g.v3(3);
      bool rate = g.b();
      calls.push_back([=] { momentum(s, rate, sd); });
    }
    if(g.p(1, 4))
    {
      V3 F = g.v3(50), T = g.v3(10);
      calls.push_back([=] { added(F, T); });
    }
    while(!calls.empty())
    { // in any order
      size_t i = g.u(calls.size() - 1);
      calls[i]();
      calls.erase(calls.begin() + long(i));
    }
  }
  void addOne()
  {
    std::vector<int> l = contactList(false);
    if(l.empty()) return;
    bool st[4] = {g.b(), g.b(), g.b(), g.b()};
    M3 K[4] = {elastic::gain(g, 1, 4), elastic::gain(g, 0, 2), elastic::gain(g, 0, 2.5), elastic::gain(g, -1, 1)};
    M12 ci = cov(g, 12, -6, -3), cp = cov(g, 12, -8, -4);
    Local f;
    f.p = g.v3(1), f.v = g.v3(0.3), f.w = g.v3(0.3), f.R = rotmat(g, 3.1);
    int k = l[g.u(l.size() - 1)];
    V3 p;
    M3 R;
    world(x, f, p, R);
    add(k, p + g.v3(0.05), pbt::expm(g.axis() * g.real(0, g.p(1, 4) ? 2.0 : 0.3)) * R, &ci, &cp, st, K);
    // the book-keeping of the covariances is decided by C26
    x = o.getCurrentStateVector();
    P = o.getStateCovarianceMat();
    Q = o.getEKF().getQ();
    next = &f;
    contact(k, vec6(g, 50, 5), g.b(), -4, 0);
    next = nullptr;
  }
  void removeOne()
  {
    std::vector<int> l = contactList();
    if(!l.empty()) remove(l[g.u(l.size() - 1)]);
  }
  bool tame(const Vec & v) const
  {
    if(!v.allFinite() || v.segment<3>(0).norm() > 500 || v.segment<6>(7).norm() > 20) return false;
    if(m.ni && v.segment(13, 3 * m.ni).cwiseAbs().maxCoeff() > 50) return false;
    if(v.segment<6>(m.wrenchAt()).norm() > 3000) return false;
    for(int k : contactList())
    {
      const Local & l = m.contacts[size_t(k)].kin;
      V3 p;
      M3 R;
      world(v, l, p, R);
      M3 rest = D(qmat(L4(LVc(v).segment<4>(m.contactAt(k) + 3))));
      if(pbt::logm(R * rest.transpose()).norm() > 2.6 || v.segment<6>(m.contactAt(k) + 7).norm() > 1e5) return false;
    }
    return true;
  }
  bool estimate()
  {
    bool late = g.b(); // whatever is given first begins the iteration
    if(!late) inputs(false);
    for(int k : contactList())
    {
      if(kData != kEst && m.contacts[size_t(k)].fresh && g.b()) continue; // added since the last estimation: the first kinematics are used
      Vec w = x.segment<6>(m.contactAt(k) + 7);
      contact(k, w + vec6(g, 20, 3), g.p(2, 3), -4, 0);
    }
    if(late) inputs(false);
    if(!tame(x)) restart();
    const Vec x0 = x;
    LV xb = m.predict(LVc(x0));
    if(!tame(D(xb))) return false;
    target = xb;
    while(g.p(2, 3) && imu(g.v3(0.5), g.v3(0.1), -4, 0))
      ;
    target.resize(0);
    if(g.p(1, 3))
      absolutePose(V3(Vec(D(xb)).head<3>()) + g.v3(0.1), pbt::expm(g.v3(0.2)) * M3(D(qmat(L4(xb.segment<4>(3))))), -4, 0);
    if(kData == kEst) return true; // nothing was given
    Vec y = measurement();
    Mat R = noise();
    Vec got = o.update();
    ++kEst, ++estimations;
    full = false;
    compareBook();
    CLOSE(o.getCurrentStateVector(), got, 0, "state after the update");
    const so::ExtendedKalmanFilter & f = o.getEKF();
    // ---- prediction
    L3 a, al;
    m.accelerations(LVc(x0), a, al);
    double amp = m.amplification(), am = 1 + double(a.norm() + al.norm()) + 100 / m.mass;
    Vec pred = f.getLastPrediction(), want = D(xb);
    REQUIRE(pred.size() == m.size(), "size of the prediction");
    align(pred, want);
    kinematics(pred, want, 1e-12 * (1 + amp * am * m.dt), "predicted");
    for(long i = 13; i < m.contactAt(0); ++i) REQUIRE(pred(i) == x0(i), "entry " << i << " is constant: " << pred(i));
    double stiff = 0;
    for(int k : contactList())
    {
      const Contact & c = m.contacts[size_t(k)];
      long i = m.contactAt(k);
      CLOSE(Vec(pred.segment<3>(i)), Vec(x0.segment<3>(i)), 0, "predicted rest position");
      CLOSE(Vec(pred.segment<4>(i + 3)), Vec(want.segment<4>(i + 3)), 1e-14, "predicted rest orientation");
      double s = (c.K.norm() + c.D.norm() + c.Kr.norm() + c.Dr.norm()) * (1 + amp * am * m.dt + x0.segment<3>(0).norm() + x0.segment<6>(7).norm());
      stiff += s;
      REQUIRE((pred.segment<6>(i + 7) - want.segment<6>(i + 7)).norm() <= 1e-12 * s,
              "predicted wrench of contact " << k << ": " << pred.segment<6>(i + 7).transpose() << " expected "
                                             << want.segment<6>(i + 7).transpose());
    }
    // ---- predicted measurement, from the state that was predicted
    LV xp = LVc(pred);
    Vec py = f.getLastPredictedMeasurement(), Yb = D(m.measure(xp));
    REQUIRE(py.size() == Yb.size(), "size of the predicted measurement " << py.size() << " expected " << Yb.size());
    m.accelerations(xp, a, al);
    double am1 = 1 + double(a.norm() + al.norm()) + 100 / m.mass + stiff * 1e-3;
    if(m.pose && py.tail<4>().dot(Yb.tail<4>()) < 0) py.tail<4>() = -py.tail<4>();
    REQUIRE((py - Yb).norm() <= 1e-12 * (amp * am1 + Yb.norm()) * 3,
            "predicted measurement " << py.transpose() << "\n expected " << Yb.transpose());
    // ---- Jacobians
    Mat A = f.getA(), C = f.getC();
    if(g.p(1, 3)) jacobians(A, C, LVc(x0), xp, amp, am, am1, stiff);
    // ---- correction
    std::vector<bool> act = m.active();
    LV dy = m.mdiff(LVc(y), LVc(py));
    ref::Update up = ref::update(L(A), L(C), L(Q), L(R), L(P), dy);
    Vec sig = (A.cwiseAbs() * P.cwiseAbs() * A.cwiseAbs().transpose() + Q.cwiseAbs()).diagonal().cwiseSqrt();
    double kappa = 1, nu = 0;
    if(dy.size())
    {
      Vec sy = (C.cwiseAbs() * (sig * sig.transpose()) * C.cwiseAbs().transpose() + R.cwiseAbs()).diagonal().cwiseSqrt();
      Mat Sn = D(up.S);
      for(long i = 0; i < sy.size(); ++i)
        for(long j = 0; j < sy.size(); ++j) Sn(i, j) /= sy(i) * sy(j);
      kappa = 1 / std::max(1e-300, Eigen::SelfAdjointEigenSolver<Mat>(0.5 * (Sn + Sn.transpose())).eigenvalues()(0));
      nu = Vec(D(dy)).cwiseQuotient(sy).norm();
    }
    double t = 1e-13 * std::pow(kappa, 1.5);
    x = got;
    Mat gotP = o.getStateCovarianceMat();
    if(t < 1e-4 && nu < 1e9)
    {
      Mat wantP = D(up.P);
      for(long i = 0; i < m.tsize(); ++i)
        for(long j = 0; j < m.tsize(); ++j)
          if(act[size_t(i)] && act[size_t(j)])
            REQUIRE(std::fabs(gotP(i, j) - wantP(i, j)) <= t * sig(i) * sig(j),
                    "covariance of " << i << ", " << j << ": " << gotP(i, j) << " expected " << wantP(i, j) << " sigmas "
                                     << sig(i) << ' ' << sig(j) << " t " << t);
      LV d = up.dx;
      LV err = m.diff(LVc(got), m.sum(xp, d));
      if(Vec(D(d)).segment<3>(3).norm() < 6)
        for(long i = 0; i < m.tsize(); ++i)
          if(act[size_t(i)])
            REQUIRE(std::fabs(double(err(i))) <= t * (1 + nu) * sig(i) + 1e-14 * (1 + pred.cwiseAbs().head(m.contactAt(0)).maxCoeff() + std::fabs(double(d(i))) + scaleOf(i, pred)),
                    "estimate of " << i << " differs by " << double(err(i)) << " correction " << double(d(i)) << " sigma " << sig(i));
      ++compared;
    }
    else g.label("ill conditioned");
    unitOrientations(m, got, 1e-12);
    P = gotP;
    if(!m.bias)
      for(int i = 0; i < m.ni; ++i) CLOSE(Vec(got.segment<3>(m.biasAt(i))), Vec(x0.segment<3>(m.biasAt(i))), 0, "bias that is not estimated");
    if(!m.unmodelled) CLOSE(Vec(got.segment<6>(m.wrenchAt())), Vec(x0.segment<6>(m.wrenchAt())), 0, "wrench that is not estimated");
    readings(got);
    if(!P.allFinite() || !tame(x) || P.cwiseAbs().maxCoeff() > 1e6 || !(t < 1e-4)) restart();
    return true;
  }
  double scaleOf(long i, const Vec & v) const
  {
    if(i < m.tContact(0)) return 0;
    long k = (i - m.tContact(0)) / 12;
    return v.segment<13>(m.contactAt(int(k))).cwiseAbs().maxCoeff();
  }
  /// what is read is the estimate
  void readings(const Vec & v)
  {
    Kine k = o.getKinematics();
    CLOSE(Vec(k.position()), Vec(v.segment<3>(0)), 0, "position");
    CLOSE(Vec(k.linVel()), Vec(v.segment<3>(7)), 0, "velocity");
    CLOSE(Vec(k.angVel()), Vec(v.segment<3>(10)), 0, "angular velocity");
    CLOSE(M3(k.orientation.toMatrix3()), M3(D(qmat(L4(LVc(v).segment<4>(3))))), 1e-13, "orientation");
    REQUIRE(k.linAcc.isSet() == acc && k.angAcc.isSet() == acc, "accelerations set: " << k.linAcc.isSet() << " expected " << acc);
    if(acc)
    {
      L3 a, al;
      m.accelerations(LVc(v), a, al);
      double t = 1e-11 * m.amplification() * (1 + double(a.norm() + al.norm()) + 100 / m.mass + v.tail(v.size() - 13).norm() / m.mass);
      REQUIRE((k.linAcc() - V3(D(a))).norm() <= t, "estimated acceleration " << k.linAcc().transpose() << " expected " << D(a).transpose());
      REQUIRE((k.angAcc() - V3(D(al))).norm() <= t, "estimated angular acceleration");
    }
    CLOSE(Vec(o.getUnmodeledWrench()), Vec(v.segment<6>(m.wrenchAt())), 0, "unmodelled wrench");
    for(int i : contactList())
    {
      CLOSE(Vec(o.getContactWrench(i)), Vec(v.segment<6>(m.contactAt(i) + 7)), 0, "contact wrench");
      CLOSE(Vec(o.getContactPosition(i).position()), Vec(v.segment<3>(m.contactAt(i))), 0, "contact position");
    }
  }
  void align(Vec & got, const Vec & want) const
  {
    if(got.segment<4>(3).dot(want.segment<4>(3)) < 0) got.segment<4>(3) = -got.segment<4>(3);
    for(int k : contactList())
    {
      long i = m.contactAt(k) + 3;
      if(got.segment<4>(i).dot(want.segment<4>(i)) < 0) got.segment<4>(i) = -got.segment<4>(i);
    }
  }
  void kinematics(const Vec & got, const Vec & want, double t, const char * what)
  {
    CLOSE(Vec(got.segment<3>(0)), Vec(want.segment<3>(0)), t, (std::string(what) + " position").c_str());
    CLOSE(Vec(got.segment<4>(3)), Vec(want.segment<4>(3)), t, (std::string(what) + " orientation").c_str());
    CLOSE(Vec(got.segment<3>(7)), Vec(want.segment<3>(7)), t, (std::string(what) + " velocity").c_str());
    CLOSE(Vec(got.segment<3>(10)), Vec(want.segment<3>(10)), t, (std::string(what) + " angular velocity").c_str());
  }
  void jacobians(const Mat & A, const Mat & C, const LV & x0, const LV & xb, double amp, double am, double am1, double stiff)
  {
    std::vector<bool> act = m.active();
    long n = m.tsize();
    REQUIRE(A.rows() == n && A.cols() == n && C.cols() == n, "sizes of the Jacobians");
    LV f0 = m.predict(x0), h0 = m.measure(xb);
    Vec sA = Vec::Constant(n, 10 + amp * am + double(x0.head(13).norm()));
    for(int k = 0; k < m.nc; ++k) sA.segment<6>(m.tContact(k) + 6).array() += stiff;
    auto fn = [&](const LV & d) { return m.diff(m.predict(m.sum(x0, d)), f0); };
    auto hn = [&](const LV & d) { return m.mdiff(m.measure(m.sum(xb, d)), h0); };
    compare(A, act, fn, sA, true, "A");
    LV d0 = m.mdiff(h0, h0);
    REQUIRE(C.rows() == d0.size(), "rows of C " << C.rows() << " expected " << d0.size());
    Vec sC = Vec::Constant(d0.size(), 10 + amp * am1 + double(h0.norm()));
    if(C.rows()) compare(C, act, hn, sC, false, "C");
    g.label("Jacobians compared");
  }
  template<class Fn>
  void compare(const Mat & got, const std::vector<bool> & act, const Fn & fn, const Vec & scale, bool rows, const char * what)
  {
    for(long c = 0; c < got.cols(); ++c)
    {
      if(!act[size_t(c)]) continue;
      LV d = LV::Zero(got.cols());
      const R_ e = 1e-6L;
      d(c) = e;
      LV p = fn(d);
      d(c) = -e;
      LV q = fn(d);
      d(c) = dx(c);
      LV J = (p - q) / (2 * e), F = fn(d) / R_(dx(c));
      for(long r = 0; r < got.rows(); ++r)
      {
        if(rows && !act[size_t(r)]) continue;
        double tol = 2 * std::fabs(double(F(r) - J(r))) + 1e-14 * (1 + scale(r)) / dx(c) + 1e-7 * std::fabs(double(J(r))) + 1e-8;
        REQUIRE(std::fabs(got(r, c) - double(J(r))) <= tol, what << " (" << r << ',' << c << ") got " << got(r, c)
                                                                 << " expected " << double(J(r)) << " tolerance " << tol);
      }
    }
  }
  void options()
  {
    switch(g.u(7))
    {
      case 0: o.setWithUnmodeledWrench(m.unmodelled = g.b()); break;
      case 1:
        o.setWithGyroBias(m.bias = g.b());
        if(!m.bias)
        {
          for(int i = 0; i < m.ni; ++i) x.segment<3>(m.biasAt(i)).setZero();
          o.setStateVector(x, false);
        }
        break;
      case 2:
        o.setWithAccelerationEstimation(acc = g.b());
        break;
      case 3:
        for(long i = 0; i < dx.size(); ++i) dx(i) = g.mag(-7, -4);
        o.setFiniteDifferenceStep(dx);
        break;
      case 4: o.useFiniteDifferencesJacobians(g.b()); break;
      case 5:
        Q = cov(g, m.tsize(), -8, -4);
        o.setProcessNoiseCovarianceMat(Q);
        break;
      case 6: covariance(); break;
      default: defaults(-4, 0); break;
    }
  }
};
} // namespace

FACET(estimation, 4500, 20000, "at least two estimations compared, with a contact and a sensor")
{
  Filter h(g, int(g.i(0, 3)), int(g.i(0, 2)));
  h.defaults(-4, 0);
  size_t n = 3 + g.many(g.thorough ? 40 : 15, 80);
  bool loaded = false;
  for(size_t i = 0; i < n; ++i)
  {
    switch(g.u(6))
    {
      case 0: h.addOne(); break;
      case 1:
        if(g.p(1, 3)) h.removeOne();
        else if(g.p(1, 2)) h.removeOne(), h.addOne();
        break;
      case 2: h.options(); break;
      default:
        loaded |= !h.contactList().empty();
        if(!h.estimate()) return;
    }
  }
  if(h.compared >= 2 && loaded) g.nontrivial();
}

FACET(equilibrium, 3600, 16000, "at least one contact and one sensor")
{
  int nc = int(g.i(0, 3)), ni = int(g.i(0, 2));
  Robot h(g, nc, ni);
  Model & m = h.m;
  h.samplingTime(g.mag(-3.5, -2.5));
  h.mass(g.real(10, 80));
  h.body();
  V3 c = g.v3(0.3);
  h.com(c, 2, V3(V3::Zero()), V3(V3::Zero()));
  h.inertia(h.inertiaAt(c), true, M3(M3::Zero()));
  h.o.setWithUnmodeledWrench(m.unmodelled = g.b());
  h.o.setWithGyroBias(m.bias = g.b());
  h.o.setProcessNoiseCovarianceMat(cov(g, m.tsize(), -8, -4));
  Vec x = h.freeState(0);
  // contacts: any forces, the torques that the stiffness allows
  V3 F = V3::Zero(), T = V3::Zero(); // wrench needed from elsewhere
  M3 R0 = D(qmat(L4(LVc(x).segment<4>(3))));
  V3 up = R0.transpose() * V3(0, 0, 9.8 * m.mass);
  F = up - x.segment<3>(m.wrenchAt());
  T = c.cross(up) - x.segment<3>(m.wrenchAt() + 3);
  std::vector<Local> at((size_t(nc)));
  for(int k = 0; k < nc; ++k)
  {
    Local & f = at[size_t(k)];
    f.p = g.v3(1), f.R = rotmat(g, 3.1);
    M3 K[4] = {elastic::gain(g, 2, 4.5), elastic::gain(g, 0, 2), elastic::gain(g, 1, 2.5), elastic::gain(g, -1, 1)};
    bool st[4] = {true, true, true, true};
    bool last = k == nc - 1;
    V3 force = last ? V3(f.R.transpose() * F) : V3(f.R.transpose() * (F / 2 + g.v3(50)));
    double lim = 0.2 * Eigen::SelfAdjointEigenSolver<M3>(0.5 * (K[2] + K[2].transpose())).eigenvalues()(0);
    V3 rest = T - f.p.cross(V3(f.R * force));
    V3 torque = f.R.transpose() * rest;
    if(!last || torque.norm() > lim) torque = lim * V3(g.v3(0.5));
    F -= f.R * force;
    T -= f.p.cross(V3(f.R * force)) + f.R * torque;
    V3 p;
    M3 R;
    Robot::world(x, f, p, R);
    V3 v = K[2].inverse() * (-2 * R * torque); // vector part of the quaternion of the error
    double s = v.norm();
    M3 E = pbt::expm(s < 1e-12 ? V3(2 * v) : V3(v * (2 * std::asin(s) / s)));
    M12 ci = cov(g, 12, -6, -3), cp = cov(g, 12, -8, -4);
    V3 restP = p + K[0].inverse() * R * force;
    M3 restR = E.transpose() * R;
    h.add(k, restP, restR, &ci, &cp, st, K);
    long i = m.contactAt(k);
    x.segment<3>(i) = restP;
    x.segment<4>(i + 3) = rot::toQuat(restR, false).coeffs();
    x.segment<3>(i + 7) = force, x.segment<3>(i + 10) = torque;
  }
  h.added(F, T); // what remains is known
  h.o.setStateVector(x, false);
  h.o.setStateCovarianceMat(cov(g, m.tsize(), -6, -3));
  bool any = false;
  size_t n = 2 + g.many(g.thorough ? 40 : 15, 80);
  std::vector<Local> imuAt((size_t(ni)));
  for(Local & f : imuAt) f.p = g.v3(1), f.R = rotmat(g, 3.1);
  for(size_t step = 0; step < n; ++step)
  {
    h.begin();
    h.com(c, 2, V3(V3::Zero()), V3(V3::Zero()));
    for(int k = 0; k < nc; ++k)
    {
      Contact & ct = m.contacts[size_t(k)];
      ct.kin = at[size_t(k)];
      Kine l = pose(g, at[size_t(k)].p, at[size_t(k)].R);
      if(g.b()) l.linVel = V3(V3::Zero());
      if(g.b()) l.angVel = V3(V3::Zero());
      if(g.b()) h.o.updateContactWithNoSensor(l, unsigned(k));
      else h.o.updateContactWithWrenchSensor(v6(Vec(x.segment<6>(m.contactAt(k) + 7))), M6(cov(g, 6, -4, 0)), l, unsigned(k)), any = true;
    }
    for(int k = 0; k < ni; ++k)
      if(g.b())
      {
        const Local & f = imuAt[size_t(k)];
        Kine l = pose(g, f.p, f.R);
        V3 a = f.R.transpose() * R0.transpose() * V3(0, 0, 9.8), w = V3::Zero();
        if(m.bias) w = x.segment<3>(m.biasAt(k));
        h.o.setIMU(a, w, cov(g, 3, -4, 0), cov(g, 3, -4, 0), l, k);
        any = true;
      }
    if(g.b()) h.o.setAbsolutePoseSensor(pose(g, x.head<3>(), R0), M6(cov(g, 6, -4, 0))), any = true;
    Vec got = h.o.update();
    ++h.kEst;
    LV e = m.diff(LVc(got), LVc(x));
    REQUIRE(got.allFinite(), "estimate at the equilibrium");
    for(long i = 0; i < e.size(); ++i)
    {
      double s = i < m.tWrench() ? 1 : 1e4;
      REQUIRE(std::fabs(double(e(i))) <= 1e-7 * s, "entry " << i << " leaves the equilibrium by " << double(e(i)) << " at step " << step);
    }
  }
  if(nc > 0 && any) g.nontrivial();
}

namespace
{
/// access to what a derived observer can use
struct Derived : so::KineticsObserver
{
  using so::KineticsObserver::KineticsObserver;
  using so::KineticsObserver::getMeasurementNoise;
  using so::KineticsObserver::getProcessNoise;
  using so::KineticsObserver::measureDynamics;
  using so::KineticsObserver::resetMeasurementNoise;
  using so::KineticsObserver::resetProcessNoise;
  using so::KineticsObserver::setMeasurementNoise;
  using so::KineticsObserver::setProcessNoise;
  using so::KineticsObserver::stateDynamics;
};
/// adds a known vector
struct Known : so::NoiseBase
{
  Vec v;
  so::Vector getNoisy(const so::Vector & x) override { return x + v; }
};
} // namespace

FACET(noise, 3000, 20000, "a process noise and a measurement noise, with at least one sensor")
{
  int ni = int(g.i(0, 2));
  Derived o(2, unsigned(ni));
  Model m(2, ni);
  Vec x = Vec::Zero(m.size());
  x.segment<3>(0) = g.v3(1);
  x.segment<4>(3) = rot::toQuat(rotmat(g, 3), false).coeffs();
  x.segment<6>(7) = vec6(g, 1, 1);
  for(int k = 0; k < 2; ++k) x(m.contactAt(k) + 6) = 1;
  o.setStateVector(x);
  o.setSamplingTime(g.mag(-3, -1));
  o.setCenterOfMass(g.v3(0.2), g.v3(0.2), g.v3(1));
  int sensors = 0;
  for(int i = 0; i < ni; ++i)
    if(g.b()) o.setIMU(g.v3(10), g.v3(1), pose(g, g.v3(1), rotmat(g, 3)), i), ++sensors;
  bool abs = sensors == 0 || g.b();
  if(abs) o.setAbsolutePoseSensor(pose(g, g.v3(1), rotmat(g, 3)));
  o.update();
  // the next measurements
  for(int i = 0; i < ni; ++i)
    if(g.b()) o.setIMU(g.v3(10), g.v3(1), pose(g, g.v3(1), rotmat(g, 3)), i), ++sensors;
  so::Vector s0 = o.stateDynamics(x, so::Vector(), 0);
  Known a, b;
  a.v = g.vec(m.size(), 1);
  bool process = g.p(3, 4);
  if(process)
  {
    o.setProcessNoise(&a);
    REQUIRE(o.getProcessNoise() == &a, "process noise");
    CLOSE(Vec(o.stateDynamics(x, so::Vector(), 0)), Vec(s0 + a.v), 1e-15, "noisy state");
    o.resetProcessNoise();
  }
  REQUIRE(o.getProcessNoise() == nullptr, "no process noise");
  CLOSE(Vec(o.stateDynamics(x, so::Vector(), 0)), Vec(s0), 0, "state without noise");
  // measurement: one IMU at a known place
  Derived q(1, 1);
  q.setIMU(g.v3(10), g.v3(1), pose(g, g.v3(1), rotmat(g, 3)), 0);
  q.update();
  q.setIMU(g.v3(10), g.v3(1), pose(g, g.v3(1), rotmat(g, 3)), 0);
  so::Vector z = q.getCurrentStateVector(), y0 = q.measureDynamics(z, so::Vector(), 2);
  REQUIRE(y0.size() == 6, "size of the measurement");
  b.v = g.vec(6, 1);
  q.setMeasurementNoise(&b);
  REQUIRE(q.getMeasurementNoise() == &b, "measurement noise");
  CLOSE(Vec(q.measureDynamics(z, so::Vector(), 2)), Vec(y0 + b.v), 1e-15, "noisy measurement");
  q.resetMeasurementNoise();
  REQUIRE(q.getMeasurementNoise() == nullptr, "no measurement noise");
  CLOSE(Vec(q.measureDynamics(z, so::Vector(), 2)), Vec(y0), 0, "measurement without noise");
  if(process && sensors > 0) g.nontrivial();
}
