// C26: the kinetics observer's state space is a consistent manifold; parts of the state and of the covariances.
#include "kinetics.hpp"
using namespace kinetics;
using ref::D;
using ref::LVc;
typedef so::KineticsObserver Obs;

namespace
{
Vec maskV(Vec v, const std::vector<bool> & m)
{
  for(long i = 0; i < v.size(); ++i)
    if(!m[size_t(i)]) v(i) = 0;
  return v;
}
Mat maskM(Mat a, const std::vector<bool> & m)
{
  for(long i = 0; i < a.rows(); ++i)
    if(!m[size_t(i)]) a.row(i).setZero(), a.col(i).setZero();
  return a;
}
void randomOrientation(Gen & g, Vec & x, long at)
{
  rot::Q q = rot::toQuat(rot::anyRotation(g), g.p(1, 4));
  x.segment<4>(at) = q.coeffs();
}
Vec randomState(Gen & g, const Model & m)
{
  Vec x = g.vec(m.size(), 5);
  x.segment<6>(m.wrenchAt()) *= 100;
  randomOrientation(g, x, 3);
  for(int k = 0; k < m.nc; ++k)
  {
    x.segment<6>(m.contactAt(k) + 7) *= 100;
    randomOrientation(g, x, m.contactAt(k) + 3);
  }
  return x;
}
Vec randomTangent(Gen & g, const Model & m)
{
  Vec d = g.vec(m.tsize(), 5);
  auto r = [&](long i) { d.segment<3>(i) = g.axis() * (g.p(1, 3) ? g.mag(-9, -1) : g.real(0, 3.1)); };
  r(3);
  for(int k = 0; k < m.nc; ++k) r(m.tContact(k) + 3);
  return d;
}
/// library state orientation blocks are compared up to the sign of the quaternion
void sameState(const Model & m, const Vec & a, const Vec & b, double tol, const char * what)
{
  REQUIRE(a.size() == m.size() && b.size() == m.size(), what << ": size " << a.size() << " expected " << m.size());
  std::vector<bool> p = m.present();
  Vec x = maskV(a, p), y = maskV(b, p);
  auto fix = [&](long i) {
    if(x.segment<4>(i).dot(y.segment<4>(i)) < 0) x.segment<4>(i) = -x.segment<4>(i);
  };
  fix(3);
  for(int k = 0; k < m.nc; ++k) fix(m.contactAt(k) + 3);
  CLOSE(x, y, tol, what);
}
} // namespace

FACET(arithmetics, 24000, 96000, "at least one contact and a rotation increment above 0.1 rad")
{
  Model m(int(g.i(0, 4)), int(g.i(0, 3)));
  Obs o{unsigned(m.nc), unsigned(m.ni)};
  REQUIRE(o.getStateSize() == m.size(), "state size " << o.getStateSize() << " expected " << m.size());
  CLOSE(Vec(o.getEKF().getCurrentEstimatedState().segment<4>(3)), Vec(o.getCurrentStateVector().segment<4>(3)), 0, "initial");
  unitOrientations(m, o.getCurrentStateVector(), 1e-12);
  m.bias = g.b();
  o.setWithGyroBias(m.bias);
  m.unmodelled = g.b();
  o.setWithUnmodeledWrench(m.unmodelled);
  for(int k = 0; k < m.nc; ++k)
    if(g.b())
    {
      Contact & c = m.contacts[size_t(k)];
      c.set = true;
      int got = o.addContact(pose(g, g.v3(2), rot::anyRotation(g)), k);
      REQUIRE(got == k, "contact number " << got);
    }
  if(m.nc > 0 && g.p(1, 4))
  {
    o.clearContacts();
    for(Contact & c : m.contacts) c.set = false;
    if(g.b())
    {
      int k = int(g.u(size_t(m.nc - 1)));
      o.addContact(pose(g, g.v3(2), rot::anyRotation(g)), k);
      m.contacts[size_t(k)].set = true;
    }
  }
  std::vector<bool> act = m.active();
  o.setSamplingTime(0.005);
  bool pending = false;
  for(int rep = 0; rep < 3; ++rep)
  {
    if(!pending && g.b())
    { // the data that are given change nothing to it
      auto still = [&](const V3 & p) {
        Kine k = pose(g, p, rot::anyRotation(g));
        k.linVel = V3(V3::Zero()), k.angVel = V3(V3::Zero()), k.linAcc = V3(V3::Zero()), k.angAcc = V3(V3::Zero());
        return k;
      };
      for(int i = 0; i < m.ni; ++i)
        if(g.b()) o.setIMU(V3(0, 0, 9.8), V3(g.v3(0.1)), still(g.v3(1)), i), pending = true;
      for(int k = 0; k < m.nc; ++k)
        if(m.contacts[size_t(k)].set)
        {
          pending = true;
          if(g.b()) o.updateContactWithNoSensor(still(g.v3(1)), unsigned(k));
          else o.updateContactWithWrenchSensor(v6(g.vec(6, 1)), still(g.v3(1)), unsigned(k));
        }
      if(g.p(1, 3)) o.setAbsolutePoseSensor(still(g.v3(1))), pending = true;
      bool any = false; // contacts that are anywhere would be torn apart
      for(const Contact & c : m.contacts) any |= c.set;
      if(pending && !any && g.p(2, 3))
      { // the default variance of the unmodelled wrench, 1e100, is beyond what the filter can compute with
        Mat id = Mat::Identity(m.tsize(), m.tsize());
        o.setStateCovarianceMat(1e-3 * id);
        o.setProcessNoiseCovarianceMat(1e-4 * id);
        o.update();
        pending = false;
      }
      g.labelIf(pending, "measurements pending");
    }
    Vec x = randomState(g, m), y = randomState(g, m), d = randomTangent(g, m);
    Vec s = o.stateSum(x, d), s2;
    o.stateSum(x, d, s2);
    CLOSE(s, s2, 0, "two ways of adding");
    CLOSE(s, D(m.sum(LVc(x), LVc(d))), 1e-12, "sum");
    unitOrientations(m, s, 1e-12);
    CLOSE(o.stateSum(x, Vec(Vec::Zero(m.tsize()))), x, 1e-15, "sum with zero");
    if(g.b())
    { // in place
      Vec z = x;
      o.stateSum(z, d, z);
      CLOSE(z, s, 1e-14, "sum in place");
    }
    Vec back = o.stateDifference(s, x);
    CLOSE(back, maskV(d, act), 1e-9, "difference of the sum");
    Vec df;
    if(g.b()) df = g.gvec(long(g.u(80)), 1); // whatever was there before
    o.stateDifference(x, y, df);
    CLOSE(df, o.stateDifference(x, y), 0, "two ways of subtracting");
    LV want = m.diff(LVc(x), LVc(y));
    bool halfTurn = false;
    auto near = [&](long i) { halfTurn |= double(want.segment<3>(i).norm()) > M_PI - 1e-5; };
    near(3);
    for(int k = 0; k < m.nc; ++k) near(m.tContact(k) + 3);
    if(!halfTurn) CLOSE(df, D(want), 1e-9, "difference");
    REQUIRE(df.segment<3>(3).norm() <= M_PI + 1e-9, "rotation of more than half a turn");
    Vec again = o.stateSum(y, df), xx = x;
    for(long i = 0; i < 3 * m.ni; ++i)
      if(!m.bias) xx(13 + i) = y(13 + i);
    for(long i = 0; i < 6; ++i)
      if(!m.unmodelled) xx(m.wrenchAt() + i) = y(m.wrenchAt() + i);
    sameState(m, again, xx, 1e-8, "sum of the difference");
    CLOSE(o.stateDifference(x, x), Vec(Vec::Zero(m.tsize())), 1e-9, "difference with itself");
    bool any = false;
    for(const Contact & c : m.contacts) any |= c.set;
    if(any && d.segment<3>(3).norm() > 0.1) g.nontrivial();
    g.labelIf(m.ni == 0, "no IMU");
    g.labelIf(m.nc == 0, "no contact");
    g.labelIf(!m.bias, "no bias");
    g.labelIf(m.unmodelled, "unmodelled");
  }
}

namespace
{
struct Parts
{
  Gen & g;
  Model m;
  Obs o;
  Vec x;
  Mat P, Q;
  Mat kInit, kProc, bInit, bProc, wInit, wProc, cInit, cProc;
  bool tame = false, resetAny = false;
  int updates = 0;

  Parts(Gen & g_, int nc, int ni) : g(g_), m(nc, ni), o(unsigned(nc), unsigned(ni))
  {
    x = Vec::Zero(m.size());
    x(6) = 1;
    typedef Obs O;
    auto diag = [](std::initializer_list<double> l) {
      Vec d(3 * long(l.size()));
      long i = 0;
      for(double v : l) d.segment<3>(i).setConstant(v), i += 3;
      return Mat(d.asDiagonal());
    };
    kInit = diag({O::statePoseInitVarianceDefault, O::stateOriInitVarianceDefault, O::stateLinVelInitVarianceDefault,
                  O::stateAngVelInitVarianceDefault});
    kProc = diag({O::statePoseProcessVarianceDefault, O::stateOriProcessVarianceDefault,
                  O::stateLinVelProcessVarianceDefault, O::stateAngVelProcessVarianceDefault});
    bInit = diag({O::gyroBiasInitVarianceDefault});
    bProc = diag({O::gyroBiasProcessVarianceDefault});
    wInit = diag({O::unmodeledWrenchInitVarianceDefault, O::unmodeledWrenchInitVarianceDefault});
    wProc = diag({O::unmodeledWrenchProcessVarianceDefault, O::unmodeledWrenchProcessVarianceDefault});
    // no initial variance of the pose of a contact is declared: by default it is known up to its process variance
    cInit = diag({O::contactPositionProcessVarianceDefault, O::contactOrientationProcessVarianceDefault,
                  O::contactForceInitVarianceDefault, O::contactTorqueInitVarianceDefault});
    cProc = diag({O::contactPositionProcessVarianceDefault, O::contactOrientationProcessVarianceDefault,
                  O::contactForceProcessVarianceDefault, O::contactTorqueProcessVarianceDefault});
    P = Q = Mat::Zero(m.tsize(), m.tsize());
    block(P, kInit, 0);
    block(Q, kProc, 0);
    for(int i = 0; i < ni; ++i) block(P, bInit, m.tBias(i)), block(Q, bProc, m.tBias(i));
    block(P, wInit, m.tWrench());
    block(Q, wProc, m.tWrench());
    compare("initially");
  }
  static void block(Mat & M, const Mat & b, long at)
  {
    long n = b.rows();
    M.middleRows(at, n).setZero();
    M.middleCols(at, n).setZero();
    M.block(at, at, n, n) = b;
  }
  void compare(const std::string & what)
  {
    std::string s = what + ": state";
    sameState(m, o.getCurrentStateVector(), x, 1e-14, s.c_str());
    s = what + ": state of the filter";
    sameState(m, o.getEKF().getCurrentEstimatedState(), x, 1e-14, s.c_str());
    std::vector<bool> tp = m.tpresent();
    auto same = [&](const Mat & a_, const Mat & b_, const char * name) {
      REQUIRE(a_.rows() == b_.rows() && a_.cols() == b_.cols(), what << ": size of the " << name);
      Mat a = maskM(a_, tp), b = maskM(b_, tp);
      for(long i = 0; i < a.rows(); ++i)
        for(long j = 0; j < a.cols(); ++j)
          REQUIRE(std::fabs(a(i, j) - b(i, j)) <= 1e-15 * std::fabs(b(i, j)),
                  what << ": " << name << " of " << i << ", " << j << ": " << a(i, j) << " expected " << b(i, j));
    };
    same(o.getStateCovarianceMat(), P, "state covariance");
    same(o.getEKF().getStateCovariance(), P, "covariance of the filter");
    same(o.getEKF().getQ(), Q, "process covariance");
    Kine k = o.getKinematics();
    CLOSE(Vec(k.position()), Vec(x.segment<3>(0)), 1e-14, "position");
    M3 R = qmat(LVc(x).segment<4>(3)).cast<double>();
    CLOSE(k.orientation.toMatrix3(), R, 1e-12, "orientation");
    CLOSE(Vec(k.linVel()), Vec(x.segment<3>(7)), 1e-14, "linear velocity");
    CLOSE(Vec(k.angVel()), Vec(x.segment<3>(10)), 1e-14, "angular velocity");
    CLOSE(Vec(o.getUnmodeledWrench()), Vec(x.segment<6>(m.wrenchAt())), 0, "unmodelled wrench");
    std::vector<int> l;
    for(int i = 0; i < m.nc; ++i)
      if(m.contacts[size_t(i)].set)
      {
        l.push_back(i);
        CLOSE(Vec(o.getContactWrench(i)), Vec(x.segment<6>(m.contactAt(i) + 7)), 0, "contact wrench");
        Kine c = o.getContactPosition(i);
        CLOSE(Vec(c.position()), Vec(x.segment<3>(m.contactAt(i))), 1e-14, "contact position");
        M3 Rc = qmat(LVc(x).segment<4>(m.contactAt(i) + 3)).cast<double>();
        CLOSE(c.orientation.toMatrix3(), Rc, 1e-12, "contact orientation");
        REQUIRE(o.contactIndex(unsigned(i)) == m.contactAt(i) && o.contactKineIndex(unsigned(i)) == m.contactAt(i)
                    && o.contactPosIndex(unsigned(i)) == m.contactAt(i) && o.contactOriIndex(unsigned(i)) == m.contactAt(i) + 3
                    && o.contactWrenchIndex(unsigned(i)) == m.contactAt(i) + 7
                    && o.contactForceIndex(unsigned(i)) == m.contactAt(i) + 7
                    && o.contactTorqueIndex(unsigned(i)) == m.contactAt(i) + 10,
                "indexes of contact " << i);
        REQUIRE(o.contactIndexTangent(unsigned(i)) == m.tContact(i) && o.contactKineIndexTangent(unsigned(i)) == m.tContact(i)
                    && o.contactPosIndexTangent(unsigned(i)) == m.tContact(i)
                    && o.contactOriIndexTangent(unsigned(i)) == m.tContact(i) + 3
                    && o.contactWrenchIndexTangent(unsigned(i)) == m.tContact(i) + 6
                    && o.contactForceIndexTangent(unsigned(i)) == m.tContact(i) + 6
                    && o.contactTorqueIndexTangent(unsigned(i)) == m.tContact(i) + 9,
                "tangent indexes of contact " << i);
      }
    REQUIRE(o.getListOfContacts() == l, what << ": list of contacts");
    for(int i = 0; i < m.ni; ++i)
      REQUIRE(o.gyroBiasIndex(unsigned(i)) == m.biasAt(i) && o.gyroBiasIndexTangent(unsigned(i)) == m.tBias(i),
              "indexes of the bias " << i);
    REQUIRE(o.unmodeledWrenchIndex() == m.wrenchAt() && o.unmodeledForceIndex() == m.wrenchAt()
                && o.unmodeledTorqueIndex() == m.wrenchAt() + 3 && o.unmodeledWrenchIndexTangent() == m.tWrench()
                && o.unmodeledForceIndexTangent() == m.tWrench() && o.unmodeledTorqueIndexTangent() == m.tWrench() + 3,
            "indexes of the unmodelled wrench");
    REQUIRE(o.contactsIndex() == m.contactAt(0) && o.contactsIndexTangent() == m.tContact(0), "indexes of the contacts");
    REQUIRE(o.kineIndex() == 0 && o.posIndex() == 0 && o.oriIndex() == 3 && o.linVelIndex() == 7 && o.angVelIndex() == 10
                && o.kineIndexTangent() == 0 && o.posIndexTangent() == 0 && o.oriIndexTangent() == 3
                && o.linVelIndexTangent() == 6 && o.angVelIndexTangent() == 9,
            "indexes of the kinematics");
  }
  Kine kinematics(V3 & p, M3 & R, V3 & v, V3 & w)
  {
    p = g.v3(5), R = rot::anyRotation(g), v = g.v3(3), w = g.v3(3);
    Kine k = pose(g, p, R);
    k.linVel = v;
    k.angVel = w;
    if(g.p(1, 4))
    {
      k.linAcc = g.v3(3);
      k.angAcc = g.v3(3);
    }
    return k;
  }
  int someContact(bool set)
  {
    std::vector<int> l;
    for(int i = 0; i < m.nc; ++i)
      if(m.contacts[size_t(i)].set == set) l.push_back(i);
    return l.empty() ? -1 : l[g.u(l.size() - 1)];
  }
  Mat small(long n) { return cov(g, n, -8, 0); }
  void step()
  {
    int c;
    Mat M;
    switch(g.u(27))
    {
      case 0:
      {
        V3 p, v, w;
        M3 R;
        Kine k = kinematics(p, R, v, w);
        bool rf = g.b(), rc = g.b();
        if(rf && rc && g.b()) o.setStateKinematics(k);
        else o.setStateKinematics(k, rf, rc);
        x.segment<3>(0) = p, x.segment<4>(3) = quat(R).cast<double>(), x.segment<3>(7) = v, x.segment<3>(10) = w;
        if(rc) block(P, kInit, 0);
        for(int i = 0; i < m.nc; ++i)
          if(m.contacts[size_t(i)].set && rf)
          {
            x.segment<6>(m.contactAt(i) + 7).setZero();
            if(rc) block(P, cInit, m.tContact(i));
            resetAny = true;
          }
        compare("setStateKinematics");
        break;
      }
      case 1:
        if(m.ni > 0)
        {
          int i = int(g.u(size_t(m.ni - 1)));
          V3 b = g.v3(0.5);
          bool rc = g.b();
          if(i == 0 && rc && g.b()) o.setGyroBias(b);
          else o.setGyroBias(b, unsigned(i), rc);
          x.segment<3>(m.biasAt(i)) = b;
          if(rc) block(P, bInit, m.tBias(i));
          compare("setGyroBias");
        }
        break;
      case 2:
      {
        Vec w = vec6(g, 100, 20);
        bool rc = g.b();
        o.setStateUnmodeledWrench(v6(w), rc);
        x.segment<6>(m.wrenchAt()) = w;
        if(rc) block(P, wInit, m.tWrench());
        compare("setStateUnmodeledWrench");
        break;
      }
      case 3:
      {
        x = randomState(g, m);
        bool rc = g.b();
        o.setStateVector(x, rc);
        if(rc) resetState();
        Kine k = o.getKinematics();
        REQUIRE(!k.linAcc.isSet() && !k.angAcc.isSet(), "accelerations of another state");
        compare("setStateVector");
        break;
      }
      case 4:
      case 5:
        c = someContact(false);
        if(c >= 0)
        {
          V3 p = g.v3(3);
          M3 R = rot::anyRotation(g);
          Kine k = pose(g, p, R);
          bool autoN = g.b(), own = g.b();
          int want = c;
          if(autoN)
            for(want = 0; m.contacts[size_t(want)].set;) ++want;
          int got;
          Mat ci = cInit, cp = cProc;
          if(own)
          {
            ci = small(12), cp = small(12);
            got = o.addContact(k, M12(ci), M12(cp), autoN ? -1 : c);
          }
          else
            got = o.addContact(k, autoN ? -1 : c);
          REQUIRE(got == want, "contact number " << got << " expected " << want);
          m.contacts[size_t(want)].set = true;
          m.contacts[size_t(want)].known = false;
          long a = m.contactAt(want);
          x.segment<3>(a) = p, x.segment<4>(a + 3) = quat(R).cast<double>(), x.segment<6>(a + 7).setZero();
          block(P, ci, m.tContact(want));
          block(Q, cp, m.tContact(want));
          compare("addContact");
        }
        break;
      case 6:
        c = someContact(true);
        if(c >= 0)
        {
          o.removeContact(c);
          m.contacts[size_t(c)].set = false;
          compare("removeContact");
        }
        break;
      case 7:
        if(g.p(1, 4))
        {
          o.clearContacts();
          for(Contact & k : m.contacts) k.set = false;
          compare("clearContacts");
        }
        break;
      case 8:
        o.setKinematicsStateCovariance(M = small(12));
        block(P, M, 0);
        compare("setKinematicsStateCovariance");
        break;
      case 9:
        o.setKinematicsInitCovarianceDefault(M = small(12));
        kInit = M;
        compare("setKinematicsInitCovarianceDefault");
        break;
      case 10:
        o.setKinematicsProcessCovariance(M = small(12));
        block(Q, M, 0);
        compare("setKinematicsProcessCovariance");
        break;
      case 11:
        if(m.ni > 0)
        {
          int i = int(g.u(size_t(m.ni - 1)));
          M = small(3);
          switch(g.u(2))
          {
            case 0:
              o.setGyroBiasStateCovariance(M, unsigned(i));
              block(P, M, m.tBias(i));
              compare("setGyroBiasStateCovariance");
              break;
            case 1:
              o.setGyroBiasProcessCovariance(M, unsigned(i));
              block(Q, M, m.tBias(i));
              compare("setGyroBiasProcessCovariance");
              break;
            default:
              o.setGyroBiasInitCovarianceDefault(M);
              bInit = M;
              compare("setGyroBiasInitCovarianceDefault");
          }
        }
        break;
      case 12:
        o.setUnmodeledWrenchStateCovMat(M6(M = small(6)));
        block(P, M, m.tWrench());
        compare("setUnmodeledWrenchStateCovMat");
        break;
      case 13:
        o.setUnmodeledWrenchInitCovMatDefault(M6(M = small(6)));
        wInit = M;
        compare("setUnmodeledWrenchInitCovMatDefault");
        break;
      case 14:
        o.setUnmodeledWrenchProcessCovMat(M6(M = small(6)));
        block(Q, M, m.tWrench());
        compare("setUnmodeledWrenchProcessCovMat");
        break;
      case 15:
        c = someContact(true);
        if(c >= 0)
        {
          M = small(12);
          if(g.b())
          {
            o.setContactStateCovMat(c, M12(M));
            block(P, M, m.tContact(c));
            compare("setContactStateCovMat");
          }
          else
          {
            o.setContactProcessCovMat(c, M12(M));
            block(Q, M, m.tContact(c));
            compare("setContactProcessCovMat");
          }
        }
        break;
      case 16:
        o.setContactInitCovMatDefault(M12(M = small(12)));
        cInit = M;
        compare("setContactInitCovMatDefault");
        break;
      case 17:
        o.resetStateCovarianceMat();
        resetState();
        compare("resetStateCovarianceMat");
        break;
      case 18:
        switch(g.u(4))
        {
          case 0:
            o.resetStateKinematicsCovMat();
            block(P, kInit, 0);
            break;
          case 1:
            if(m.ni == 0) return;
            {
              int i = int(g.u(size_t(m.ni - 1)));
              o.resetStateGyroBiasCovMat(unsigned(i));
              block(P, bInit, m.tBias(i));
            }
            break;
          case 2:
            o.resetStateUnmodeledWrenchCovMat();
            block(P, wInit, m.tWrench());
            break;
          case 3:
            o.resetStateContactsCovMat();
            for(int i = 0; i < m.nc; ++i)
              if(m.contacts[size_t(i)].set) block(P, cInit, m.tContact(i));
            break;
          default:
            c = someContact(true);
            if(c < 0) return;
            o.resetStateContactCovMat(unsigned(c));
            block(P, cInit, m.tContact(c));
        }
        compare("reset of a part of the state covariance");
        break;
      case 19:
        switch(g.u(5))
        {
          case 0:
            o.resetProcessKinematicsCovMat();
            block(Q, kProc, 0);
            break;
          case 1:
            if(m.ni == 0) return;
            {
              int i = int(g.u(size_t(m.ni - 1)));
              o.resetProcessGyroBiasCovMat(unsigned(i));
              block(Q, bProc, m.tBias(i));
            }
            break;
          case 2:
            o.resetProcessUnmodeledWrenchCovMat();
            block(Q, wProc, m.tWrench());
            break;
          case 3:
            o.resetProcessContactsCovMat();
            for(int i = 0; i < m.nc; ++i)
              if(m.contacts[size_t(i)].set) block(Q, cProc, m.tContact(i));
            break;
          case 4:
            c = someContact(true);
            if(c < 0) return;
            o.resetProcessContactCovMat(unsigned(c));
            block(Q, cProc, m.tContact(c));
            break;
          default:
            o.resetProcessCovarianceMat();
            block(Q, kProc, 0);
            for(int i = 0; i < m.ni; ++i) block(Q, bProc, m.tBias(i));
            block(Q, wProc, m.tWrench());
            for(int i = 0; i < m.nc; ++i)
              if(m.contacts[size_t(i)].set) block(Q, cProc, m.tContact(i));
        }
        compare("reset of the process covariance");
        break;
      case 20:
        P = cov(g, m.tsize(), -6, -1);
        o.setStateCovarianceMat(P);
        compare("setStateCovarianceMat");
        break;
      case 21:
        Q = cov(g, m.tsize(), -6, -1);
        o.setProcessNoiseCovarianceMat(Q);
        compare("setProcessNoiseCovarianceMat");
        break;
      case 22:
        o.setWithGyroBias(m.bias = g.b());
        o.setWithUnmodeledWrench(m.unmodelled = g.b());
        compare("options");
        break;
      case 23:
      { // accelerations are computed on demand and belong to the present state
        for(const Contact & k : m.contacts)
          if(k.set && !k.known) return; // the place of the contact on the robot is not known yet
        o.estimateAccelerations();
        compare("estimateAccelerations");
        break;
      }
      default: update();
    }
  }
  void resetState()
  {
    block(P, kInit, 0);
    for(int i = 0; i < m.ni; ++i) block(P, bInit, m.tBias(i));
    block(P, wInit, m.tWrench());
    for(int i = 0; i < m.nc; ++i)
      if(m.contacts[size_t(i)].set) block(P, cInit, m.tContact(i));
  }
  /// an estimation: whatever it gives is a state with unit orientations, and the parts are read from it
  void update()
  {
    if(x.norm() > 1e4) return; // far from any robot: numerical trouble is not the matter here
    if(maskM(P, m.tpresent()).cwiseAbs().maxCoeff() > 1e3 || maskM(Q, m.tpresent()).cwiseAbs().maxCoeff() > 1e3) return;
    o.setSamplingTime(0.002);
    o.setMass(40);
    o.setInertiaMatrix(so::Matrix3(M3::Identity() * 5), so::Matrix3(M3::Zero()));
    o.setCenterOfMass(V3(0, 0, 0.1), V3::Zero(), V3::Zero());
    for(int i = 0; i < m.nc; ++i)
      if(m.contacts[size_t(i)].set)
      {
        m.contacts[size_t(i)].known = true;
        Kine k = pose(g, g.v3(1), rotmat(g, 1));
        k.linVel = V3(V3::Zero());
        k.angVel = V3(V3::Zero());
        if(g.b()) o.updateContactWithWrenchSensor(v6(vec6(g, 100, 10)), M6(cov(g, 6, -4, 0)), k, unsigned(i));
        else o.updateContactWithNoSensor(k, unsigned(i));
      }
    for(int i = 0; i < m.ni; ++i)
      if(g.b())
      {
        Kine k = pose(g, g.v3(1), rotmat(g, 1));
        k.linVel = V3(V3::Zero());
        k.angVel = V3(V3::Zero());
        k.linAcc = V3(V3::Zero());
        o.setIMU(g.v3(10), g.v3(1), M3(cov(g, 3, -4, 0)), M3(cov(g, 3, -4, 0)), k, i);
      }
    bool abs = g.b();
    long n = o.getMeasurementSize();
    if(abs || n == 0)
    {
      o.setAbsolutePoseSensor(pose(g, g.v3(1), rotmat(g, 3)), M6(cov(g, 6, -4, 0)));
      abs = true;
      n += 7;
    }
    Vec ret = o.update();
    Vec got = o.getCurrentStateVector();
    CLOSE(ret, got, 0, "value returned by the update");
    REQUIRE(maskV(got, m.present()).allFinite(), "estimated state " << got.transpose());
    unitOrientations(m, got, 1e-9);
    x = got;
    P = o.getStateCovarianceMat();
    compare("update");
    ++updates;
    // differences of measurements of this layout
    Vec a = g.vec(n, 10), b = g.vec(n, 10), d;
    if(g.b()) d = g.gvec(long(g.u(20)), 1);
    m.pose = abs;
    if(abs)
    {
      randomOrientation(g, a, n - 4);
      M3 dR = pbt::expm(g.axis() * g.real(0, 3.1));
      M3 Ra = rot::ofQuat(rot::Q(a(n - 1), a(n - 4), a(n - 3), a(n - 2)));
      b.tail<4>() = rot::toQuat(dR * Ra, g.b()).coeffs();
    }
    o.measurementDifference(a, b, d);
    CLOSE(d, D(m.mdiff(LVc(a), LVc(b))), 1e-9, "difference of measurements");
  }
};
} // namespace

FACET(parts, 20000, 80000, "a contact, a covariance of a part set after another one, and at least one update")
{
  int nc = int(g.many(4, 7)), ni = int(g.many(3, 6));
  Parts t(g, nc, ni);
  if(g.p(3, 4))
  { // moderate defaults, so that estimations are meaningful
    t.wInit = t.small(6);
    t.o.setUnmodeledWrenchInitCovMatDefault(M6(t.wInit));
    t.cInit = t.small(12);
    t.o.setContactInitCovMatDefault(M12(t.cInit));
    t.P = cov(g, t.m.tsize(), -6, -1);
    t.o.setStateCovarianceMat(t.P);
  }
  size_t n = 5 + g.many(g.thorough ? 60 : 30, 120);
  for(size_t i = 0; i < n; ++i) t.step();
  if(t.updates > 0 && t.someContact(true) >= 0) g.nontrivial();
  g.labelIf(t.updates > 0, "update");
  g.labelIf(t.resetAny, "reset of forces");
}
