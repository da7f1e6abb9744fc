// Reference model of the kinetics observer's state space, mechanics and sensors (long double), written from mechanics
// and from the documented layout, independent of the library.
#pragma once
#include "elastic.hpp"
#include "rot.hpp"
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
namespace kinetics
{
namespace so = stateObservation;
using elastic::L3;
using elastic::LM3;
using elastic::R_;
using ref::LM;
using ref::LV;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 12, 12> M12;
typedef Eigen::Matrix<double, 7, 1> V7_;
typedef so::kine::Kinematics Kine;
typedef Eigen::Matrix<R_, 4, 1> L4; // quaternion, x y z w

inline L3 l3(const V3 & v) { return v.cast<R_>(); }
inline LM3 lm3(const M3 & v) { return v.cast<R_>(); }
inline L4 qmul(const L4 & a, const L4 & b)
{
  L3 u = a.head<3>(), v = b.head<3>();
  L4 r;
  r.head<3>() = a(3) * v + b(3) * u + u.cross(v);
  r(3) = a(3) * b(3) - u.dot(v);
  return r;
}
inline L4 qconj(const L4 & a) { return L4(-a(0), -a(1), -a(2), a(3)); }
inline L4 qexp(const L3 & v)
{
  R_ t = v.norm() / 2;
  R_ s = t < 1e-6L ? (1 - t * t / 6) / 2 : std::sin(t) / t / 2;
  L4 q;
  q << v * s, std::cos(t);
  return q;
}
inline L3 qlog(L4 q)
{
  q /= q.norm();
  if(q(3) < 0) q = -q;
  R_ n = q.head<3>().norm();
  if(n < 1e-15L) return 2 * q.head<3>();
  return q.head<3>() * (2 * std::atan2(n, q(3)) / n);
}
inline LM3 qmat(const L4 & q)
{
  LM3 k = elastic::skewl(q.head<3>());
  return LM3::Identity() + 2 * q(3) * k + 2 * k * k;
}
inline L4 quat(const M3 & R, bool neg = false)
{
  L4 q = qexp(l3(pbt::logm(R)));
  return neg ? L4(-q) : q;
}

/// kinematics of a frame in the robot's frame, as the observer knows it
struct Local
{
  V3 p = V3::Zero(), v = V3::Zero(), a = V3::Zero(), w = V3::Zero();
  M3 R = M3::Identity();
};
struct Contact
{
  bool set = false, sensor = false, fresh = false, known = false;
  bool redo = false; // the last kinematics were discarded: the derivatives are given with the next ones
  Local kin;
  M3 K, D, Kr, Dr;
  V6 wrench = V6::Zero();
  Mat cov;
};
struct Imu
{
  bool fresh = false, known = false, redo = false;
  long time = 0;
  Local kin;
  V3 acc, gyr;
  M3 ca, cg;
};
struct Model
{
  int nc, ni;
  double dt = 0, mass = 50;
  M3 I = M3::Identity(), Id = M3::Zero();
  V3 c = V3::Zero(), cd = V3::Zero(), cdd = V3::Zero(), s = V3::Zero(), sd = V3::Zero(), F = V3::Zero(), T = V3::Zero();
  bool bias = true, unmodelled = false, pose = false;
  std::vector<Contact> contacts;
  std::vector<Imu> imus;
  Model(int c_, int i_) : nc(c_), ni(i_), contacts(c_), imus(i_) {}

  // ---- layout
  long size() const { return 13 + 3 * ni + 6 + 13 * nc; }
  long tsize() const { return 12 + 3 * ni + 6 + 12 * nc; }
  long biasAt(int i) const { return 13 + 3 * i; }
  long wrenchAt() const { return 13 + 3 * ni; }
  long contactAt(int i) const { return 19 + 3 * ni + 13 * i; }
  long tBias(int i) const { return 12 + 3 * i; }
  long tWrench() const { return 12 + 3 * ni; }
  long tContact(int i) const { return 18 + 3 * ni + 12 * i; }
  /// entries of the tangent space that are estimated
  std::vector<bool> active() const
  {
    std::vector<bool> r(size_t(tsize()), false);
    for(int i = 0; i < 12; ++i) r[size_t(i)] = true;
    for(int i = 0; i < 3 * ni; ++i) r[size_t(tBias(0) + i)] = bias;
    for(int i = 0; i < 6; ++i) r[size_t(tWrench() + i)] = unmodelled;
    for(int k = 0; k < nc; ++k)
      for(int i = 0; i < 12; ++i) r[size_t(tContact(k) + i)] = contacts[size_t(k)].set;
    return r;
  }
  /// entries of the state vector that mean something (all but those of absent contacts)
  std::vector<bool> present() const
  {
    std::vector<bool> r(size_t(size()), true);
    for(int k = 0; k < nc; ++k)
      for(int i = 0; i < 13; ++i) r[size_t(contactAt(k) + i)] = contacts[size_t(k)].set;
    return r;
  }
  std::vector<bool> tpresent() const
  {
    std::vector<bool> r(size_t(tsize()), true);
    for(int k = 0; k < nc; ++k)
      for(int i = 0; i < 12; ++i) r[size_t(tContact(k) + i)] = contacts[size_t(k)].set;
    return r;
  }

  // ---- state space
  LV sum(const LV & x, const LV & d) const
  {
    LV r = x;
    r.segment<3>(0) += d.segment<3>(0);
    r.segment<4>(3) = qmul(qexp(d.segment<3>(3)), x.segment<4>(3));
    r.segment<6>(7) += d.segment<6>(6);
    if(bias) r.segment(13, 3 * ni) += d.segment(12, 3 * ni);
    if(unmodelled) r.segment<6>(wrenchAt()) += d.segment<6>(tWrench());
    for(int k = 0; k < nc; ++k)
      if(contacts[size_t(k)].set)
      {
        long a = contactAt(k), t = tContact(k);
        r.segment<3>(a) += d.segment<3>(t);
        r.segment<4>(a + 3) = qmul(qexp(d.segment<3>(t + 3)), x.segment<4>(a + 3));
        r.segment<6>(a + 7) += d.segment<6>(t + 6);
      }
    return r;
  }
  LV diff(const LV & x, const LV & y) const
  {
    LV r = LV::Zero(tsize());
    r.segment<3>(0) = x.segment<3>(0) - y.segment<3>(0);
    r.segment<3>(3) = qlog(qmul(x.segment<4>(3), qconj(y.segment<4>(3))));
    r.segment<6>(6) = x.segment<6>(7) - y.segment<6>(7);
    if(bias) r.segment(12, 3 * ni) = x.segment(13, 3 * ni) - y.segment(13, 3 * ni);
    if(unmodelled) r.segment<6>(tWrench()) = x.segment<6>(wrenchAt()) - y.segment<6>(wrenchAt());
    for(int k = 0; k < nc; ++k)
      if(contacts[size_t(k)].set)
      {
        long a = contactAt(k), t = tContact(k);
        r.segment<3>(t) = x.segment<3>(a) - y.segment<3>(a);
        r.segment<3>(t + 3) = qlog(qmul(x.segment<4>(a + 3), qconj(y.segment<4>(a + 3))));
        r.segment<6>(t + 6) = x.segment<6>(a + 7) - y.segment<6>(a + 7);
      }
    return r;
  }

  // ---- mechanics
  /// total wrench at the origin of the robot's frame, in this frame, gravity excepted
  void wrench(const LV & x, L3 & f, L3 & m) const
  {
    f = l3(F) + L3(x.segment<3>(wrenchAt()));
    m = l3(T) + L3(x.segment<3>(wrenchAt() + 3));
    for(int k = 0; k < nc; ++k)
    {
      const Contact & ct = contacts[size_t(k)];
      if(!ct.set) continue;
      L3 fk = lm3(ct.kin.R) * x.segment<3>(contactAt(k) + 7);
      f += fk;
      m += lm3(ct.kin.R) * x.segment<3>(contactAt(k) + 10) + l3(ct.kin.p).cross(fk);
    }
  }
  /// accelerations of the robot's frame in the world: rates of the linear momentum and of the angular momentum about
  /// the origin of the frame, as one linear system of six unknowns
  void accelerations(const LV & x, L3 & a, L3 & al) const
  {
    L3 f, mo;
    wrench(x, f, mo);
    LM3 R = qmat(x.segment<4>(3));
    L3 w = x.segment<3>(10), C = R * l3(c), Cd = R * l3(cd), Cdd = R * l3(cdd);
    LM3 J = R * lm3(I) * R.transpose();
    L3 G(0, 0, 9.8L);
    R_ m = mass;
    Eigen::Matrix<R_, 6, 6> M;
    Eigen::Matrix<R_, 6, 1> b;
    M << m * LM3::Identity(), -m * elastic::skewl(C), m * elastic::skewl(C), J;
    b.head<3>() = R * f - m * (G + Cdd + 2 * w.cross(Cd) + w.cross(w.cross(C)));
    b.tail<3>() = R * mo - m * C.cross(G) - R * lm3(Id) * R.transpose() * w - R * l3(sd) - w.cross(L3(J * w + R * l3(s)));
    Eigen::Matrix<R_, 6, 1> r = M.fullPivLu().solve(b);
    a = r.head<3>(), al = r.tail<3>();
  }
  /// loss of precision of the accelerations
  double amplification() const
  {
    M3 J = I - mass * (c.squaredNorm() * M3::Identity() - c * c.transpose());
    return 1 + I.norm() * J.inverse().norm();
  }
  LV predict(const LV & x) const
  {
    L3 a, al;
    accelerations(x, a, al);
    LV r = x;
    R_ t = dt;
    L3 v = x.segment<3>(7), w = x.segment<3>(10);
    r.segment<3>(0) += v * t + a * t * t / 2;
    r.segment<4>(3) = qmul(qexp(w * t + al * t * t / 2), x.segment<4>(3));
    r.segment<3>(7) += a * t;
    r.segment<3>(10) += al * t;
    LM3 R = qmat(r.segment<4>(3));
    for(int k = 0; k < nc; ++k)
    {
      const Contact & ct = contacts[size_t(k)];
      if(!ct.set) continue;
      long i = contactAt(k);
      L3 p = R * l3(ct.kin.p), W = r.segment<3>(10);
      L3 pc = r.segment<3>(0) + p, vc = r.segment<3>(7) + W.cross(p) + R * l3(ct.kin.v), wc = W + R * l3(ct.kin.w);
      LM3 Rc = R * lm3(ct.kin.R);
      L4 dq = qmul(qmul(r.segment<4>(3), quat(ct.kin.R)), qconj(x.segment<4>(i + 3)));
      // the modelled moment: half the vector part of the quaternion, which is taken in the half of the rotations of
      // less than half a turn by the caller (its sign follows the signs of the quaternions otherwise)
      if(dq(3) < 0) dq = -dq;
      r.segment<3>(i + 7) = Rc.transpose() * (lm3(ct.K) * L3(x.segment<3>(i) - pc) - lm3(ct.D) * vc);
      r.segment<3>(i + 10) = Rc.transpose() * (-0.5L * lm3(ct.Kr) * L3(dq.head<3>()) - lm3(ct.Dr) * wc);
    }
    return r;
  }
  /// sensors present, in the order IMUs, wrench sensors, pose
  LV measure(const LV & x) const
  {
    L3 a, al;
    accelerations(x, a, al);
    std::vector<R_> y;
    auto push = [&](const LV & v) {
      for(long i = 0; i < v.size(); ++i) y.push_back(v(i));
    };
    LM3 R = qmat(x.segment<4>(3));
    L3 w = x.segment<3>(10), G(0, 0, 9.8L);
    for(int k = 0; k < ni; ++k)
    {
      const Imu & s_ = imus[size_t(k)];
      if(!s_.fresh) continue;
      L3 p = R * l3(s_.kin.p);
      L3 acc = a + al.cross(p) + w.cross(w.cross(p)) + 2 * w.cross(L3(R * l3(s_.kin.v))) + R * l3(s_.kin.a);
      LM3 Rs = R * lm3(s_.kin.R);
      push(Rs.transpose() * (acc + G));
      L3 gy = Rs.transpose() * (w + R * l3(s_.kin.w));
      if(bias) gy += x.segment<3>(biasAt(k));
      push(gy);
    }
    for(int k = 0; k < nc; ++k)
      if(contacts[size_t(k)].set && contacts[size_t(k)].sensor) push(x.segment<6>(contactAt(k) + 7));
    if(pose) push(x.segment<7>(0));
    return Eigen::Map<LV>(y.data(), long(y.size()));
  }
  LV mdiff(const LV & a, const LV & b) const
  {
    long n = a.size();
    if(!pose) return a - b;
    LV r(n - 1);
    r.head(n - 4) = a.head(n - 4) - b.head(n - 4);
    r.tail(3) = qlog(qmul(a.tail<4>(), qconj(b.tail<4>())));
    return r;
  }
};

inline so::Vector6 v6(const Vec & v) { return so::Vector6(v); }
inline Vec vec6(Gen & g, double f, double t)
{
  Vec r(6);
  r << g.v3(f), g.v3(t);
  return r;
}
inline M3 rotmat(Gen & g, double max)
{
  return pbt::expm(elastic::rotVec(g, max));
}
/// library kinematics of a pose; the orientation given as a quaternion of either sign, a matrix or both
inline void giveOrientation(Gen & g, Kine & k, const M3 & R)
{
  switch(g.u(2))
  {
    case 1: k.orientation = R; break;
    default: k.orientation = rot::toQuat(R, g.p(1, 4)); break;
  }
}
inline Kine pose(Gen & g, const V3 & p, const M3 & R)
{
  Kine k;
  k.position = p;
  giveOrientation(g, k, R);
  return k;
}
inline Mat cov(Gen & g, long n, double lo, double hi)
{
  Vec d(n);
  for(long i = 0; i < n; ++i) d(i) = g.mag(lo, hi);
  if(g.b()) return Mat(d.asDiagonal());
  Mat c = g.spd(n, 0.5, 0.5);
  return d.cwiseSqrt().asDiagonal() * c * d.cwiseSqrt().asDiagonal();
}
inline void unitOrientations(const Model & m, const Vec & x, double tol)
{
  REQUIRE(std::fabs(x.segment<4>(3).norm() - 1) <= tol, "norm of the orientation " << x.segment<4>(3).norm());
  for(int k = 0; k < m.nc; ++k)
    if(m.contacts[size_t(k)].set)
      REQUIRE(std::fabs(x.segment<4>(m.contactAt(k) + 3).norm() - 1) <= tol,
              "norm of the orientation of contact " << k << ' ' << x.segment<4>(m.contactAt(k) + 3).norm());
}

/// An observer and what is known of it from the calls made: the contacts and sensors present, the last values given.
/// Values that are not given are deduced as documented: defaults for covariances, finite differences for derivatives
/// (zero the first time).
struct Driver
{
  typedef so::KineticsObserver Obs;
  Gen & g;
  Model m;
  Obs o;
  long kEst = 0, kData = 0;
  bool full = false; // after resetInputs: derivatives are given until the next estimation
  V7_ poseValue;
  Mat poseCov;
  M3 caDef, cgDef;
  Mat cwDef, cpDef;
  long tI = 0, tC = 0, tCd = 0, tS = 0; // when the inertia, centre of mass and angular momentum were given (0: never)
  double reach = 1; // how far things are from each other
  bool wild = false; // unrelated successive poses of the sensors and contacts
  bool jumps = true; // some unrelated successive poses
  const Local * next = nullptr; // first value of the next local frame
  LV target; // when not empty, the IMU signals are those of this state, plus what is given

  Driver(Gen & g_, int nc, int ni) : g(g_), m(nc, ni), o(unsigned(nc), unsigned(ni)) { builtInCovariances(); }
  void builtInCovariances()
  {
    caDef = Obs::acceleroVarianceDefault * M3::Identity();
    cgDef = Obs::gyroVarianceDefault * M3::Identity();
    Vec d(6);
    d << V3::Constant(Obs::forceSensorVarianceDefault), V3::Constant(Obs::torqueSensorVarianceDefault);
    cwDef = d.asDiagonal();
    d << V3::Constant(Obs::positionSensorVarianceDefault), V3::Constant(Obs::orientationSensorVarianceDefault);
    cpDef = d.asDiagonal();
  }
  void samplingTime(double t) { o.setSamplingTime(m.dt = t); }
  void mass(double v) { o.setMass(m.mass = v); }
  /// any datum opens a new iteration when the previous one has been estimated
  void begin()
  {
    if(kEst != kData) return;
    ++kData;
    for(Contact & c : m.contacts) c.fresh = c.sensor = false;
    for(Imu & i : m.imus) i.fresh = false;
    m.pose = false;
  }
  std::vector<int> contactList(bool set = true) const
  {
    std::vector<int> l;
    for(int i = 0; i < m.nc; ++i)
      if(m.contacts[size_t(i)].set == set) l.push_back(i);
    return l;
  }

  // ---- the next value of a local frame; `old` is updated
  Kine local(Local & old, bool known, bool all, double dt, bool withAcc)
  {
    Local n;
    if(!known && next)
      n = *next;
    else if(!known || wild || (jumps && g.p(1, 5)))
    {
      n.p = g.v3(reach), n.v = g.v3(1), n.a = g.v3(2), n.w = g.v3(1);
      n.R = rotmat(g, 3.1);
    }
    else
    {
      n.a = g.v3(2);
      n.v = old.v + dt * n.a;
      n.p = old.p + dt * n.v;
      n.w = old.w + dt * g.v3(2);
      n.R = pbt::expm(dt * n.w) * old.R;
    }
    Kine k = pose(g, n.p, n.R);
    bool gv = all || !g.p(1, 3), gw = all || !g.p(1, 3), ga = all || !g.p(1, 3);
    if(known && wild) gv = gw = true; // no meaningful difference
    if(gv) k.linVel = n.v;
    if(gw) k.angVel = n.w;
    if(ga && withAcc) k.linAcc = n.a;
    g.labelIf(!gv && known, "velocity by difference");
    g.labelIf(!gv && !known, "no velocity at first");
    if(!known)
    {
      if(!gv) n.v.setZero();
      if(!gw) n.w.setZero();
      if(!ga) n.a.setZero();
    }
    else
    {
      if(!gv) n.v = (n.p - old.p) / dt;
      if(!gw) n.w = pbt::logm(n.R * old.R.transpose()) / dt;
      if(!ga) n.a = (n.v - old.v) / dt;
    }
    if(!withAcc) n.a.setZero();
    old = n;
    return k;
  }

  // ---- sensors
  bool imu(V3 acc, V3 gyr, double lo, double hi)
  {
    std::vector<int> l;
    bool newIteration = kEst == kData;
    for(int i = 0; i < m.ni; ++i)
      if(newIteration || !m.imus[size_t(i)].fresh) l.push_back(i);
    if(l.empty()) return false;
    begin();
    bool autoN = g.b(), own = g.b();
    int n = autoN ? l[0] : l[g.u(l.size() - 1)];
    Imu & s = m.imus[size_t(n)];
    Kine k = local(s.kin, s.known, s.redo, m.dt * double(kData - s.time), true);
    s.redo = false;
    if(target.size())
    {
      Model t = m;
      for(Imu & other : t.imus) other.fresh = false;
      for(Contact & other : t.contacts) other.sensor = false;
      t.pose = false;
      t.imus[size_t(n)].fresh = true;
      Vec y = ref::D(t.measure(target));
      acc += y.head<3>(), gyr += y.tail<3>();
    }
    s.acc = acc, s.gyr = gyr;
    g.labelIf(s.known && kData - s.time > 1, "IMU after a gap");
    int got;
    if(own)
    {
      s.ca = cov(g, 3, lo, hi), s.cg = cov(g, 3, lo, hi);
      got = o.setIMU(acc, gyr, so::Matrix3(s.ca), so::Matrix3(s.cg), k, autoN ? -1 : n);
    }
    else
    {
      s.ca = caDef, s.cg = cgDef;
      got = o.setIMU(acc, gyr, k, autoN ? -1 : n);
    }
    REQUIRE(got == n, "number of the IMU " << got << " expected " << n);
    s.fresh = s.known = true;
    s.time = kData;
    return true;
  }
  void contact(int n, const Vec & wrench, bool sensor, double lo, double hi)
  {
    begin();
    Contact & c = m.contacts[size_t(n)];
    bool again = c.fresh;
    Kine k = local(c.kin, c.known, again || c.redo, m.dt, false);
    c.redo = false;
    g.labelIf(again, "contact updated twice");
    if(sensor)
    {
      c.wrench = wrench;
      if(g.b())
      {
        c.cov = cov(g, 6, lo, hi);
        o.updateContactWithWrenchSensor(v6(wrench), M6(c.cov), k, unsigned(n));
      }
      else
      {
        c.cov = cwDef;
        o.updateContactWithWrenchSensor(v6(wrench), k, unsigned(n));
      }
    }
    else
      o.updateContactWithNoSensor(k, unsigned(n));
    c.sensor = sensor;
    c.fresh = c.known = true;
  }
  void absolutePose(const V3 & p, const M3 & R, double lo, double hi)
  {
    begin();
    Kine k = pose(g, p, R);
    if(g.p(1, 4)) k.linVel = g.v3(1); // ignored
    m.pose = true;
    poseValue << p, rot::toQuat(R, false).coeffs();
    if(g.b())
    {
      poseCov = cov(g, 6, lo, hi);
      o.setAbsolutePoseSensor(k, M6(poseCov));
    }
    else
    {
      poseCov = cpDef;
      o.setAbsolutePoseSensor(k);
    }
  }
  void defaults(double lo, double hi)
  {
    switch(g.u(2))
    {
      case 0:
        caDef = cov(g, 3, lo, hi), cgDef = cov(g, 3, lo, hi);
        o.setIMUDefaultCovarianceMatrix(caDef, cgDef);
        break;
      case 1:
        cwDef = cov(g, 6, lo, hi);
        o.setContactWrenchSensorDefaultCovarianceMatrix(M6(cwDef));
        break;
      default:
        cpDef = cov(g, 6, lo, hi);
        o.setAbsolutePoseSensorDefaultCovarianceMatrix(M6(cpDef));
    }
  }
  void resetInputs()
  {
    o.resetInputs();
    if(kEst != kData)
    {
      for(Contact & c : m.contacts) c.redo |= c.fresh, c.fresh = c.sensor = false;
      for(Imu & i : m.imus) i.redo |= i.fresh, i.fresh = false;
      m.pose = false;
      kData = kEst;
    }
    full = true;
  }

  // ---- inputs
  void inertia(const M3 & I, bool rate, const M3 & Id)
  {
    begin();
    bool vectors = g.b();
    auto pack = [](const M3 & a) {
      Vec v(6);
      v << a(0, 0), a(1, 1), a(2, 2), a(1, 0), a(2, 0), a(2, 1);
      return v6(v);
    };
    if(rate || full)
    {
      if(vectors) o.setInertiaMatrix(pack(I), pack(Id));
      else o.setInertiaMatrix(so::Matrix3(I), so::Matrix3(Id));
      m.Id = Id;
    }
    else
    {
      if(vectors) o.setInertiaMatrix(pack(I));
      else o.setInertiaMatrix(so::Matrix3(I));
      if(tI > 0 && tI < kData) m.Id = (I - m.I) / (m.dt * double(kData - tI));
      g.labelIf(tI > 0 && tI < kData, "inertia rate by difference");
    }
    m.I = I;
    tI = kData;
  }
  void com(const V3 & c, int given, const V3 & cd, const V3 & cdd)
  {
    begin();
    if(full || (given == 1 && tC > 0 && tCd == 0)) given = 2; // no previous velocity: nothing is specified
    double dt = m.dt * double(kData - tC);
    bool difference = tC > 0 && tC < kData;
    g.labelIf(difference && given < 2, "com derivative by difference");
    if(given == 2)
    {
      o.setCenterOfMass(c, cd, cdd);
      m.cd = cd, m.cdd = cdd;
    }
    else if(given == 1)
    {
      o.setCenterOfMass(c, cd);
      if(tCd > 0 && tCd < kData) m.cdd = (cd - m.cd) / (m.dt * double(kData - tCd));
      m.cd = cd;
    }
    else
    {
      o.setCenterOfMass(c);
      if(difference)
      {
        V3 v = (c - m.c) / dt;
        m.cdd = (v - m.cd) / dt;
        m.cd = v;
      }
    }
    m.c = c;
    if(given > 0 || difference) tCd = kData;
    tC = kData;
  }
  void momentum(const V3 & s, bool rate, const V3 & sd)
  {
    begin();
    if(rate || full)
    {
      o.setAngularMomentum(s, sd);
      m.sd = sd;
    }
    else
    {
      o.setAngularMomentum(s);
      if(tS > 0 && tS < kData) m.sd = (s - m.s) / (m.dt * double(kData - tS));
    }
    m.s = s;
    tS = kData;
  }
  void added(const V3 & F, const V3 & T)
  {
    m.F = F, m.T = T;
    o.setAdditionalWrench(F, T);
  }

  // ---- contacts
  int add(int n, const V3 & p, const M3 & R, const M12 * ci, const M12 * cp, bool stiffness[4], const M3 K[4])
  {
    int want = n;
    if(n < 0)
      for(want = 0; m.contacts[size_t(want)].set;) ++want;
    Kine k = pose(g, p, R);
    M3 def[4] = {Obs::linearStiffnessDefault * M3::Identity(), Obs::linearDampingDefault * M3::Identity(),
                 Obs::angularStiffnessDefault * M3::Identity(), Obs::angularDampingDefault * M3::Identity()};
    so::Matrix3 a[4];
    for(int i = 0; i < 4; ++i)
    {
      a[i] = stiffness[i] ? K[i] : M3(M3::Zero());
      if(stiffness[i]) def[i] = K[i];
    }
    int got = ci ? o.addContact(k, *ci, *cp, n, a[0], a[1], a[2], a[3]) : o.addContact(k, n, a[0], a[1], a[2], a[3]);
    REQUIRE(got == want, "number of the contact " << got << " expected " << want);
    Contact c;
    c.set = true;
    c.K = def[0], c.D = def[1], c.Kr = def[2], c.Dr = def[3];
    m.contacts[size_t(want)] = c;
    return want;
  }
  void remove(int n)
  {
    o.removeContact(n);
    m.contacts[size_t(n)] = Contact();
  }
  void clear()
  {
    o.clearContacts();
    for(Contact & c : m.contacts) c = Contact();
  }

  // ---- what the measurement is made of
  Vec measurement() const
  {
    std::vector<double> y;
    auto push = [&](const Vec & v) { y.insert(y.end(), v.data(), v.data() + v.size()); };
    if(kEst != kData)
    {
      for(const Imu & i : m.imus)
        if(i.fresh) push(i.acc), push(i.gyr);
      for(const Contact & c : m.contacts)
        if(c.set && c.sensor) push(c.wrench);
      if(m.pose) push(poseValue);
    }
    return Eigen::Map<Vec>(y.data(), long(y.size()));
  }
  Mat noise() const
  {
    std::vector<Mat> b;
    for(const Imu & i : m.imus)
      if(i.fresh) b.push_back(i.ca), b.push_back(i.cg);
    for(const Contact & c : m.contacts)
      if(c.set && c.sensor) b.push_back(c.cov);
    if(m.pose) b.push_back(poseCov);
    long n = 0;
    for(const Mat & a : b) n += a.rows();
    Mat R = Mat::Zero(n, n);
    n = 0;
    for(const Mat & a : b) R.block(n, n, a.rows(), a.rows()) = a, n += a.rows();
    return R;
  }
  bool ready() const
  {
    for(const Contact & c : m.contacts)
      if(c.set && !c.fresh) return false;
    return true;
  }
  /// the contacts, the sizes and the measurement, whatever the moment
  void compareBook()
  {
    std::vector<int> l = contactList();
    REQUIRE(o.getListOfContacts() == l, "list of " << o.getListOfContacts().size() << " contacts, expected " << l.size());
    REQUIRE(o.getNumberOfContacts() == long(l.size()), "number of contacts " << o.getNumberOfContacts() << " expected "
                                                                            << l.size());
    Vec y = measurement();
    REQUIRE(o.getMeasurementSize() == y.size(), "size of the measurement " << o.getMeasurementSize() << " expected "
                                                                          << y.size());
    Vec got = o.getMeasurementVector();
    REQUIRE(got.size() == y.size(), "size of the measurement vector " << got.size() << " expected " << y.size());
    if(kEst != kData && m.pose && got.tail<4>().dot(y.tail<4>()) < 0) got.tail<4>() = -got.tail<4>();
    CLOSE(got, y, 1e-13, "measurement vector");
    REQUIRE(o.getStateSize() == m.size(), "state size " << o.getStateSize());
    REQUIRE(o.getStateVectorTimeIndex() == kEst, "time of the state " << o.getStateVectorTimeIndex() << " expected " << kEst);
  }
};
} // namespace kinetics
