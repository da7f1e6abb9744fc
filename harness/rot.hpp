// Shared generators and oracles for rotations and moving frames (independent of the library's own formulas).
#pragma once
#include "pbt.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>

namespace rot
{
typedef Eigen::Quaterniond Q;
typedef Eigen::AngleAxisd AA;

/// rotation matrix of a quaternion, written out
inline M3 ofQuat(const Q & q)
{
  double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  M3 m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
      2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
inline M3 ofAA(const AA & a) { return pbt::expm(V3(a.axis() * a.angle())); }
inline M3 ofRpy(const V3 & r) { return pbt::rotZ(r(2)) * pbt::rotY(r(1)) * pbt::rotX(r(0)); }
/// unit quaternion of a rotation, written out through the logarithm; sign chosen by the caller
inline Q toQuat(const M3 & R, bool negative)
{
  V3 v = pbt::logm(R);
  double t = v.norm();
  double s = t < 1e-8 ? 0.5 : std::sin(t / 2) / t;
  Q q(std::cos(t / 2), s * v(0), s * v(1), s * v(2));
  if(negative) q.coeffs() = -q.coeffs();
  return q;
}
inline AA toAA(const M3 & R)
{
  V3 v = pbt::logm(R);
  double t = v.norm();
  if(t < 1e-300) return AA(0, V3::UnitX());
  return AA(t, v / t);
}
inline void orthonormal(const M3 & R, double tol, const char * what)
{
  CLOSE(R * R.transpose(), M3(M3::Identity()), tol, what);
  REQUIRE(std::fabs(R.determinant() - 1) < 10 * tol, what << ": determinant " << R.determinant());
}
/// rotation with the special positions well represented, half turns about and around the axes included
inline M3 anyRotation(Gen & g)
{
  if(g.p(1, 5))
  { // products of quarter turns, slightly disturbed or not
    M3 m = M3::Identity();
    for(size_t k = g.u(3); k > 0; --k)
    {
      V3 a = V3::Zero();
      a(g.u(2)) = 1;
      m = m * pbt::expm(a * (M_PI / 2 * double(g.i(0, 3))));
    }
    if(g.b()) m = m * pbt::expm(g.axis() * g.mag(-14, -3));
    return m;
  }
  return pbt::rotation(g);
}
/// quadratic motion of a frame: value, first and second time derivative of its homogeneous matrix
struct Jet
{
  Eigen::Matrix4d m[3];
  Jet operator*(const Jet & o) const
  {
    Jet r;
    r.m[0] = m[0] * o.m[0];
    r.m[1] = m[1] * o.m[0] + m[0] * o.m[1];
    r.m[2] = m[2] * o.m[0] + 2 * m[1] * o.m[1] + m[0] * o.m[2];
    return r;
  }
  /// (M^-1)' and (M^-1)'' from the derivatives of M M^-1 = I
  Jet inverse() const
  {
    Jet r;
    M3 R = m[0].topLeftCorner<3, 3>();
    r.m[0].setIdentity();
    r.m[0].topLeftCorner<3, 3>() = R.transpose();
    r.m[0].topRightCorner<3, 1>() = -(R.transpose() * m[0].topRightCorner<3, 1>());
    r.m[1] = -r.m[0] * m[1] * r.m[0];
    r.m[2] = -r.m[0] * (m[2] * r.m[0] + 2 * m[1] * r.m[1]);
    return r;
  }
};
struct Motion
{
  V3 p = V3::Zero(), v = V3::Zero(), a = V3::Zero(), w = V3::Zero(), wd = V3::Zero();
  M3 R = M3::Identity();
  Jet jet() const
  {
    Jet j;
    j.m[0].setIdentity();
    j.m[1].setZero();
    j.m[2].setZero();
    j.m[0].topLeftCorner<3, 3>() = R;
    j.m[1].topLeftCorner<3, 3>() = pbt::skew(w) * R;
    j.m[2].topLeftCorner<3, 3>() = (pbt::skew(wd) + pbt::skew(w) * pbt::skew(w)) * R;
    j.m[0].topRightCorner<3, 1>() = p;
    j.m[1].topRightCorner<3, 1>() = v;
    j.m[2].topRightCorner<3, 1>() = a;
    return j;
  }
  static V3 vee(const M3 & m) { return 0.5 * V3(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)); }
  static Motion of(const Jet & j)
  {
    Motion r;
    r.R = j.m[0].topLeftCorner<3, 3>();
    M3 W = j.m[1].topLeftCorner<3, 3>() * r.R.transpose();
    r.w = vee(W);
    r.wd = vee(j.m[2].topLeftCorner<3, 3>() * r.R.transpose() - W * W);
    r.p = j.m[0].topRightCorner<3, 1>();
    r.v = j.m[1].topRightCorner<3, 1>();
    r.a = j.m[2].topRightCorner<3, 1>();
    return r;
  }
};
inline Motion motion(Gen & g, double m)
{
  Motion r;
  r.p = g.v3(m);
  r.v = g.v3(m);
  r.a = g.v3(m);
  r.w = g.v3(m);
  r.wd = g.v3(m);
  r.R = anyRotation(g);
  return r;
}
typedef stateObservation::kine::Kinematics K;
/// orientation object of R in one of its representations, possibly with both cached
inline stateObservation::kine::Orientation orientation(Gen & g, const M3 & R)
{
  using stateObservation::kine::Orientation;
  switch(g.u(4))
  {
    case 0: return Orientation(stateObservation::Matrix3(R));
    case 1: return Orientation(toQuat(R, g.b()));
    case 2: return Orientation(toQuat(R, g.b()), R);
    case 3: return Orientation(toAA(R));
    default: return Orientation(stateObservation::Vector3(pbt::logm(R)));
  }
}
/// kinematics holding the selected parts of a motion (bits as in Kinematics::Flags, fixed here by the documented order)
inline K kinematics(Gen & g, const Motion & m, unsigned f)
{
  K k;
  if(f & 1) k.position = stateObservation::Vector3(m.p);
  if(f & 2) k.orientation = orientation(g, m.R);
  if(f & 4) k.linVel = stateObservation::Vector3(m.v);
  if(f & 8) k.angVel = stateObservation::Vector3(m.w);
  if(f & 16) k.linAcc = stateObservation::Vector3(m.a);
  if(f & 32) k.angAcc = stateObservation::Vector3(m.wd);
  return k;
}
inline unsigned content(const K & k)
{
  return unsigned(k.position.isSet()) + 2 * unsigned(k.orientation.isSet()) + 4 * unsigned(k.linVel.isSet())
         + 8 * unsigned(k.angVel.isSet()) + 16 * unsigned(k.linAcc.isSet()) + 32 * unsigned(k.angAcc.isSet());
}
/// every part k holds equals that of m; both cached representations of the orientation are compared
inline void compare(const K & k, const Motion & m, double tol, const char * what)
{
  std::string w = what;
  if(k.position.isSet()) CLOSE(V3(k.position()), m.p, tol, (w + " position").c_str());
  if(k.linVel.isSet()) CLOSE(V3(k.linVel()), m.v, tol, (w + " linear velocity").c_str());
  if(k.linAcc.isSet()) CLOSE(V3(k.linAcc()), m.a, tol, (w + " linear acceleration").c_str());
  if(k.angVel.isSet()) CLOSE(V3(k.angVel()), m.w, tol, (w + " angular velocity").c_str());
  if(k.angAcc.isSet()) CLOSE(V3(k.angAcc()), m.wd, tol, (w + " angular acceleration").c_str());
  if(k.orientation.isSet())
  {
    CLOSE(M3(k.orientation.toMatrix3()), m.R, tol, (w + " orientation matrix").c_str());
    CLOSE(ofQuat(k.orientation.toQuaternion()), m.R, tol, (w + " orientation quaternion").c_str());
  }
}
} // namespace rot
