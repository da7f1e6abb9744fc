// C08: conversions between the representations of a rotation.
#include "rot.hpp"
using namespace stateObservation;
using rot::AA;
using rot::Q;

namespace
{
enum Rep
{
  VEC,
  ANGAX,
  QUAT,
  MAT,
  RPY,
  HOMO,
  POSE6,
  N
};
struct Any
{
  Rep r;
  V3 vec;
  AA aa;
  Q q;
  M3 m;
  V3 rpy;
  Matrix4 h;
  Vector6 v6;
};
M3 value(const Any & a)
{
  switch(a.r)
  {
    case VEC: return pbt::expm(a.vec);
    case ANGAX: return rot::ofAA(a.aa);
    case QUAT: return rot::ofQuat(a.q);
    case MAT: return a.m;
    case RPY: return rot::ofRpy(a.rpy);
    case HOMO: return a.h.topLeftCorner<3, 3>();
    default: return pbt::expm(V3(a.v6.tail<3>()));
  }
}
void wellFormed(const Any & a)
{
  const double t = 1e-12;
  switch(a.r)
  {
    case VEC: REQUIRE(a.vec.norm() <= M_PI + 1e-9, "rotation vector of norm " << a.vec.norm()); break;
    case ANGAX: REQUIRE(std::fabs(a.aa.axis().norm() - 1) < t, "axis of norm " << a.aa.axis().norm()); break;
    case QUAT: REQUIRE(std::fabs(a.q.norm() - 1) < t, "quaternion of norm " << a.q.norm()); break;
    case MAT: rot::orthonormal(a.m, t, "rotation matrix"); break;
    case RPY:
      REQUIRE(std::fabs(a.rpy(0)) <= M_PI + 1e-12 && std::fabs(a.rpy(1)) <= M_PI / 2 + 1e-12
                  && std::fabs(a.rpy(2)) <= M_PI + 1e-12,
              "roll pitch yaw out of range " << a.rpy.transpose());
      break;
    case HOMO:
      rot::orthonormal(a.h.topLeftCorner<3, 3>(), t, "homogeneous matrix");
      REQUIRE(a.h.row(3) == Eigen::RowVector4d(0, 0, 0, 1), "last row of the homogeneous matrix");
      break;
    default: REQUIRE(a.v6.tail<3>().norm() <= M_PI + 1e-9, "pose vector rotation norm"); break;
  }
}
} // namespace

FACET(chains, 1600000, 6400000, "at least three conversions")
{
  M3 R = rot::anyRotation(g);
  if(g.p(1, 4))
  { // gimbal lock and its neighbourhood
    double d = g.b() ? 0 : g.mag(-13, -2);
    R = rot::ofRpy(V3(g.sym(3), (g.b() ? -1 : 1) * (M_PI / 2 - d), g.sym(3)));
    g.label("near gimbal lock");
  }
  V3 t = g.v3(5);
  Any a;
  a.r = Rep(g.u(N - 1));
  a.vec = pbt::logm(R);
  a.aa = rot::toAA(R);
  a.q = rot::toQuat(R, g.b());
  a.m = R;
  a.rpy = V3::Zero();
  if(a.r == RPY)
  { // any angles
    a.rpy = g.v3(6);
    R = rot::ofRpy(a.rpy);
    g.label("starts from roll pitch yaw");
  }
  a.h.setIdentity();
  a.h.topLeftCorner<3, 3>() = R;
  a.h.topRightCorner<3, 1>() = t;
  a.v6 << t, a.vec;
  size_t n = 1 + g.u(7);
  if(n >= 3) g.nontrivial();
  for(size_t k = 0; k < n; ++k)
  {
    Any b = a;
    switch(a.r)
    {
      case VEC:
        switch(g.u(2))
        {
          case 0:
            b.r = ANGAX;
            b.aa = kine::rotationVectorToAngleAxis(a.vec);
            break;
          case 1:
            b.r = QUAT;
            b.q = kine::rotationVectorToQuaternion(a.vec);
            break;
          default:
            b.r = MAT;
            b.m = kine::rotationVectorToRotationMatrix(a.vec);
        }
        break;
      case ANGAX:
        b.r = VEC;
        b.vec = kine::Orientation(AngleAxis(a.aa)).toRotationVector();
        break;
      case QUAT:
        switch(g.u(3))
        {
          case 0:
            b.r = VEC;
            b.vec = kine::quaternionToRotationVector(a.q);
            break;
          case 1:
            b.r = VEC;
            b.vec = kine::quaternionToRotationVector(Vector4(a.q.coeffs()));
            break;
          case 2:
          {
            Q r;
            r.vec() = kine::vectorComponent(a.q);
            r.w() = kine::scalarComponent(a.q);
            b.r = QUAT;
            b.q = r;
            break;
          }
          default:
            b.r = MAT;
            b.m = kine::Orientation(a.q).toMatrix3();
        }
        break;
      case MAT:
        switch(g.u(4))
        {
          case 0:
            b.r = VEC;
            b.vec = kine::rotationMatrixToRotationVector(a.m);
            break;
          case 1:
            b.r = RPY;
            b.rpy = kine::rotationMatrixToRollPitchYaw(a.m);
            break;
          case 2:
          {
            Vector3 out, r = kine::rotationMatrixToRollPitchYaw(a.m, out);
            CLOSE(V3(r), V3(out), 0, "roll pitch yaw returned and stored");
            b.r = RPY;
            b.rpy = out;
            break;
          }
          case 3:
            b.r = HOMO;
            b.h.topLeftCorner<3, 3>() = a.m;
            break;
          default:
            b.r = QUAT;
            b.q = kine::Orientation(Matrix3(a.m)).toQuaternion();
        }
        break;
      case RPY:
        switch(g.u(3))
        {
          case 0:
            b.r = MAT;
            b.m = kine::rollPitchYawToRotationMatrix(a.rpy);
            break;
          case 1:
            b.r = MAT;
            b.m = kine::rollPitchYawToRotationMatrix(a.rpy(0), a.rpy(1), a.rpy(2));
            break;
          case 2:
            b.r = QUAT;
            b.q = kine::rollPitchYawToQuaternion(a.rpy);
            break;
          default:
            b.r = QUAT;
            b.q = kine::rollPitchYawToQuaternion(a.rpy(0), a.rpy(1), a.rpy(2));
        }
        break;
      case HOMO:
        b.r = POSE6;
        b.v6 = kine::homogeneousMatrixToVector6(a.h);
        CLOSE(V3(b.v6.head<3>()), t, 0, "position");
        break;
      default:
        if(g.b())
        {
          b.r = HOMO;
          b.h = kine::vector6ToHomogeneousMatrix(a.v6);
          CLOSE(V3(b.h.topRightCorner<3, 1>()), t, 0, "position");
        }
        else
        {
          b.r = VEC;
          b.vec = a.v6.tail<3>();
        }
    }
    g.label("from " + std::to_string(a.r) + " to " + std::to_string(b.r));
    wellFormed(b);
    CLOSE(value(b), value(a), 1e-11, "conversion changes the rotation");
    CLOSE(value(b), R, 1e-10, "chain of conversions changes the rotation");
    a = b;
  }
}

FACET(rpy_roundtrip, 400000, 1600000, "pitch within (-pi/2,pi/2)")
{ // inside the regular range the three angles come back
  V3 r(M_PI * (2 * g.unit() - 1), (M_PI / 2 - 0.01) * (2 * g.unit() - 1), M_PI * (2 * g.unit() - 1));
  g.nontrivial();
  V3 s = kine::rotationMatrixToRollPitchYaw(kine::rollPitchYawToRotationMatrix(r));
  for(int i = 0; i < 3; ++i)
    REQUIRE(std::fabs(std::remainder(s(i) - r(i), 2 * M_PI)) < 1e-11,
            "angle " << i << " is " << s(i) << " instead of " << r(i));
  CLOSE(kine::rollPitchYawToRotationMatrix(r), rot::ofRpy(r), 1e-13, "roll pitch yaw convention");
}

FACET(regulate, 800000, 3200000, "norm above pi")
{
  V3 v = g.axis();
  double n;
  switch(g.u(4))
  {
    case 0: n = g.angle(); break;
    case 1: n = M_PI * double(g.i(0, 12)) / 2 + g.sym(1e-6); break;
    case 2: n = g.real(0, 8); break;
    case 3: n = g.real(0, 100); break;
    default: n = g.mag(-12, 3);
  }
  v *= std::fabs(n);
  n = v.norm();
  if(n > M_PI) g.nontrivial();
  g.labelIf(n > 1.5 * M_PI, "to be reduced");
  Vector r = g.b() ? Vector(kine::regulateOrientationVector(v)) : Vector(kine::regulateRotationVector(v));
  REQUIRE(r.size() == 3, "size " << r.size());
  V3 w = r;
  if(n > 1.5 * M_PI * (1 + 1e-12))
    REQUIRE(w.norm() <= M_PI * (1 + 1e-12), "norm " << w.norm() << " after regulating " << n);
  else
    REQUIRE(w.norm() <= std::max(n, M_PI) * (1 + 1e-12), "norm " << w.norm() << " after regulating " << n);
  if(n <= M_PI) CLOSE(w, v, 0, "regular vector changed");
  CLOSE(pbt::expm(w), pbt::expm(v), 1e-12 * (1 + n), "regulating changes the rotation");
}

FACET(random_rotations, 120000, 480000, "always")
{
  g.nontrivial();
  Q q = kine::randomRotationQuaternion();
  REQUIRE(std::fabs(q.norm() - 1) < 1e-12, "random quaternion of norm " << q.norm());
  double a = kine::randomAngle();
  REQUIRE(a >= -M_PI && a <= M_PI, "random angle " << a);
  kine::Orientation o = kine::Orientation::randomRotation();
  rot::orthonormal(o.toMatrix3(), 1e-12, "random orientation");
  CLOSE(rot::ofQuat(kine::zeroRotationQuaternion()), M3(M3::Identity()), 0, "zero rotation");
}
