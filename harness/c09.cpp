// C09: an orientation object stands for one rotation whatever it has cached (stateful, model = one matrix per object).
#include "rot.hpp"
using namespace stateObservation;
using kine::Orientation;

static const double tol = 1e-10;

/// one query chosen at random (queries may fill caches)
static void query(Gen & g, const Orientation & o, const M3 & R)
{
  REQUIRE(o.isSet(), "orientation not set");
  switch(g.u(9))
  {
    case 0: CLOSE(M3(o.toMatrix3()), R, tol, "matrix"); break;
    case 1:
      CLOSE(rot::ofQuat(o.toQuaternion()), R, tol, "quaternion");
      REQUIRE(std::fabs(o.toQuaternion().norm() - 1) < 1e-11, "quaternion norm " << o.toQuaternion().norm());
      break;
    case 2:
    {
      V3 v = o.toRotationVector();
      REQUIRE(v.norm() <= M_PI + 1e-9, "rotation vector norm " << v.norm());
      CLOSE(pbt::expm(v), R, tol, "rotation vector");
      break;
    }
    case 3: CLOSE(rot::ofRpy(o.toRollPitchYaw()), R, tol, "roll pitch yaw"); break;
    case 4: CLOSE(rot::ofAA(o.toAngleAxis()), R, tol, "angle axis"); break;
    case 5:
    {
      V3 v = g.v3(10);
      CLOSE(V3(o * Vector3(v)), V3(R * v), tol, "rotated vector");
      break;
    }
    case 6: CLOSE(rot::ofQuat(Quaternion(o.toVector4())), R, tol, "4-vector"); break;
    case 7:
    {
      const Matrix3 & m = o;
      CLOSE(M3(m), R, tol, "matrix conversion");
      break;
    }
    case 8:
    {
      const Quaternion & q = o;
      CLOSE(rot::ofQuat(q), R, tol, "quaternion conversion");
      break;
    }
    default: break;
  }
}
static void queryAll(Gen & g, Orientation & o, const M3 & R)
{
  for(size_t k = g.u(2); k > 0; --k) query(g, o, R);
  Orientation c(o); // a copy must not disturb what is cached
  CLOSE(pbt::expm(V3(c.toRotationVector())), R, tol, "rotation vector");
  CLOSE(V3(c * Vector3(1, 2, 3)), V3(R * V3(1, 2, 3)), tol, "rotated vector");
  CLOSE(M3(c.toMatrix3()), R, tol, "matrix");
  CLOSE(rot::ofQuat(c.toQuaternion()), R, tol, "quaternion");
  CLOSE(rot::ofAA(c.toAngleAxis()), R, tol, "angle axis");
}

FACET(history, 400000, 2400000, "at least four operations, both representations used")
{
  const size_t n = 3;
  std::vector<Orientation> o;
  std::vector<M3> R;
  for(size_t k = 0; k < n; ++k)
  {
    R.push_back(rot::anyRotation(g));
    o.push_back(rot::orientation(g, R.back()));
  }
  size_t steps = 1 + g.many(14, 100);
  bool both = false;
  for(size_t s = 0; s < steps; ++s)
  {
    size_t a = g.u(n - 1), b = g.u(n - 1), c = g.u(n - 1);
    switch(g.u(18))
    {
      case 0:
        g.label("product");
        o[c] = o[a] * o[b];
        R[c] = (R[a] * R[b]).eval();
        break;
      case 1:
        if(c == a || c == b) break;
        g.label("product without alias");
        o[c].setToProductNoAlias(o[a], o[b]);
        R[c] = (R[a] * R[b]).eval();
        break;
      case 2:
        g.label("inverse");
        o[c] = o[a].inverse();
        R[c] = R[a].transpose().eval();
        break;
      case 3:
      {
        g.label("integrate");
        V3 w = g.b() ? g.v3(3) : V3(g.axis() * g.mag(-15, 0));
        const Orientation & r = o[c].integrate(w);
        REQUIRE(&r == &o[c], "integrate returns another object");
        R[c] = pbt::expm(w) * R[c];
        break;
      }
      case 4:
      {
        g.label("differentiate");
        V3 d = o[a].differentiate(o[b]);
        M3 e = R[b] * R[a].transpose();
        CLOSE(pbt::expm(d), e, tol, "difference");
        REQUIRE(d.norm() <= M_PI + 1e-9, "difference of norm " << d.norm());
        if(a != b)
        {
          o[a].integrate(d);
          R[a] = R[b];
        }
        else
          CLOSE(d, V3(V3::Zero()), 1e-7, "difference with itself");
        break;
      }
      case 5:
      {
        g.label("assign matrix");
        R[c] = rot::anyRotation(g);
        Matrix3 m = R[c];
        o[c] = m;
        break;
      }
      case 6:
      {
        g.label("assign quaternion");
        R[c] = rot::anyRotation(g);
        o[c] = rot::toQuat(R[c], g.b());
        break;
      }
      case 7:
      {
        g.label("assign vector");
        V3 v = g.b() ? pbt::logm(rot::anyRotation(g)) : g.v3(8);
        R[c] = pbt::expm(v);
        o[c] = Vector3(v);
        break;
      }
      case 8:
      {
        g.label("assign angle axis");
        R[c] = rot::anyRotation(g);
        o[c] = rot::toAA(R[c]);
        break;
      }
      case 9:
      {
        g.label("set both");
        R[c] = rot::anyRotation(g);
        o[c].setValue(rot::toQuat(R[c], g.b()), R[c]);
        both = true;
        break;
      }
      case 10:
        g.label("assign 4-vector");
        R[c] = rot::anyRotation(g);
        o[c].fromVector4(rot::toQuat(R[c], g.b()).coeffs());
        break;
      case 11:
        g.label("zero");
        switch(g.u(3))
        {
          case 0: o[c].setZeroRotation(); break;
          case 1: o[c].setZeroRotation<Matrix3>(); break;
          case 2: o[c].setZeroRotation<Quaternion>(); break;
          default: o[c] = Orientation::zeroRotation();
        }
        R[c].setIdentity();
        break;
      case 12:
        g.label("synchronize");
        o[c].synchronize();
        REQUIRE(o[c].isMatrixSet() && o[c].isQuaternionSet(), "synchronize leaves a representation unset");
        both = true;
        break;
      case 13:
        g.label("copy");
        o[c] = o[a];
        R[c] = R[a];
        break;
      case 14:
      {
        g.label("roll pitch yaw");
        V3 r = g.v3(4);
        o[c] = Orientation(r(0), r(1), r(2));
        R[c] = rot::ofRpy(r);
        break;
      }
      case 15:
        g.label("reset then set");
        o[c].reset();
        REQUIRE(!o[c].isSet() && !o[c].isMatrixSet() && !o[c].isQuaternionSet(), "set after reset");
        R[c] = rot::anyRotation(g);
        if(g.b())
          o[c] = Matrix3(R[c]);
        else
          o[c] = rot::toQuat(R[c], g.b());
        break;
      case 16:
        g.label("drop a cached representation");
        if(o[c].isMatrixSet() && o[c].isQuaternionSet())
        {
          if(g.b())
            o[c].setMatrix(false);
          else
            o[c].setQuaternion(false);
        }
        break;
      case 17:
        g.label("assign from itself");
        switch(g.u(4))
        {
          case 0: o[c] = o[c].toMatrix3(); break;
          case 1: o[c] = o[c].toQuaternion(); break;
          case 2: o[c] = o[c].toRotationVector(); break;
          case 3: o[c] = o[c].toAngleAxis(); break;
          default: o[c] = o[c] * o[c].inverse() * o[c];
        }
        break;
      default:
        g.label("query");
        for(size_t k = g.u(3); k > 0; --k) query(g, o[c], R[c]);
    }
    if(o[c].isMatrixSet() && o[c].isQuaternionSet()) both = true;
    queryAll(g, o[c], R[c]);
    queryAll(g, o[a], R[a]);
    queryAll(g, o[b], R[b]);
  }
  if(steps >= 4 && both) g.nontrivial();
}

FACET(group_laws, 160000, 640000, "three rotations away from identity")
{
  M3 A = rot::anyRotation(g), B = rot::anyRotation(g), C = rot::anyRotation(g);
  if(pbt::logm(A).norm() > 0.1 && pbt::logm(B).norm() > 0.1 && pbt::logm(C).norm() > 0.1) g.nontrivial();
  Orientation a = rot::orientation(g, A), b = rot::orientation(g, B), c = rot::orientation(g, C);
  CLOSE(M3(((a * b) * c).toMatrix3()), M3((a * (b * c)).toMatrix3()), tol, "associativity");
  CLOSE(M3((a * a.inverse()).toMatrix3()), M3(M3::Identity()), tol, "right inverse");
  CLOSE(M3((a.inverse() * a).toMatrix3()), M3(M3::Identity()), tol, "left inverse");
  CLOSE(M3((a * b).inverse().toMatrix3()), M3((b.inverse() * a.inverse()).toMatrix3()), tol, "inverse of a product");
  CLOSE(M3((a * Orientation::zeroRotation()).toMatrix3()), A, tol, "neutral element");
  CLOSE(V3((a * b) * Vector3(1, -2, 3)), V3(a * Vector3(b * Vector3(1, -2, 3))), tol, "product applied to a vector");
  V3 d = a.differentiate(b);
  Orientation e(a);
  e.integrate(d);
  CLOSE(M3(e.toMatrix3()), B, tol, "integrating the difference");
  CLOSE(pbt::expm(-V3(b.differentiate(a))), pbt::expm(d), tol, "antisymmetry of the difference");
}

FACET(both_given, 80000, 320000, "two-representation construction")
{
  M3 A = rot::anyRotation(g), B = rot::anyRotation(g);
  g.nontrivial();
  Orientation a(rot::toQuat(A, g.b()), A);
  Orientation b(rot::toQuat(B, g.b()), B);
  Orientation p(a, b);
  queryAll(g, p, A * B);
  Orientation i = p.inverse();
  queryAll(g, i, (A * B).transpose());
  V3 w = g.v3(3);
  p.integrate(w);
  queryAll(g, p, pbt::expm(w) * A * B);
  // only one of them left
  Orientation q(p);
  if(g.b())
    q.setMatrix(false);
  else if(q.isMatrixSet())
    q.setQuaternion(false);
  queryAll(g, q, pbt::expm(w) * A * B);
}
