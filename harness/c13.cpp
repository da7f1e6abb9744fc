// C13: tilt and yaw.
#include "rot.hpp"
using namespace stateObservation;

static const V3 ez(0, 0, 1);
static M3 anyTilt(Gen & g)
{
  M3 R = rot::anyRotation(g);
  if(g.p(1, 4)) R = pbt::rotZ(g.sym(3)) * pbt::rotX(M_PI * double(g.u(1)) + (g.b() ? 0 : g.mag(-15, -2)));
  return R;
}

FACET(merge_agnostic, 1600000, 6400000, "tilts differ by more than 0.01")
{
  M3 R1 = anyTilt(g), R2 = anyTilt(g);
  V3 t = R1.transpose() * ez;
  // relation between the tilts: equal, close, generic, nearly opposite, opposite
  switch(g.u(5))
  {
    case 0: R2 = pbt::rotZ(g.sym(3)) * R1; break;
    case 1: R2 = pbt::rotZ(g.sym(3)) * pbt::expm(g.axis() * g.mag(-15, -1)) * R1; break;
    case 2:
      R2 = pbt::rotZ(g.sym(3)) * pbt::rotX(M_PI + (g.b() ? 0 : g.mag(-15, -2))) * pbt::rotZ(g.sym(3)) * R1;
      g.label("opposite tilts");
      break;
    default: break;
  }
  if((R2.transpose() * ez - t).norm() > 0.01) g.nontrivial();
  M3 R = g.b() ? M3(kine::mergeTiltWithYawAxisAgnostic(t, R2)) : M3(kine::mergeRoll1Pitch1WithYaw2AxisAgnostic(R1, R2));
  rot::orthonormal(R, 1e-9, "merged rotation");
  CLOSE(V3(R.transpose() * ez), t, 1e-9, "tilt of the merged rotation");
  // the heading agrees with R2: what takes R2 to R turns about a horizontal axis
  M3 D = R * R2.transpose();
  REQUIRE(std::fabs(D(1, 0) - D(0, 1)) < 1e-9, "heading changed by the merge: " << D(1, 0) - D(0, 1));
  REQUIRE(D(0, 0) + D(1, 1) > -1e-9, "heading turned by half a turn");
  CLOSE(kine::mergeRoll1Pitch1WithYaw2AxisAgnostic(R1, R1), R1, 1e-9, "merging with itself");
  // turning both about the vertical turns the result
  M3 Z = pbt::rotZ(g.sym(3));
  if((R2 * t + ez).norm() > 1e-4) // away from opposite tilts, where the heading is not unique
    CLOSE(kine::mergeTiltWithYawAxisAgnostic(t, Z * R2), Z * R, 1e-9, "heading follows the second orientation");
}

FACET(merge_axis, 1600000, 6400000, "tilts differ by more than 0.01")
{
  M3 R1 = anyTilt(g), R2 = anyTilt(g);
  double b = g.b() ? 0 : g.sym(3);
  V3 m(std::cos(b), std::sin(b), 0);
  V3 ml = R2.transpose() * m;
  if(g.p(1, 6))
  { // next to the singularity: the vertical seen by the first nearly along the reference axis seen by the second
    V3 d = pbt::expm(ml.unitOrthogonal() * g.mag(-10, -1)) * (g.b() ? V3(ml) : V3(-ml)), a = d.unitOrthogonal();
    R1.row(0) = a.transpose();
    R1.row(1) = d.cross(a).transpose();
    R1.row(2) = d.transpose();
    g.label("close to singular");
  }
  V3 t = R1.transpose() * ez;
  double s = ml.cross(t).norm();
  if(s < 1e-11)
  { // gimbal lock for this axis: documented to be refused when singular
    g.label("singular");
    return;
  }
  if((R2.transpose() * ez - t).norm() > 0.01) g.nontrivial();
  double tol = 1e-12 / s + 1e-12;
  M3 R;
  switch(g.u(3))
  {
    case 0: R = kine::mergeTiltWithYaw(t, R2, m); break;
    case 1: R = kine::mergeRoll1Pitch1WithYaw2(R1, R2, m); break;
    case 2:
      if(b != 0) g.label("default axis instead");
      m = V3(1, 0, 0);
      if((R2.transpose() * m).cross(t).norm() < 1e-11) return;
      tol = 1e-12 / (R2.transpose() * m).cross(t).norm() + 1e-12;
      R = kine::mergeTiltWithYaw(t, R2);
      break;
    default:
      m = V3(1, 0, 0);
      if((R2.transpose() * m).cross(t).norm() < 1e-11) return;
      tol = 1e-12 / (R2.transpose() * m).cross(t).norm() + 1e-12;
      R = kine::mergeRoll1Pitch1WithYaw2(R1, R2);
  }
  rot::orthonormal(R, tol, "merged rotation");
  CLOSE(V3(R.transpose() * ez), t, tol, "tilt of the merged rotation");
  // the reference axis keeps its heading: R R2^T m stays in the vertical half plane of m
  V3 x = R * R2.transpose() * m;
  REQUIRE(std::fabs(x.dot(ez.cross(m))) < tol * 10, "reference axis turned: " << x.transpose());
  REQUIRE(x.dot(m) > 0, "reference axis reversed");
  if((R1.transpose() * m).cross(t).norm() > 0.5)
    CLOSE(kine::mergeRoll1Pitch1WithYaw2(R1, R1, m), R1, 1e-11, "merging with itself");
}

static double wrap(double a) { return std::remainder(a, 2 * M_PI); }

FACET(yaw, 1600000, 6400000, "tilted orientation")
{
  M3 R = anyTilt(g);
  double a = g.real(-M_PI, M_PI);
  M3 Z = pbt::rotZ(a);
  if(R(2, 2) < 0.999) g.nontrivial();
  V3 row = R.row(2).transpose();
  double hz = row.head<2>().norm();
  // axis agnostic
  if(hz > 1e-4 || R(2, 2) > 0)
  {
    double y = kine::rotationMatrixToYawAxisAgnostic(R);
    REQUIRE(y >= -M_PI && y <= M_PI, "yaw " << y);
    REQUIRE(std::fabs(wrap(kine::rotationMatrixToYawAxisAgnostic(Z * R) - y - a)) < 1e-9,
            "turning about the vertical by " << a << " changes the heading from " << y << " to "
                                             << kine::rotationMatrixToYawAxisAgnostic(Z * R));
    REQUIRE(std::fabs(wrap(kine::rotationMatrixToYawAxisAgnostic(R * Z) - y - a)) < 1e-9,
            "turning first about the vertical changes the heading differently");
    // removing the heading leaves a rotation about a horizontal axis
    M3 D = pbt::rotZ(-y) * R;
    REQUIRE(std::fabs(D(1, 0) - D(0, 1)) < 1e-9, "rest of the rotation is not about a horizontal axis");
    REQUIRE(std::fabs(kine::rotationMatrixToYawAxisAgnostic(pbt::expm(V3(g.sym(2), g.sym(2), 0)))) < 1e-9,
            "rotation about a horizontal axis has a heading");
  }
  // roll pitch yaw's yaw, and its generalisation to any horizontal vector and any axis
  if(std::hypot(R(0, 0), R(1, 0)) > 1e-4)
  {
    double y = kine::rotationMatrixToYaw(R);
    REQUIRE(std::fabs(wrap(y - std::atan2(R(1, 0), R(0, 0)))) < 1e-9, "yaw");
    REQUIRE(std::fabs(wrap(kine::rotationMatrixToYaw(Z * R) - y - a)) < 1e-9, "yaw after turning");
    REQUIRE(std::fabs(wrap(kine::rotationMatrixToYaw(R, Vector2(1, 0)) - y)) < 1e-9, "yaw with the x axis");
    REQUIRE(std::fabs(wrap(kine::rotationMatrixToYaw(rot::ofRpy(V3(g.sym(3), g.real(-1.5, 1.5), a))) - a)) < 1e-9,
            "yaw of roll pitch yaw");
  }
  double b = g.sym(3);
  Vector2 h(std::cos(b), std::sin(b));
  V3 h3(h(0), h(1), 0);
  V3 im = R * h3;
  if(im.head<2>().norm() > 1e-4)
  {
    double y = kine::rotationMatrixToYaw(R, h);
    REQUIRE(std::fabs(y) <= M_PI + 1e-12 && std::fabs(kine::rotationMatrixToYaw(R)) <= M_PI + 1e-12
                && std::fabs(kine::rotationMatrixToAngle(R, ez, h3)) <= M_PI + 1e-12,
            "heading beyond half a turn");
    REQUIRE(std::fabs(wrap(y - (std::atan2(im(1), im(0)) - b))) < 1e-9, "angle turned by a horizontal vector");
    REQUIRE(std::fabs(wrap(kine::rotationMatrixToAngle(R, ez, h3) - y)) < 1e-9, "angle about the vertical");
    // any axis: change of frame
    M3 B = rot::anyRotation(g);
    REQUIRE(std::fabs(wrap(kine::rotationMatrixToAngle(B * R * B.transpose(), B * ez, B * h3) - y)) < 1e-9,
            "angle about any axis");
  }
}

FACET(helpers, 1600000, 6400000, "not a pure yaw")
{
  M3 R = anyTilt(g), P = pbt::rotZ(g.sym(3));
  double hz = R.row(2).head<2>().norm();
  if(hz > 1e-3) g.nontrivial();
  // exact pure yaw: written entries
  double a = g.sym(3);
  M3 Y;
  Y << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
  REQUIRE(kine::isPureYaw(Y), "a rotation about the vertical is not recognised");
  if(hz > 1e-14) REQUIRE(!kine::isPureYaw(R), "a tilted rotation is taken for a pure yaw");
  for(const M3 & A : {M3(R), M3(Y), M3(P)})
  {
    V3 v = kine::getInvariantHorizontalVector(A);
    REQUIRE(v(2) == 0 && v.norm() > 0, "not horizontal or zero: " << v.transpose());
    REQUIRE(std::fabs((A * v)(2)) < 1e-14 * (1 + v.norm()) && std::fabs((A * v)(2)) <= 1e-9 * v.norm() + 1e-15,
            "image of the vector is not horizontal");
    V3 t = anyTilt(g).transpose() * ez;
    V3 w = kine::getInvariantOrthogonalVector(A, t);
    REQUIRE(w(2) == 0 && w.norm() > 0, "not horizontal or zero: " << w.transpose());
    REQUIRE(std::fabs((A.transpose() * w).dot(t)) < 1e-14 * (1 + w.norm()), "not orthogonal to the tilt");
  }
  // smallest rotation between two directions
  V3 u = g.axis(), w = g.axis();
  if(g.p(1, 3)) w = (pbt::expm(u.unitOrthogonal() * g.mag(-9, 0)) * u).normalized();
  if((u + w).norm() < 1e-3) return;
  M3 T = kine::twoVectorsToRotationMatrix(u, w);
  rot::orthonormal(T, 1e-9, "rotation between two vectors");
  CLOSE(V3(T * u), w, 1e-7, "rotation between two vectors");
  V3 l = pbt::logm(T);
  REQUIRE(std::fabs(l.norm() - std::atan2(u.cross(w).norm(), u.dot(w))) < 1e-7,
          "angle " << l.norm() << " is not the smallest one");
}
