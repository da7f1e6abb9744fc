// C14: defining identities of the rigid-body helpers.
#include "rot.hpp"
using namespace stateObservation;
using rot::Motion;

FACET(cross_products, 640000, 2560000, "generic vectors")
{
  double m = g.pick({1., 1e6, 1e-6});
  V3 v = g.v3(m), u = g.v3(m);
  if(v.cross(u).norm() > 0) g.nontrivial();
  M3 S = kine::skewSymmetric(v), out = M3::Constant(7), S2 = kine::skewSymmetric2(v), out2 = M3::Constant(7);
  CLOSE(S / m, pbt::skew(v) / m, 1e-15, "cross product matrix");
  CLOSE(V3(S * u) / m / m, V3(v.cross(u)) / m / m, 1e-14, "cross product");
  M3 r = kine::skewSymmetric(v, out);
  CLOSE(r / m, S / m, 1e-15, "returned cross product matrix");
  CLOSE(out / m, S / m, 1e-15, "stored cross product matrix");
  CLOSE(S2 / m / m, M3(pbt::skew(v) * pbt::skew(v)) / m / m, 1e-14, "square");
  r = kine::skewSymmetric2(v, out2);
  CLOSE(r / m / m, S2 / m / m, 1e-14, "returned square");
  CLOSE(out2 / m / m, S2 / m / m, 1e-14, "stored square");
}

FACET(jacobians, 320000, 1280000, "rotation increment above 0.01")
{
  V3 d = g.axis() * (g.b() ? g.angle() : 6 * g.unit());
  if(g.p(1, 8)) d = g.axis() * g.mag(-18, -6);
  if(d.norm() > 0.01) g.nontrivial();
  M3 a = M3::Constant(7), b = M3::Constant(7);
  kine::derivateRotationMultiplicative(d, a, b);
  // exp(d) exp(e) R = exp(a e) exp(d) R exactly: a is the adjoint
  CLOSE(a, pbt::expm(d), 1e-11, "derivative with regard to the orientation");
  // exp(d+e) = exp(b e + o(e)) exp(d): fourth-order central differences
  double h = 1e-3;
  M3 ref;
  for(int k = 0; k < 3; ++k)
  {
    V3 e = V3::Unit(k);
    auto f = [&](double s) { return pbt::logm(pbt::expm(d + s * e) * pbt::expm(-d)); };
    ref.col(k) = (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h);
  }
  CLOSE(b, ref, 1e-7, "derivative with regard to the increment");

  M3 R = rot::anyRotation(g);
  V3 v = g.v3(10);
  M3 J = kine::derivateRtvMultiplicative(R, v), N;
  for(int k = 0; k < 3; ++k)
  {
    V3 e = V3::Unit(k);
    auto f = [&](double s) { return V3((pbt::expm(s * e) * R).transpose() * v); };
    N.col(k) = (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h);
  }
  CLOSE(J, N, 1e-8, "derivative of a vector seen from a rotated frame");
}

FACET(homogeneous, 640000, 2560000, "moved and rotated frame")
{
  Motion m = rot::motion(g, 10), n = rot::motion(g, 10);
  Matrix4 H = m.jet().m[0], H2 = n.jet().m[0];
  if(m.p.norm() > 0 && pbt::logm(m.R).norm() > 0.01) g.nontrivial();
  Matrix4 I = kine::invertHomoMatrix(H);
  CLOSE(Mat(I * H), Mat(Mat::Identity(4, 4)), 1e-13 * 100, "inverse times matrix");
  CLOSE(Mat(H * I), Mat(Mat::Identity(4, 4)), 1e-13 * 100, "matrix times inverse");
  Vector6 v = kine::homogeneousMatrixToVector6(H);
  CLOSE(Mat(kine::vector6ToHomogeneousMatrix(v)), Mat(H), 1e-11, "vector round trip");
  // velocity between two poses: integrating it goes from the first to the second
  double dt = g.mag(-3, 0);
  Vector6 w = kine::derivateHomogeneousMatrixFD(H, H2, dt);
  CLOSE(V3(m.p + w.head<3>() * dt), n.p, 1e-11, "linear velocity between homogeneous matrices");
  CLOSE(M3(pbt::expm(w.tail<3>() * dt) * m.R), n.R, 1e-10, "angular velocity between homogeneous matrices");
  REQUIRE(w.tail<3>().norm() * dt <= M_PI + 1e-9, "not the shortest rotation");
  Vector6 v2;
  v2 << n.p, pbt::logm(n.R);
  w = kine::derivatePoseThetaUFD(v, v2, dt);
  CLOSE(V3(m.p + w.head<3>() * dt), n.p, 1e-11, "linear velocity between poses");
  CLOSE(M3(pbt::expm(w.tail<3>() * dt) * m.R), n.R, 1e-10, "angular velocity between poses");
  V3 o = kine::derivateRotationFD(rot::toQuat(m.R, g.b()), rot::toQuat(n.R, g.b()), dt);
  CLOSE(M3(pbt::expm(o * dt) * m.R), n.R, 1e-10, "angular velocity between quaternions");
  REQUIRE(o.norm() * dt <= M_PI + 1e-9, "not the shortest rotation");
  o = kine::derivateRotationFD(Vector3(pbt::logm(m.R)), Vector3(pbt::logm(n.R)), dt);
  CLOSE(M3(pbt::expm(o * dt) * m.R), n.R, 1e-10, "angular velocity between rotation vectors");
}

FACET(inverse_state, 480000, 1920000, "all velocities and accelerations non-zero")
{
  Motion m = rot::motion(g, 3);
  if(m.v.norm() > 0 && m.w.norm() > 0 && m.a.norm() > 0 && m.wd.norm() > 0 && m.p.norm() > 0) g.nontrivial();
  typedef kine::indexes<kine::rotationVector> I;
  Vector x(18);
  x.segment<3>(I::pos) = m.p;
  x.segment<3>(I::ori) = pbt::logm(m.R);
  x.segment<3>(I::linVel) = m.v;
  x.segment<3>(I::angVel) = m.w;
  x.segment<3>(I::linAcc) = m.a;
  x.segment<3>(I::angAcc) = m.wd;
  REQUIRE(I::size == 18, "size");
  Vector y = kine::invertState(x);
  REQUIRE(y.size() == 18, "size " << y.size());
  Motion e = Motion::of(m.jet().inverse());
  CLOSE(V3(y.segment<3>(I::pos)), e.p, 1e-11, "position");
  CLOSE(pbt::expm(y.segment<3>(I::ori)), e.R, 1e-11, "orientation");
  CLOSE(V3(y.segment<3>(I::linVel)), e.v, 1e-11, "linear velocity");
  CLOSE(V3(y.segment<3>(I::angVel)), e.w, 1e-11, "angular velocity");
  CLOSE(V3(y.segment<3>(I::linAcc)), e.a, 1e-10, "linear acceleration");
  CLOSE(V3(y.segment<3>(I::angAcc)), e.wd, 1e-10, "angular acceleration");
}

FACET(fixed_point, 480000, 1920000, "rotating frame")
{ // the body turns about a fixed point: the point's image never moves
  Motion m = rot::motion(g, 3);
  V3 c = g.v3(3);
  if(m.w.norm() > 0 && c.norm() > 0) g.nontrivial();
  Vector3 t, v, a;
  kine::fixedPointRotationToTranslation(m.R, m.w, m.wd, c, t, v, a);
  m.p = t;
  m.v = v;
  m.a = a;
  auto j = m.jet();
  Eigen::Vector4d h(c(0), c(1), c(2), 1);
  CLOSE(V3((j.m[0] * h).head<3>()), c, 1e-12, "image of the fixed point");
  CLOSE(V3((j.m[1] * h).head<3>()), V3(V3::Zero()), 1e-11, "velocity of the fixed point");
  CLOSE(V3((j.m[2] * h).head<3>()), V3(V3::Zero()), 1e-10, "acceleration of the fixed point");
}

FACET(recognition, 960000, 3840000, "matrix that is not a rotation")
{
  M3 R = rot::anyRotation(g);
  // polish to full precision
  R.col(0).normalize();
  R.col(2) = R.col(0).cross(R.col(1)).normalized();
  R.col(1) = R.col(2).cross(R.col(0));
  double prec = 1e-12;
  REQUIRE(kine::isRotationMatrix(R, prec), "rotation not recognised");
  M3 P; // signed permutation matrices: exact
  {
    int p[3] = {0, 1, 2};
    std::swap(p[0], p[g.u(2)]);
    std::swap(p[1], p[1 + g.u(1)]);
    P.setZero();
    for(int k = 0; k < 3; ++k) P(p[k], k) = g.b() ? -1 : 1;
  }
  REQUIRE(kine::isRotationMatrix(P) == (P.determinant() > 0),
          "signed permutation of determinant " << P.determinant() << " taken for "
                                               << (kine::isRotationMatrix(P) ? "a rotation" : "no rotation"));
  g.labelIf(P.determinant() < 0, "reflection among signed permutations");
  M3 B = R;
  switch(g.u(4))
  {
    case 0:
      B = -R;
      g.label("reflected");
      break;
    case 1:
      B.col(g.u(2)) *= -1;
      g.label("reflected");
      break;
    case 2: B(g.u(2), g.u(2)) += (g.b() ? -1 : 1) * g.mag(-8, 0); break;
    case 3: B *= 1 + g.mag(-8, 0); break;
    default: B = g.mat(3, 3, 1);
  }
  double bad = (B * B.transpose() - M3::Identity()).norm();
  if(bad > 1e-9 || B.determinant() < 0)
  {
    g.nontrivial();
    REQUIRE(!kine::isRotationMatrix(B, prec), "not a rotation, but recognised as one:\n" << B);
    REQUIRE(!kine::isRotationMatrix(B), "not a rotation, but recognised as one by default:\n" << B);
  }
}

FACET(orthonormalisation, 640000, 2560000, "disturbed by more than 1e-6")
{
  M3 R = rot::anyRotation(g);
  double n = g.b() ? g.mag(-14, -1) : 0.8;
  M3 E = g.mat(3, 3, n), M = R + E;
  if(g.p(1, 6)) M = g.mat(3, 3, 2);
  if(g.p(1, 6)) M *= g.mag(-3, 3);
  Eigen::JacobiSVD<M3> svd(M);
  double s3 = svd.singularValues()(2), s1 = svd.singularValues()(0), s2 = svd.singularValues()(1);
  if(s1 == 0) return;
  if((M - R).norm() > 1e-6) g.nontrivial();
  M3 O = kine::orthogonalizeRotationMatrix(M);
  rot::orthonormal(O, 1e-11, "orthonormalised matrix");
  // nearest rotation: tr(O^T M) is maximal, i.e. O^T M is symmetric and its two smallest eigenvalues have a sum >= 0
  if(s3 > 1e-6 * s1 && (M.determinant() > 0 || s2 - s3 > 1e-6 * s1))
  {
    M3 S = O.transpose() * M;
    CLOSE(S / s1, S.transpose().eval() / s1, 1e-9, "not the nearest rotation");
    double sgn = M.determinant() > 0 ? 1 : -1;
    REQUIRE(std::fabs(S.trace() - (s1 + s2 + sgn * s3)) < 1e-9 * s1, "not the nearest rotation");
  }
  if(n < 1e-3 && (M - R).norm() < 1e-3) CLOSE(O, R, 10 * n + 1e-11, "far from the rotation it came from");
}

FACET(two_vectors, 640000, 2560000, "directions more than 0.01 apart")
{ // smallest rotation between two directions
  V3 u = g.axis(), w = g.axis();
  if(g.p(1, 3)) w = (pbt::expm(u.unitOrthogonal() * g.mag(-9, 0)) * u).normalized();
  else if(g.p(1, 3)) w = -(pbt::expm(u.unitOrthogonal() * g.mag(-7, 0)) * u).normalized();
  const double s = (u + w).norm(); // the rotation is undefined for opposite directions
  if(s < 1e-6) return;
  if((u - w).norm() > 0.01) g.nontrivial();
  g.labelIf(s < 1e-3, "nearly opposite");
  const double prec = 1e-14 / (s * s);
  M3 T = kine::twoVectorsToRotationMatrix(u, w);
  rot::orthonormal(T, 1e-9 + prec, "rotation between two vectors");
  CLOSE(V3(T * u), w, 1e-7 + prec, "rotation between two vectors");
  if(s < 1e-3) return;
  V3 l = pbt::logm(T);
  REQUIRE(std::fabs(l.norm() - std::atan2(u.cross(w).norm(), u.dot(w))) < 1e-7, "angle " << l.norm() << " is not the smallest one");
}

FACET(trajectory, 128000, 512000, "at least three poses")
{
  size_t n = 1 + g.u(7);
  long k0 = g.time(0, 20);
  double dt = g.mag(-3, 0);
  if(n >= 3) g.nontrivial();
  IndexedVectorArray po;
  std::vector<V3> p;
  std::vector<M3> R;
  for(size_t i = 0; i < n; ++i)
  {
    p.push_back(g.v3(3));
    R.push_back(i == 0 ? rot::anyRotation(g) : M3(pbt::expm(g.axis() * (2.9 * g.unit())) * R.back()));
    Vector x(6);
    x << p.back(), pbt::logm(R.back());
    po.setValue(x, k0 + long(i));
  }
  IndexedVectorArray s = kine::reconstructStateTrajectory(po, dt);
  REQUIRE(s.size() == long(n) && s.getFirstIndex() == k0, "range of the trajectory");
  typedef kine::indexes<kine::rotationVector> I;
  std::vector<V3> v(n, V3::Zero()), w(n, V3::Zero()), a(n, V3::Zero()), wd(n, V3::Zero());
  for(size_t i = 0; i + 1 < n; ++i)
  {
    v[i] = (p[i + 1] - p[i]) / dt;
    w[i] = pbt::logm(R[i + 1] * R[i].transpose()) / dt;
  }
  for(size_t i = 0; i + 2 < n; ++i)
  {
    a[i] = (v[i + 1] - v[i]) / dt;
    wd[i] = (w[i + 1] - w[i]) / dt;
  }
  for(size_t i = 0; i < n; ++i)
  {
    Vector x = s[k0 + long(i)];
    REQUIRE(x.size() == 18, "size " << x.size());
    CLOSE(V3(x.segment<3>(I::pos)), p[i], 1e-13, "position");
    CLOSE(pbt::expm(x.segment<3>(I::ori)), R[i], 1e-11, "orientation");
    CLOSE(V3(x.segment<3>(I::linVel)), v[i], 1e-10, "linear velocity");
    CLOSE(V3(x.segment<3>(I::angVel)), w[i], 1e-10, "angular velocity");
    CLOSE(V3(x.segment<3>(I::linAcc)), a[i], 1e-9, "linear acceleration");
    CLOSE(V3(x.segment<3>(I::angAcc)), wd[i], 1e-9, "angular acceleration");
  }
}
