// C11: integration and update of kinematics over a time step.
#include "rot.hpp"
using namespace stateObservation;
using kine::Kinematics;
using rot::Motion;
typedef Kinematics::Flags F;

static F::Byte flagsOf(unsigned f)
{
  return F::Byte((f & 1 ? F::position : 0) | (f & 2 ? F::orientation : 0) | (f & 4 ? F::linVel : 0)
                 | (f & 8 ? F::angVel : 0) | (f & 16 ? F::linAcc : 0) | (f & 32 ? F::angAcc : 0));
}

FACET(integrate, 1600000, 6400000, "every quantity present and varying")
{
  Motion m = rot::motion(g, g.pick({1., 5.}));
  unsigned f = g.b() ? 63u : unsigned(g.u(63));
  double dt = g.pick({0.005, 0.1, 1., 0.});
  if(g.b()) dt = g.mag(-4, 0);
  if(f == 63 && m.a.norm() > 0 && m.wd.norm() > 0 && m.v.norm() > 0 && m.w.norm() > 0 && dt > 0) g.nontrivial();
  Kinematics k = rot::kinematics(g, m, f);
  Motion e = m;
  if(f & 4)
  {
    V3 a = (f & 16) ? m.a : V3(V3::Zero());
    e.p = m.p + m.v * dt + a * (0.5 * dt * dt);
    e.v = m.v + a * dt;
  }
  if(f & 8)
  {
    V3 a = (f & 32) ? m.wd : V3(V3::Zero());
    e.R = pbt::expm(m.w * dt + a * (0.5 * dt * dt)) * m.R;
    e.w = m.w + a * dt;
  }
  g.labelIf(f != 63, "partial content");
  const Kinematics & r = k.integrate(dt);
  REQUIRE(&r == &k, "integrate returns another object");
  REQUIRE(rot::content(k) == f, "content " << rot::content(k) << " instead of " << f);
  rot::compare(k, e, 1e-11, "integrated");
}

FACET(free_functions, 800000, 3200000, "varying motion")
{
  Motion m = rot::motion(g, 3);
  double dt = g.mag(-4, 0);
  if(m.v.norm() > 0 && m.w.norm() > 0 && m.a.norm() > 0 && m.wd.norm() > 0) g.nontrivial();
  Vector3 p = m.p, v = m.v, a = m.a, w = m.w, wd = m.wd;
  Matrix3 R = m.R;
  Quaternion q = rot::toQuat(m.R, g.b());
  V3 e1 = m.p + m.v * dt, e2 = e1 + m.a * (0.5 * dt * dt), ev = m.v + m.a * dt, ew = m.w + m.wd * dt;
  M3 E1 = pbt::expm(m.w * dt) * m.R, E2 = pbt::expm(m.w * dt + m.wd * (0.5 * dt * dt)) * m.R;
  bool second = true;
  bool pos = false, ori = false, quat = false;
  switch(g.u(9))
  {
    case 0: kine::integrateKinematics(p, v, dt), second = false, pos = true; break;
    case 1: kine::integrateKinematics(p, v, a, dt), pos = true; break;
    case 2: kine::integrateKinematics(R, w, dt), second = false, ori = true; break;
    case 3: kine::integrateKinematics(R, w, wd, dt), ori = true; break;
    case 4: kine::integrateKinematics(q, w, dt), second = false, quat = true; break;
    case 5: kine::integrateKinematics(q, w, wd, dt), quat = true; break;
    case 6: kine::integrateKinematics(p, v, a, R, w, wd, dt), pos = ori = true; break;
    case 7: kine::integrateKinematics(p, v, a, q, w, wd, dt), pos = quat = true; break;
    case 8: kine::integrateKinematics(p, v, R, w, dt), second = false, pos = ori = true; break;
    default: kine::integrateKinematics(p, v, q, w, dt), second = false, pos = quat = true; break;
  }
  CLOSE(V3(p), V3(!pos ? m.p : (second ? e2 : e1)), 1e-13, "position");
  CLOSE(V3(v), V3(pos && second ? ev : m.v), 1e-13, "linear velocity");
  CLOSE(V3(w), V3((ori || quat) && second ? ew : m.w), 1e-13, "angular velocity");
  CLOSE(M3(R), M3(!ori ? m.R : (second ? E2 : E1)), 1e-12, "rotation matrix");
  CLOSE(rot::ofQuat(q), M3(!quat ? m.R : (second ? E2 : E1)), 1e-12, "quaternion");
}

/// one linear or angular triple (pose, velocity, acceleration) of the update; poses are given by their increment
struct Triple
{
  bool pos, vel, acc;
};
typedef std::vector<V3> Set; // acceptable values

FACET(update, 1600000, 6400000, "something requested is not in the new value")
{
  Motion m = rot::motion(g, 3), n = rot::motion(g, 3);
  double dt = g.b() ? g.mag(-3, 0) : g.pick({0.005, 0.5});
  // keep the difference of orientation away from half turns, where the sign of its logarithm is arbitrary
  n.R = pbt::expm(g.axis() * (3.0 * g.unit())) * m.R;
  unsigned have = 0, fresh = 0, ask = 0;
  // for each of the two triples draw what is held, what is new and what is asked among the documented uses: a quantity
  // may be asked if it is new, already held, or can be deduced by finite differences
  for(unsigned tr = 0; tr < 2; ++tr)
  {
    unsigned P = 1u << tr, V = 4u << tr, A = 16u << tr;
    for(unsigned b : {P, V, A})
    {
      if(g.b()) have |= b;
      if(g.b()) fresh |= b;
    }
    if(g.b() && ((fresh & P) || (have & P))) ask |= P;
    bool fdVel = (have & P) && (fresh & P);
    if(g.b() && ((fresh & V) || fdVel || (have & V))) ask |= V;
    bool fdAcc = fdVel || ((have & V) && (fresh & V));
    if(g.b() && ((fresh & A) || fdAcc || (have & A))) ask |= A;
  }
  if(ask & ~fresh) g.nontrivial();
  Kinematics k = rot::kinematics(g, m, have), nk = rot::kinematics(g, n, fresh);
  const Kinematics & r = (ask == 63 && g.b()) ? k.update(nk, dt) : k.update(nk, dt, flagsOf(ask));
  REQUIRE(&r == &k, "update returns another object");
  REQUIRE(rot::content(k) == ask, "content " << rot::content(k) << " instead of " << ask);
  REQUIRE(rot::content(nk) == fresh, "update changes the new value");
  rot::compare(nk, n, 1e-11, "new value after update");

  for(unsigned tr = 0; tr < 2; ++tr)
  {
    unsigned P = 1u << tr, V = 4u << tr, A = 16u << tr;
    bool hp = have & P, hv = have & V, ha = have & A, np = fresh & P, nv = fresh & V, na = fresh & A;
    V3 v = tr ? m.w : m.v, a = tr ? m.wd : m.a, vn = tr ? n.w : n.v, an = tr ? n.wd : n.a;
    V3 d = tr ? pbt::logm(n.R * m.R.transpose()) : V3(n.p - m.p); // increment to the new pose
    V3 zero = V3::Zero();
    // ---- pose: new, or integrated over the step
    if(ask & P)
    {
      std::vector<V3> inc;
      if(np)
        inc.push_back(d);
      else
      {
        V3 base = hv ? V3(v * dt) : zero;
        inc.push_back(base + (ha ? V3(a * (0.5 * dt * dt)) : zero));
        if(hv && nv && (ask & A) && ha && !na) inc.push_back(0.5 * (v + vn) * dt); // mean acceleration of the step
      }
      bool ok = false;
      for(const V3 & i : inc)
        ok = ok || (tr ? (M3(k.orientation.toMatrix3()) - pbt::expm(i) * m.R).norm() < 1e-9
                       : (V3(k.position()) - (m.p + i)).norm() < 1e-9 * (1 + i.norm()));
      REQUIRE(ok, (tr ? "orientation" : "position") << " not the new one nor the integrated one; have " << have << " new "
                                                    << fresh << " asked " << ask);
    }
    auto oneOf = [&](const V3 & got, const Set & s, const char * what)
    {
      double best = 1e300;
      for(const V3 & x : s) best = std::min(best, (got - x).norm() / (1 + x.norm()));
      REQUIRE(best < 1e-9, (tr ? "angular " : "linear ") << what << " " << got.transpose() << " instead of "
                                                         << s[0].transpose() << "; have " << have << " new " << fresh
                                                         << " asked " << ask);
    };
    if(ask & V)
    {
      Set s;
      if(nv)
        s.push_back(vn);
      else if(hp && np)
        s.push_back(d / dt);
      else
        s.push_back(v + (ha ? V3(a * dt) : zero));
      oneOf(tr ? k.angVel() : k.linVel(), s, "velocity");
    }
    if(ask & A)
    {
      Set s;
      if(na)
        s.push_back(an);
      else if(hv && nv)
        s.push_back((vn - v) / dt);
      else if(hp && np)
      {
        if(hv && (ask & V))
          s.push_back((d / dt - v) / dt);
        else
        {
          s.push_back(2 * d / (dt * dt)); // from rest
          if(hv)
          {
            s.push_back((d / dt - v) / dt);
            s.push_back(2 * (d - v * dt) / (dt * dt));
          }
        }
      }
      else
        s.push_back(a);
      oneOf(tr ? k.angAcc() : k.linAcc(), s, "acceleration");
    }
  }
}

FACET(update_follows_motion, 400000, 1600000, "always")
{ // a constant-acceleration motion sampled twice: whatever is new, the update of the full kinematics agrees with it
  Motion m = rot::motion(g, 2), n = m;
  double dt = g.mag(-3, -1);
  g.nontrivial();
  n.p = m.p + m.v * dt + m.a * (0.5 * dt * dt);
  n.v = m.v + m.a * dt;
  n.w = m.w + m.wd * dt;
  n.R = pbt::expm(m.w * dt + m.wd * (0.5 * dt * dt)) * m.R;
  unsigned fresh = 0; // velocities or accelerations or nothing: exact
  if(g.b()) fresh |= 4;
  if(g.b()) fresh |= 8;
  if(g.b()) fresh |= 16;
  if(g.b()) fresh |= 32;
  Kinematics k = rot::kinematics(g, m, 63), nk = rot::kinematics(g, n, fresh);
  k.update(nk, dt);
  REQUIRE(rot::content(k) == 63, "content");
  rot::compare(k, n, 1e-9, "updated motion");
}
