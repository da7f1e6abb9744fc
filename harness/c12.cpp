// C12: kinematics to and from vectors, partial content, reset, copy.
#include "rot.hpp"
#include <sstream>
using namespace stateObservation;
using kine::Kinematics;
using rot::Motion;
typedef Kinematics::Flags F;

static F::Byte flagsOf(unsigned f)
{
  F::Byte r = 0;
  if(f & 1) r = F::Byte(r | F::position);
  if(f & 2) r = F::Byte(r | F::orientation);
  if(f & 4) r = F::Byte(r | F::linVel);
  if(f & 8) r = F::Byte(r | F::angVel);
  if(f & 16) r = F::Byte(r | F::linAcc);
  if(f & 32) r = F::Byte(r | F::angAcc);
  return r;
}
/// the documented layout: position, quaternion, linear and angular velocity, linear and angular acceleration
static Vec layout(const Kinematics & k, const Motion & m, unsigned f)
{
  std::vector<double> v;
  auto push = [&](const Vec & x) { v.insert(v.end(), x.data(), x.data() + x.size()); };
  if(f & 1) push(m.p);
  if(f & 2)
  {
    Kinematics c(k);
    push(c.orientation.toQuaternion().coeffs());
  }
  if(f & 4) push(m.v);
  if(f & 8) push(m.w);
  if(f & 16) push(m.a);
  if(f & 32) push(m.wd);
  return Eigen::Map<Vec>(v.data(), long(v.size()));
}
static Motion blend(const Motion & base, const Motion & over, unsigned f)
{
  Motion r = base;
  if(f & 1) r.p = over.p;
  if(f & 2) r.R = over.R;
  if(f & 4) r.v = over.v;
  if(f & 8) r.w = over.w;
  if(f & 16) r.a = over.a;
  if(f & 32) r.wd = over.wd;
  return r;
}
static unsigned subset(Gen & g)
{
  switch(g.u(4))
  {
    case 0: return 63;
    case 1: return 1u << g.u(5);
    default: return unsigned(g.u(63));
  }
}

FACET(vectors, 800000, 3200000, "partial selection of at least two components")
{
  double m = g.pick({1., 1e6, 1e-9});
  Motion a = rot::motion(g, m);
  unsigned f = subset(g), sel = f & (g.b() ? 63u : unsigned(g.u(63)));
  if(__builtin_popcount(sel) >= 2 && sel != 63) g.nontrivial();
  Kinematics k = rot::kinematics(g, a, f);
  Kinematics fresh(k); // its orientation still held in the representation it was built from
  Vec v0 = fresh.toVector(flagsOf(sel));
  Vec whole = k.toVector();
  CLOSE(whole, layout(k, a, f), 0, "vector of everything present");
  Vec v = k.toVector(flagsOf(sel));
  CLOSE(v, layout(k, a, sel), 0, "vector of the selection");
  CLOSE(v0, v, 0, "vector of the selection, asked first");
  REQUIRE(rot::content(k) == f, "converting to a vector changes the content");

  Kinematics r;
  bool ctor = g.b();
  if(ctor)
    r = Kinematics(v, flagsOf(sel));
  else
  {
    Kinematics & ret = r.fromVector(v, flagsOf(sel));
    REQUIRE(&ret == &r, "fromVector returns another object");
  }
  REQUIRE(rot::content(r) == sel, "content " << rot::content(r) << " instead of " << sel);
  rot::compare(r, a, 1e-11, "restored");
  CLOSE(r.toVector(flagsOf(sel)), v, 0, "second conversion");
  CLOSE(r.toVector(), v, 0, "second conversion of everything");
  if(f == 63)
  {
    CLOSE(k.toVector(F::all), whole, 0, "all");
    Kinematics d(whole);
    REQUIRE(rot::content(d) == 63, "default selection is everything");
    CLOSE(d.toVector(), whole, 0, "restored everything");
    // documented positions in the full vector
    typedef kine::indexes<kine::quaternion> I;
    REQUIRE(whole.size() == I::size, "size " << whole.size());
    CLOSE(V3(whole.segment<3>(I::pos)), a.p, 0, "position index");
    CLOSE(rot::ofQuat(Quaternion(Vector4(whole.segment<4>(I::ori)))), a.R, 1e-11, "orientation index");
    CLOSE(V3(whole.segment<3>(I::linVel)), a.v, 0, "linear velocity index");
    CLOSE(V3(whole.segment<3>(I::angVel)), a.w, 0, "angular velocity index");
    CLOSE(V3(whole.segment<3>(I::linAcc)), a.a, 0, "linear acceleration index");
    CLOSE(V3(whole.segment<3>(I::angAcc)), a.wd, 0, "angular acceleration index");
  }
}

FACET(replacing, 800000, 3200000, "at least three operations")
{ // history on one object against a model (content, values)
  Kinematics k;
  Motion m;
  unsigned have = 0;
  size_t n = 1 + g.u(7);
  if(n >= 3) g.nontrivial();
  for(size_t s = 0; s < n; ++s)
  {
    switch(g.u(6))
    {
      case 0:
      {
        g.label("from vector");
        Motion a = rot::motion(g, 3);
        unsigned f = subset(g);
        Kinematics src = rot::kinematics(g, a, f);
        k.fromVector(src.toVector(), flagsOf(f));
        m = blend(m, a, f);
        have |= f;
        break;
      }
      case 1:
      {
        g.label("reset");
        k.reset();
        have = 0;
        break;
      }
      case 2:
      {
        g.label("zero");
        unsigned f = subset(g);
        if(g.b())
          k.setZero(flagsOf(f));
        else if(g.b())
          k.setZero<Matrix3>(flagsOf(f));
        else
          k.setZero<Quaternion>(flagsOf(f));
        m = blend(m, Motion(), f);
        have |= f;
        break;
      }
      case 3:
      {
        g.label("assignment");
        Motion a = rot::motion(g, 3);
        have = subset(g);
        k = rot::kinematics(g, a, have);
        m = a;
        break;
      }
      case 4:
      {
        g.label("component");
        Motion a = rot::motion(g, 3);
        unsigned f = 1u << g.u(5);
        if(f == 1) k.position = Vector3(a.p);
        if(f == 2)
        {
          if(g.b())
            k.orientation = Matrix3(a.R);
          else
            k.orientation = rot::toQuat(a.R, g.b());
        }
        if(f == 4) k.linVel = Vector3(a.v);
        if(f == 8) k.angVel = Vector3(a.w);
        if(f == 16) k.linAcc = Vector3(a.a);
        if(f == 32) k.angAcc = Vector3(a.wd);
        m = blend(m, a, f);
        have |= f;
        break;
      }
      case 5:
      {
        g.label("reset a component");
        unsigned f = 1u << g.u(5);
        if(f == 1) k.position.reset();
        if(f == 2) k.orientation.reset();
        if(f == 4) k.linVel.reset();
        if(f == 8) k.angVel.reset();
        if(f == 16) k.linAcc.reset();
        if(f == 32) k.angAcc.reset();
        have &= ~f;
        break;
      }
      default:
      {
        g.label("fill caches");
        if(have & 2)
        {
          k.orientation.toMatrix3();
          k.orientation.toQuaternion();
        }
      }
    }
    REQUIRE(rot::content(k) == have, "content " << rot::content(k) << " instead of " << have);
    Kinematics c(k), d;
    d = rot::kinematics(g, rot::motion(g, 1), g.b() ? 63u : 0u);
    d = k;
    rot::compare(c, m, 1e-11, "copy");
    rot::compare(d, m, 1e-11, "assigned copy");
    REQUIRE(rot::content(c) == have && rot::content(d) == have, "content of a copy");
    Kinematics e(k);
    Vec v = e.toVector();
    CLOSE(v, layout(e, m, have), 0, "vector");
    if(have & 2)
      CLOSE(rot::ofQuat(Quaternion(Vector4(v.segment<4>(have & 1 ? 3 : 0)))), m.R, 1e-11, "orientation in the vector");
    Kinematics h(k);
    CLOSE(h.toVector(flagsOf(have)), v, 0, "vector of the content");
  }
}

FACET(text, 60000, 400000, "some components are present and others are not")
{ // the printed text gives exactly the components that are present
  Motion m = rot::motion(g, 3);
  unsigned have = unsigned(g.u(63));
  if(g.p(1, 8)) m.R = M3::Identity();
  Kinematics k = rot::kinematics(g, m, have);
  std::ostringstream os;
  os << k;
  std::string text = os.str();
  g.note() << text;
  if(have != 0 && have != 63) g.nontrivial();
  if(have == 0) REQUIRE(text.find("empty") != std::string::npos, "nothing is said to be empty: " << text);
  const char * names[6] = {"pos", "ori", "linVel", "angVel", "linAcc", "angAcc"};
  const V3 values[6] = {m.p, V3::Zero(), m.v, m.w, m.a, m.wd};
  for(int i = 0; i < 6; ++i)
  {
    std::vector<double> x;
    size_t at = text.find(names[i]);
    if(at != std::string::npos)
    {
      at = text.find(':', at);
      REQUIRE(at != std::string::npos, "text " << text);
      std::istringstream is(text.substr(at + 1));
      double d;
      while(is >> d) x.push_back(d);
    }
    REQUIRE(x.size() == ((have >> i) & 1 ? 3 : 0), x.size() << " numbers for " << names[i] << " in " << text);
    if(x.empty()) continue;
    V3 v(x[0], x[1], x[2]);
    if(i == 1) CLOSE(pbt::expm(v), m.R, 1e-4, "orientation in the text");
    else CLOSE(v, values[i], 1e-4, names[i]);
  }
  REQUIRE(rot::content(k) == have, "printing changes the content");
}
