// C10: composition and inversion of moving frames. Oracle: second-order jets of 4x4 homogeneous matrices.
#include "rot.hpp"
using namespace stateObservation;
using kine::Kinematics;
using rot::Motion;

static const unsigned levels[] = {3, 15, 63};

/// what a composition may contain (everything it needs is there) and must contain (all lower levels are there)
static void productContent(unsigned f1, unsigned f2, unsigned got)
{
  unsigned may = 0, must = 0;
  auto has = [&](unsigned f, unsigned m) { return (f & m) == m; };
  if(has(f1, 3) && has(f2, 1)) may |= 1;
  if(has(f1, 2) && has(f2, 2)) may |= 2;
  if(has(f1, 2 | 4 | 8) && has(f2, 1 | 4)) may |= 4;
  if(has(f1, 2 | 8) && has(f2, 8)) may |= 8;
  if(has(f1, 2 | 8 | 16 | 32) && has(f2, 1 | 4 | 16)) may |= 16;
  if(has(f1, 2 | 8 | 32) && has(f2, 8 | 32)) may |= 32;
  if(has(f1, 3) && has(f2, 1)) must |= 1;
  if(has(f1, 2) && has(f2, 2)) must |= 2;
  if(has(f1, 15) && has(f2, 1 | 4)) must |= 4;
  if(has(f1, 2 | 8) && has(f2, 2 | 8)) must |= 8;
  if(has(f1, 63) && has(f2, 1 | 4 | 16)) must |= 16;
  if(has(f1, 2 | 8 | 32) && has(f2, 2 | 8 | 32)) must |= 32;
  REQUIRE((got & ~may) == 0, "content " << got << " of a product of " << f1 << " and " << f2 << " invented");
  REQUIRE((must & ~got) == 0, "content " << got << " of a product of " << f1 << " and " << f2 << " incomplete");
}
static void inverseContent(unsigned f, unsigned got)
{
  unsigned may = 2, must = 2;
  auto has = [&](unsigned m) { return (f & m) == m; };
  if(has(3)) may |= 1, must |= 1;
  if(has(2 | 8)) may |= 8, must |= 8;
  if(has(1 | 2 | 4 | 8)) may |= 4, must |= 4;
  if(has(2 | 8 | 32)) must |= 32;
  if(has(2 | 32)) may |= 32; // minus the rotated angular acceleration
  if(has(63)) may |= 16, must |= 16;
  REQUIRE((got & ~may) == 0, "content " << got << " of the inverse of " << f << " invented");
  REQUIRE((must & ~got) == 0, "content " << got << " of the inverse of " << f << " incomplete");
}

FACET(product, 800000, 3200000, "both frames rotate and accelerate")
{
  double m = g.pick({1., 10., 0.01});
  Motion a = rot::motion(g, m), b = rot::motion(g, m);
  unsigned f1 = g.b() ? 63 : (unsigned(g.u(63)) | 2), f2 = g.b() ? 63 : unsigned(g.u(63));
  if(!(f2 & 3)) f2 |= 1 + unsigned(g.u(1));
  if((f1 & f2) == 63 && a.w.norm() > 0 && b.w.norm() > 0 && b.v.norm() > 0 && a.wd.norm() > 0 && b.p.norm() > 0)
    g.nontrivial();
  g.labelIf((f1 & f2) != 63, "partial content");
  Kinematics k1 = rot::kinematics(g, a, f1), k2 = rot::kinematics(g, b, f2);
  Motion e = Motion::of(a.jet() * b.jet());
  Kinematics r;
  if((f1 & 3) && g.p(1, 12))
  { // both operands are the same frame
    r = g.b() ? k1 * k1 : Kinematics(k1, k1);
    productContent(f1, f1, rot::content(r));
    rot::compare(r, Motion::of(a.jet() * a.jet()), 1e-10 * (1 + m * m), "square");
    REQUIRE(rot::content(k1) == f1, "the product changes its operands");
    rot::compare(k1, a, 1e-12, "operand");
    g.label("square");
    return;
  }
  switch(g.u(3))
  {
    case 0: r = k1 * k2; break;
    case 1: r = Kinematics(k1, k2); break;
    case 2:
    { // target with earlier content
      r = rot::kinematics(g, rot::motion(g, m), unsigned(g.u(63)));
      Kinematics ret = r.setToProductNoAlias(k1, k2);
      REQUIRE(rot::content(ret) == rot::content(r), "returned content differs");
      rot::compare(ret, e, 1e-10 * (1 + m * m), "returned product");
      g.label("target had content");
      break;
    }
    default:
      if(f1 == 63 && f2 == 63)
      {
        k1 = k1 * k2; // result stored over an operand
        r = k1;
        g.label("stored over operand");
      }
      else
        r = k1 * k2;
  }
  productContent(f1, f2, rot::content(r));
  rot::compare(r, e, 1e-10 * (1 + m * m), "product");
  REQUIRE(rot::content(k2) == f2, "the product changes its operands");
  rot::compare(k2, b, 1e-12, "second operand");
}

FACET(inverse, 800000, 3200000, "frame rotates, moves and accelerates")
{
  double m = g.pick({1., 10., 0.01});
  Motion a = rot::motion(g, m);
  unsigned f = g.b() ? 63 : (unsigned(g.u(63)) | 2);
  if(f == 63 && a.w.norm() > 0 && a.v.norm() > 0 && a.p.norm() > 0) g.nontrivial();
  g.labelIf(f != 63, "partial content");
  Kinematics k = rot::kinematics(g, a, f), i = k.getInverse();
  inverseContent(f, rot::content(i));
  rot::compare(i, Motion::of(a.jet().inverse()), 1e-10 * (1 + m * m), "inverse");
  REQUIRE(rot::content(k) == f, "inverting changes the operand's content");
  rot::compare(k, a, 1e-12, "operand after inversion");
  rot::compare(i.getInverse(), a, 1e-9 * (1 + m * m * m), "inverse of the inverse");
}

FACET(laws, 400000, 1600000, "three full motions")
{
  Motion a = rot::motion(g, 2), b = rot::motion(g, 2), c = rot::motion(g, 2);
  unsigned f = levels[g.u(2)];
  if(f == 63) g.nontrivial();
  Kinematics x = rot::kinematics(g, a, f), y = rot::kinematics(g, b, f), z = rot::kinematics(g, c, f);
  Kinematics l = (x * y) * z, r = x * (y * z);
  REQUIRE(rot::content(l) == f && rot::content(r) == f, "content " << rot::content(l) << " " << rot::content(r));
  Motion e = Motion::of(a.jet() * b.jet() * c.jet());
  rot::compare(l, e, 1e-8, "(xy)z");
  rot::compare(r, e, 1e-8, "x(yz)");
  Motion id;
  Kinematics n = x * x.getInverse(), o = x.getInverse() * x;
  REQUIRE(rot::content(n) == f && rot::content(o) == f, "content " << rot::content(n) << " " << rot::content(o));
  rot::compare(n, id, 1e-8, "x x^-1");
  rot::compare(o, id, 1e-8, "x^-1 x");
  rot::compare((x * y).getInverse(), Motion::of((a.jet() * b.jet()).inverse()), 1e-8, "inverse of a product");
  Kinematics zero;
  zero.setZero(Kinematics::Flags::Byte(f));
  rot::compare(x * zero, a, 1e-10, "neutral on the right");
  rot::compare(zero * x, a, 1e-10, "neutral on the left");
}
