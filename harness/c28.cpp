// C28: numeric helpers satisfy their mathematical definitions.
#include "pbt.hpp"
#include <state-observation/tools/miscellaneous-algorithms.hpp>
#include <limits>
using namespace stateObservation;

static double extreme(Gen & g)
{
  switch(g.choice(7))
  {
    case 0: return 0;
    case 1: return g.sym(2);
    case 2: return double(g.i(-5, 5));
    case 3: return (g.b() ? -1 : 1) * g.mag(-300, 300);
    case 4: return (g.b() ? -1 : 1) * std::numeric_limits<double>::max();
    case 5: return (g.b() ? -1 : 1) * std::numeric_limits<double>::denorm_min() * double(g.i(1, 9));
    default: return g.sym(1000);
  }
}

FACET(clamp, 1600000, 20000000, "the value lies outside or on a bound, or the bounds are equal")
{
  double a = extreme(g), b = g.p(1, 6) ? a : extreme(g);
  double lo = std::min(a, b), hi = std::max(a, b);
  double x;
  switch(g.choice(5))
  {
    case 0: x = extreme(g); break;
    case 1: x = lo; break;
    case 2: x = hi; break;
    case 3: x = std::nextafter(hi, std::numeric_limits<double>::infinity()); break;
    case 4: x = std::nextafter(lo, -std::numeric_limits<double>::infinity()); break;
    default: x = lo / 2 + hi / 2;
  }
  g.note() << "x=" << x << " in [" << lo << "," << hi << "]";
  if(!(x > lo && x < hi)) g.nontrivial();
  double e = std::min(std::max(x, lo), hi);
  REQUIRE(tools::clampScalar(x, hi, lo) == e, tools::clampScalar(x, hi, lo) << " instead of " << e);
  double l = std::fabs(a);
  double e2 = std::min(std::max(x, -l), l);
  REQUIRE(tools::clampScalar(x, l) == e2, tools::clampScalar(x, l) << " instead of " << e2 << " limit " << l);
  int ix = int(g.i(-1000, 1000)), ia = int(g.i(-1000, 1000)), ib = int(g.i(-1000, 1000));
  int ilo = std::min(ia, ib), ihi = std::max(ia, ib);
  REQUIRE(tools::clampScalar(ix, ihi, ilo) == std::min(std::max(ix, ilo), ihi), "int clamp " << ix);
  float fx = float(g.sym(10)), fl = float(std::fabs(g.sym(5)));
  REQUIRE(tools::clampScalar(fx, fl) == std::min(std::max(fx, -fl), fl), "float clamp " << fx);
}

FACET(sign, 1600000, 20000000, "always (every magnitude and sign is generated)")
{
  double x = extreme(g);
  g.nontrivial();
  g.note() << "x=" << x;
  int e = x > 0 ? 1 : x < 0 ? -1 : 0;
  REQUIRE(tools::signum(x) == e, tools::signum(x) << " for " << x);
  REQUIRE(tools::signum(-x) == -e, "odd");
  long k = g.i(-3, 3) * g.i(1, 1000000);
  REQUIRE(tools::signum(k) == (k > 0) - (k < 0), "long " << k);
  REQUIRE(tools::signum(int(k)) == (k > 0) - (k < 0), "int " << k);
  REQUIRE(tools::signum(float(x)) == (float(x) > 0) - (float(x) < 0), "float " << x);
  unsigned n = unsigned(g.u(5));
  REQUIRE(tools::signum(n) == (n > 0 ? 1 : 0), "unsigned " << n);
  double y = g.sym(1e5);
  REQUIRE(tools::square(y) == y * y, "square");
  long m = g.i(-30000, 30000);
  REQUIRE(tools::square(m) == m * m, "square of an integer");
  Mat A = g.mat(3, 3, 4);
  CLOSE(tools::square(A), Mat(A * A), 1e-13, "square of a matrix");
  double dt = g.mag(g.b() ? -100 : -4, g.b() ? 100 : 1), o1 = g.sym(10), o2 = g.sym(10);
  CLOSE(tools::derivate(o1, o2, dt) * dt, o2 - o1, 1e-12, "finite-difference derivative");
  Vec v1 = g.vec(4, 10), v2 = g.vec(4, 10);
  CLOSE(Vec(tools::derivate(v1, v2, dt) * dt), Vec(v2 - v1), 1e-12, "finite-difference derivative of a vector");
}

FACET(squareRoot, 1600000, 20000000, "the argument is finite, positive and not a perfect square of a small integer")
{
  double x;
  switch(g.choice(5))
  {
    case 0: x = 0; break;
    case 1: x = g.mag(-300, 300); break;
    case 2: x = double(g.i(0, 1000)); break;
    case 3:
    {
      double r = double(g.i(1, 100000000));
      x = r * r;
      for(long k = g.i(-2, 2); k != 0; k += k < 0 ? 1 : -1)
        x = std::nextafter(x, k < 0 ? 0 : std::numeric_limits<double>::infinity());
      break;
    }
    case 4: x = std::numeric_limits<double>::max() * g.unit(); break;
    default: x = g.real(0, 100);
  }
  g.note() << "x=" << x;
  if(x > 0 && std::sqrt(x) != std::floor(std::sqrt(x))) g.nontrivial();
  double s = tools::sqrt(x), e = std::sqrt(x);
  REQUIRE(std::fabs(s - e) <= 4 * std::numeric_limits<double>::epsilon() * e, s << " instead of " << e << " for " << x);
  double neg = -(g.b() ? std::numeric_limits<double>::infinity() : g.mag(-300, 300));
  REQUIRE(std::isnan(tools::sqrt(neg)), "square root of the negative " << neg);
  REQUIRE(std::isnan(tools::sqrt(std::numeric_limits<double>::infinity())), "square root of infinity");
  REQUIRE(std::isnan(tools::sqrt(std::numeric_limits<double>::quiet_NaN())), "square root of NaN");
}

FACET(normalisation, 1600000, 20000000, "the vector is neither zero nor exactly unit")
{
  V3 u = g.axis();
  double n;
  switch(g.choice(3))
  {
    case 0: n = 1; break;
    case 1: n = 1 + (g.b() ? -1 : 1) * g.mag(-16, -3); break;
    default: n = g.mag(-6, 6);
  }
  V3 v = u * n;
  g.note() << "norm " << n;
  if(n != 1) g.nontrivial();
  V3 r = tools::normalizedLazy(v);
  CLOSE(r.norm(), 1., 1e-6, "norm after lazy normalisation");
  CLOSE(V3(r.cross(u)), V3(V3::Zero()), 1e-9, "direction");
  REQUIRE(r.dot(u) > 0, "sense");
  bool c = tools::checkIfNormalized(v);
  double sq = -1;
  bool c2 = tools::checkIfNormalized(v, sq);
  REQUIRE(c == c2, "the two predicates differ");
  CLOSE(sq, v.squaredNorm(), 1e-12, "squared norm output");
  // sound on both sides of its tolerance (weaker boundary reading: nothing is required near it)
  if(v.squaredNorm() == 1) REQUIRE(c, "unit vector rejected, norm-1 = " << v.norm() - 1);
  if(std::fabs(v.squaredNorm() - 1) > 1e-5) REQUIRE(!c, "vector accepted with norm-1 = " << v.norm() - 1);
  if(!c) CLOSE(r.norm(), 1., 1e-12, "norm after normalisation");
}

FACET(finiteTime, 1200000, 15000000, "position and sliding variable are both nonzero")
{
  double x = g.sym(5), xd = g.sym(5), kp = -g.mag(-1, 1), kv = -g.mag(-1, 1);
  bool dflt = g.p(1, 5);
  if(dflt) kp = kv = -1;
  g.note() << "x=" << x << " xd=" << xd << " kp=" << kp << " kv=" << kv;
  if(std::fabs(x) < 1e-3)
  {
    // documented equilibrium
    x = 0;
    xd = 0;
    REQUIRE(tools::finiteTimeAccControl(x, xd, kp, kv) == 0, "no control at the equilibrium");
    return;
  }
  auto root = [](long double a) { return a > 0 ? sqrtl(a) : -sqrtl(-a); };
  // the definition, for positions of every magnitude
  {
    double X = g.p(1, 3) ? (g.b() ? -1 : 1) * g.mag(-300, 10) : x;
    long double rX = root(X), c = (long double)(kp)*xd / (2 * fabsl(rX)), e = kv * root(xd - kp * rX) + c;
    // conditioning: the root of a difference
    double t = 1e-12 * double(fabsl(c) + fabsl(kv) * (sqrtl(std::fabs(xd)) + sqrtl(fabsl(kp * rX)))) + 2 * std::fabs(kv) * std::sqrt(1e-16 * (std::fabs(xd) + double(fabsl(kp * rX))));
    REQUIRE(std::fabs(tools::finiteTimeAccControl(X, xd, kp, kv) - double(e)) <= t,
            "at " << X << ", " << xd << ": " << tools::finiteTimeAccControl(X, xd, kp, kv) << " instead of " << double(e));
    double z = tools::finiteTimeAccControl(0, xd, kp, kv);
    // the singular term is left out
    double z0 = double(kv * root(xd));
    REQUIRE(std::fabs(z - z0) <= 1e-12 * std::fabs(z0), "at the position 0 with velocity " << xd << ": " << z << " instead of " << z0);
  }
  auto sgnroot = [](double a) { return a > 0 ? std::sqrt(a) : -std::sqrt(-a); };
  auto surface = [&](double p, double v) { return v - kp * sgnroot(p); };
  double y = surface(x, xd);
  if(std::fabs(y) > 1e-6) g.nontrivial();
  double a = dflt ? tools::finiteTimeAccControl(x, xd) : tools::finiteTimeAccControl(x, xd, kp, kv);
  // along the flow (xd, a) the distance to the surface xd = kp sgn(x) sqrt|x| decreases as kv sgn(y) sqrt|y|
  double h = 1e-6 * std::min(1., std::fabs(x)) / (1 + std::fabs(xd));
  double dy = (surface(x + h * xd, xd + h * a) - surface(x - h * xd, xd - h * a)) / (2 * h);
  CLOSE(dy, kv * sgnroot(y), 1e-5 * (1 + std::fabs(a)), "rate of convergence to the sliding surface");
  // odd symmetry
  CLOSE(tools::finiteTimeAccControl(-x, -xd, kp, kv), -tools::finiteTimeAccControl(x, xd, kp, kv), 1e-12, "odd symmetry");
}

FACET(finiteTimeVector, 400000, 5000000, "at least two components")
{
  long n = g.i(0, 6);
  double kp = -g.mag(-1, 1), kv = -g.mag(-1, 1);
  Vec x(n), xd(n);
  for(long k = 0; k < n; ++k)
  {
    x(k) = g.gen(3);
    xd(k) = g.sym(3);
  }
  g.note() << "n=" << n;
  if(n > 1) g.nontrivial();
  Vec r = tools::finiteTimeAccControl(x, xd, kp, kv);
  REQUIRE(r.size() == n, "size");
  for(long k = 0; k < n; ++k)
    CLOSE(r(k), tools::finiteTimeAccControl(x(k), xd(k), kp, kv), 1e-12, "component");
}

FACET(approximately, 1200000, 10000000, "the values differ by about the precision, or both are zero")
{
  // relative: the difference against the sum of the magnitudes; nothing is required within a factor of two of the limit
  double a = extreme(g), b, p;
  if(std::fabs(a) > 1e150) a = std::copysign(g.mag(-100, 100), a);
  bool dflt = g.p(1, 4);
  p = dflt ? cst::epsilon1 : g.mag(-12, -1);
  double d = p * g.mag(-2, 2);
  switch(g.choice(4))
  {
    case 0: b = a; break;
    case 1: b = -a; break;
    case 2: b = extreme(g); break;
    default: b = a + (g.b() ? -1 : 1) * d * (g.b() ? std::fabs(a) : 1);
  }
  if(std::fabs(b) > 1e150) b = a;
  double diff = std::fabs(a - b), sum = std::fabs(a + b);
  g.note() << a << ' ' << b << " precision " << p;
  if((a == 0 && b == 0) || (diff > 1e-3 * p * sum && diff < 1e3 * p * sum)) g.nontrivial();
  bool rel = dflt ? isApprox(a, b) : isApprox(a, b, p), abs = dflt ? isApproxAbs(a, b) : isApproxAbs(a, b, p);
  if(a == b) REQUIRE(rel && abs, "a value is not close to itself");
  // the scale may be either value or their sum
  if(diff < 0.5 * p * std::min(std::fabs(a), std::fabs(b))) REQUIRE(rel, "values are close");
  if(diff > 4 * p * std::max(std::fabs(a), std::fabs(b))) REQUIRE(!rel, "values are not close");
  if(diff < 0.999 * p) REQUIRE(abs, "values are close");
  if(diff > 1.001 * p) REQUIRE(!abs, "values are not close");
  REQUIRE((dflt ? isApprox(b, a) : isApprox(b, a, p)) == rel && (dflt ? isApproxAbs(b, a) : isApproxAbs(b, a, p)) == abs, "symmetry");
}

FACET(texts, 400000, 2000000, "a number of several digits")
{
  long n = g.i(-2000000, 2000000);
  g.note() << n;
  if(std::labs(n) > 99) g.nontrivial();
  REQUIRE(tools::toString(n) == std::to_string(n), "text " << tools::toString(n));
  REQUIRE(tools::toString(unsigned(std::labs(n))) == std::to_string(std::labs(n)), "text of an unsigned number");
  REQUIRE(tools::toString(std::string("a b")) == "a b", "text of a text");
  double x = g.sym(1e4);
  REQUIRE(std::fabs(std::stod(tools::toString(x)) - x) <= 1e-5 * std::fabs(x), "text of a number " << tools::toString(x));
}
