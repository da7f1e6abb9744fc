// Property-based testing engine (choice sequences, Hypothesis style).
//
// A case is a pure function of a sequence of bounded integers ("choices"). Random cases draw the choices from a
// generator seeded with (VERIF_SEED, property, facet, case number); replayed and shrunk cases read them from a list (0
// past its end, and 0 is always the simplest choice). Shrinking deletes and lowers choices while the case still fails.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
extern unsigned randomDeviceValue;

typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

struct Failure : std::runtime_error
{
  explicit Failure(const std::string & s) : std::runtime_error(s) {}
};

[[noreturn]] inline void fail(const std::string & s)
{
  throw Failure(s);
}

class Gen
{
public:
  // ---- primitive choices
  uint64_t choice(uint64_t maxInclusive); // uniform in [0,max]
  size_t u(size_t maxInclusive) { return size_t(choice(maxInclusive)); }
  long i(long lo, long hi) { return lo + long(choice(uint64_t(hi - lo))); }
  /// a time index: mostly in [lo,hi], sometimes around the limits of 32-bit integers or far beyond
  long time(long lo, long hi)
  {
    long t = i(lo, hi);
    if(p(1, 8)) t += *(std::initializer_list<long>{(1l << 31) - 4, (1l << 32) - 4, 1l << 40}.begin() + u(2));
    return t;
  }
  /// a number of things in [0,usual], rarely up to `rare`
  size_t many(size_t usual, size_t rare) { return p(1, 40) ? u(rare) : u(usual); }
  bool b() { return choice(1) == 1; }
  /// true with probability num/den (false is the simple value)
  bool p(unsigned num, unsigned den) { return choice(den - 1) >= den - num; }
  double unit() { return double(choice((1ull << 40) - 1)) / double(1ull << 40); } // [0,1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template<class T>
  T pick(std::initializer_list<T> l)
  {
    return *(l.begin() + u(l.size() - 1));
  }
  /// symmetric real: zero, small integers and generic values of magnitude up to mag
  double sym(double mag)
  {
    switch(choice(9))
    {
      case 0: return 0;
      case 1: return double(i(-2, 2)) * mag / 2;
      default:
      {
        double s = b() ? -1 : 1;
        return s * mag * unit();
      }
    }
  }
  /// always generic
  double gen(double mag)
  {
    double s = b() ? -1 : 1;
    return s * mag * (0.02 + 0.98 * unit());
  }
  /// 10^[e1,e2]
  double mag(double e1, double e2) { return std::pow(10., real(e1, e2)); }

  // ---- structured values
  /// sometimes null, equal to the last one, or along an axis
  Vec vec(long n, double m)
  {
    Vec v = Vec::Zero(n);
    switch(choice(19))
    {
      case 0: return v;
      case 1:
        if(n > 0 && last_.size() == n && last_.cwiseAbs().maxCoeff() <= m) return last_;
        [[fallthrough]];
      default:
        for(long k = 0; k < n; ++k) v(k) = sym(m);
        break;
      case 2:
        if(n > 0) v(long(u(size_t(n - 1)))) = sym(m);
    }
    if(n > 0) last_ = v;
    return v;
  }
  Vec gvec(long n, double m)
  {
    Vec v(n);
    for(long k = 0; k < n; ++k) v(k) = gen(m);
    return v;
  }
  V3 v3(double m) { return V3(vec(3, m)); }
  V3 gv3(double m) { return V3(gvec(3, m)); }
  Mat mat(long r, long c, double m)
  {
    Mat a(r, c);
    for(long x = 0; x < r; ++x)
      for(long y = 0; y < c; ++y) a(x, y) = sym(m);
    return a;
  }
  Mat gmat(long r, long c, double m)
  {
    Mat a(r, c);
    for(long x = 0; x < r; ++x)
      for(long y = 0; y < c; ++y) a(x, y) = gen(m);
    return a;
  }
  /// sometimes a matrix of a special structure instead of `generic`: identity, selection of components, diagonal, one row
  Mat structured(const Mat & generic)
  {
    if(!p(1, 8)) return generic;
    const long r = generic.rows(), c = generic.cols();
    Mat a = Mat::Zero(r, c);
    switch(u(3))
    {
      case 0: a.setIdentity(); break;
      case 1:
        for(long k = 0; k < r; ++k) a(k, long(u(size_t(c - 1)))) = 1;
        break;
      case 2: a.diagonal() = generic.diagonal(); break;
      default: a.row(long(u(size_t(r - 1)))) = generic.row(0);
    }
    return a;
  }
  /// symmetric positive definite with eigenvalues at least `floor`
  Mat spd(long n, double m, double floor)
  {
    Mat a = gmat(n, n, m);
    Mat r = a * a.transpose();
    r = (0.5 * (r + r.transpose())).eval();
    r.diagonal().array() += floor;
    return r;
  }
  V3 axis()
  {
    if(p(1, 4))
    {
      V3 v = V3::Zero();
      v(u(2)) = b() ? -1 : 1;
      return v;
    }
    double z = 2 * unit() - 1, t = 2 * M_PI * unit();
    double s = std::sqrt(std::max(0., 1 - z * z));
    return V3(s * std::cos(t), s * std::sin(t), z).normalized();
  }
  /// rotation angle in [0,pi] with the special neighbourhoods well represented
  double angle()
  {
    switch(choice(9))
    {
      case 0: return 0;
      case 1: return std::pow(10., real(-12, -2));
      case 2: return M_PI - std::pow(10., real(-12, -2));
      case 3: return M_PI / 2 * double(i(0, 2));
      default: return M_PI * unit();
    }
  }
  /// angle bounded away from 0 and pi
  double safeAngle() { return 0.05 + (M_PI - 0.1) * unit(); }

  // ---- bookkeeping
  void nontrivial() { nontrivial_ = true; }
  void label(const std::string & l) { labels_.insert(l); }
  void labelIf(bool c, const std::string & l)
  {
    if(c) labels_.insert(l);
  }
  std::ostream & note() { return note_; }
  bool thorough = false;

  // ---- internals
  std::vector<uint64_t> prefix, rec;
  bool replaying = false;
  uint64_t state = 0;
  size_t pos = 0;
  bool nontrivial_ = false;
  std::set<std::string> labels_;
  std::ostringstream note_;
  Vec last_;
};

struct Facet
{
  std::string name;
  unsigned long quick, thorough;
  std::string rule;
  std::function<void(Gen &)> f;
};
void addFacet(const std::string & name, unsigned long quick, unsigned long thorough, const std::string & rule,
              std::function<void(Gen &)> f);
struct AddFacet
{
  AddFacet(const char * n, unsigned long q, unsigned long t, const char * rule, void (*f)(Gen &))
  {
    addFacet(n, q, t, rule, f);
  }
};
/// FACET(name, quick cases, thorough cases, "non-triviality rule") { body using g }
#define FACET(NAME, Q, T, RULE)                                             \
  static void facet_##NAME(pbt::Gen & g);                                   \
  static pbt::AddFacet facetReg_##NAME(#NAME, Q, T, RULE, &facet_##NAME);   \
  static void facet_##NAME(pbt::Gen & g)

/// scratch directory of this worker, removed by the engine afterwards
std::string scratchDir();
/// number of cases left out because they fall in a listed known finding; true if the finding `key` is listed
bool knownFinding(const std::string & key);
void knownFindingSeen(const std::string & key);

// ---- comparisons
#define REQUIRE(C, MSG)                                             \
  do                                                                \
  {                                                                 \
    if(!(C))                                                        \
    {                                                               \
      std::ostringstream os_;                                       \
      os_.precision(17);                                            \
      os_ << "line " << __LINE__ << ": " << #C << ": " << MSG;      \
      pbt::fail(os_.str());                                         \
    }                                                               \
  } while(false)

template<class A, class B>
void closeImpl(const A & a_, const B & b_, double tol, const char * what, int line)
{
  Mat a = a_, b = b_;
  std::ostringstream os;
  os.precision(17);
  if(a.rows() != b.rows() || a.cols() != b.cols())
  {
    os << "line " << line << ": " << what << ": sizes " << a.rows() << "x" << a.cols() << " vs " << b.rows() << "x"
       << b.cols();
    fail(os.str());
  }
  if(a.size() == 0) return;
  double na = a.cwiseAbs().maxCoeff(), nb = b.cwiseAbs().maxCoeff();
  double d = (a - b).cwiseAbs().maxCoeff();
  bool finite = a.allFinite() && b.allFinite();
  bool ok = finite && d <= tol * (1 + std::max(na, nb));
  if(finite && !ok && tol == 0) // the same value, whatever the order of the last operation
    ok = ((a - b).cwiseAbs().array() <= 1e-15 * a.cwiseAbs().cwiseMax(b.cwiseAbs()).array()).all();
  if(!ok)
  {
    os << "line " << line << ": " << what << ": |difference| " << d << " tolerance " << tol * (1 + std::max(na, nb))
       << "\n got      " << a.reshaped().transpose() << "\n expected " << b.reshaped().transpose();
    fail(os.str());
  }
}
inline void closeImpl(double a, double b, double tol, const char * what, int line)
{
  Mat x(1, 1), y(1, 1);
  x(0) = a;
  y(0) = b;
  closeImpl(x, y, tol, what, line);
}
/// CLOSE(got, expected, tol, what): max-norm difference at most tol*(1+magnitude), everything finite
#define CLOSE(A, B, TOL, WHAT) pbt::closeImpl((A), (B), (TOL), (WHAT), __LINE__)

// ---- independent rotation maths (never calls the library under test)
inline M3 skew(const V3 & v)
{
  M3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
/// exponential map, series near zero
inline M3 expm(const V3 & w)
{
  double t2 = w.squaredNorm(), t = std::sqrt(t2), a, b;
  if(t < 1e-4)
  {
    a = 1 - t2 / 6 + t2 * t2 / 120;
    b = 0.5 - t2 / 24 + t2 * t2 / 720;
  }
  else
  {
    a = std::sin(t) / t;
    double sh = std::sin(t / 2);
    b = 2 * sh * sh / t2;
  }
  M3 k = skew(w);
  return M3::Identity() + a * k + b * (k * k);
}
/// logarithm, robust near 0 and pi (goes through a quaternion built here)
inline V3 logm(const M3 & R)
{
  double q[4]; // w x y z
  double tr = R.trace();
  double d[4] = {tr, R(0, 0), R(1, 1), R(2, 2)};
  int k = 0;
  for(int j = 1; j < 4; ++j)
    if(d[j] > d[k]) k = j;
  if(k == 0)
  {
    double s = std::sqrt(std::max(0., 1 + tr)) * 2;
    q[0] = s / 4;
    q[1] = (R(2, 1) - R(1, 2)) / s;
    q[2] = (R(0, 2) - R(2, 0)) / s;
    q[3] = (R(1, 0) - R(0, 1)) / s;
  }
  else
  {
    int a = k - 1, b = (a + 1) % 3, c = (a + 2) % 3;
    double s = std::sqrt(std::max(0., 1 + R(a, a) - R(b, b) - R(c, c))) * 2;
    q[0] = (R(c, b) - R(b, c)) / s;
    q[1 + a] = s / 4;
    q[1 + b] = (R(a, b) + R(b, a)) / s;
    q[1 + c] = (R(a, c) + R(c, a)) / s;
  }
  if(q[0] < 0)
    for(double & x : q) x = -x;
  V3 v(q[1], q[2], q[3]);
  double n = v.norm();
  if(n < 1e-12) return 2 * v / q[0];
  return v * (2 * std::atan2(n, q[0]) / n);
}
inline M3 rotX(double a) { return expm(V3(a, 0, 0)); }
inline M3 rotY(double a) { return expm(V3(0, a, 0)); }
inline M3 rotZ(double a) { return expm(V3(0, 0, a)); }
/// random rotation (rotation matrix), special cases included
inline M3 rotation(Gen & g)
{
  V3 a = g.axis();
  return expm(a * g.angle());
}
} // namespace pbt
using pbt::Gen;
using pbt::M3;
using pbt::Mat;
using pbt::V3;
using pbt::Vec;
