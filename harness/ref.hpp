// Reference Kalman recursions (long double), written from the textbook and independent of the library.
#pragma once
#include "pbt.hpp"
#include <Eigen/Dense>
#include <cstring>
#include <memory>
#include <type_traits>

/// An object that can be moved to another address: copied (by construction or assignment), the original destroyed and its
/// memory overwritten. What is done with the copy must not depend on it.
template<class T>
class Relocatable
{
  typedef typename std::aligned_storage<sizeof(T), 64>::type Slot;
  std::unique_ptr<char[]> raw_{new char[2 * sizeof(Slot) + 64]};
  size_t cur_ = 0;
  void * at(size_t i) const
  {
    size_t a = (reinterpret_cast<size_t>(raw_.get()) + 63) / 64 * 64;
    return reinterpret_cast<void *>(a + i * sizeof(Slot));
  }

public:
  template<class... A>
  explicit Relocatable(A &&... a)
  {
    new(at(0)) T(std::forward<A>(a)...);
  }
  Relocatable(const Relocatable &) = delete;
  ~Relocatable() { (**this).~T(); }
  T & operator*() const { return *static_cast<T *>(at(cur_)); }
  T * operator->() const { return &**this; }
  void copied()
  {
    new(at(1 - cur_)) T(**this);
    leave();
  }
  /// assigned over an object made from these arguments
  template<class... A>
  void assigned(A &&... other)
  {
    T * t = new(at(1 - cur_)) T(std::forward<A>(other)...);
    *t = **this;
    leave();
  }

private:
  void leave()
  {
    T & from = **this;
    from.~T();
    std::memset(static_cast<void *>(&from), 0x5a, sizeof(T));
    cur_ = 1 - cur_;
  }
};

namespace ref
{
typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> LM;
typedef Eigen::Matrix<long double, Eigen::Dynamic, 1> LV;
inline LM L(const Mat & m) { return m.cast<long double>(); }
inline LV LVc(const Vec & v) { return v.cast<long double>(); }
inline Mat D(const LM & m) { return m.cast<double>(); }

struct Update
{
  LM K, P, Pbar, S;
  LV dx;
  double condS;
};
/// covariance prediction and correction for the innovation dy
inline Update update(const LM & A, const LM & C, const LM & Q, const LM & R, const LM & P, const LV & dy)
{
  Update u;
  u.Pbar = A * P * A.transpose() + Q;
  if(dy.size() == 0)
  { // nothing measured
    u.P = u.Pbar;
    u.dx = LV::Zero(A.rows());
    u.condS = 1;
    return u;
  }
  u.S = C * u.Pbar * C.transpose() + R;
  Eigen::FullPivLU<LM> lu(u.S);
  LM Si = lu.inverse();
  u.K = u.Pbar * C.transpose() * Si;
  u.dx = u.K * dy;
  LM I = LM::Identity(A.rows(), A.rows());
  u.P = (I - u.K * C) * u.Pbar;
  u.P = (0.5L * (u.P + u.P.transpose())).eval();
  u.condS = double(u.S.norm() * Si.norm());
  return u;
}

struct Linear
{
  LM A, B, C, Dm, Q, R, P;
  LV x;
  long k = 0;
  // last step
  LV xbar, ybar, inno;
  LM K, Pbar;
  double cond = 1;
  bool hasB() const { return B.size() > 0; }
  LV predict(const LV * u) const
  {
    LV r = A * x;
    if(u && B.size()) r += B * *u;
    return r;
  }
  LV sensor(const LV & s, const LV * u) const
  {
    LV r = C * s;
    if(u && Dm.size()) r += Dm * *u;
    return r;
  }
  void step(const LV * uk, const LV * uk1, const LV & y)
  {
    xbar = predict(uk);
    ybar = sensor(xbar, uk1);
    Update u = update(A, C, Q, R, P, y - ybar);
    K = u.K;
    Pbar = u.Pbar;
    inno = u.dx;
    x = xbar + u.dx;
    P = u.P;
    cond = u.condS;
    ++k;
  }
};
} // namespace ref
