// C05: observer bookkeeping, model-based. The observer under test is a linear Kalman filter with generic matrices, so
// that every use, omission, repetition or misplacement of a measurement or input changes the estimate.
#include "ref.hpp"
#include <map>
#include <memory>
#include <state-observation/observer/linear-kalman-filter.hpp>
using namespace stateObservation;
using ref::L;
using ref::LVc;

struct Model
{
  bool set = false;
  long k = 0;
  std::map<long, Vec> y, u;
  bool yKnown = true, uKnown = true; // index of an empty array is not specified
};

FACET(history, 600000, 2400000, "at least three estimation steps, over several requests, with data stored ahead of time")
{
  long n = 1 + long(g.u(2)), m = 1 + long(g.u(2)), p = long(g.u(2));
  Relocatable<LinearKalmanFilter> fp(n, m, p);
  ref::Linear r;
  auto mats = [&]() {
    Mat A = g.gmat(n, n, 0.8), C = g.gmat(m, n, 1), Q = g.spd(n, 0.5, 0.05), R = g.spd(m, 0.5, 0.2);
    fp->setA(A), fp->setC(C), fp->setQ(Q), fp->setR(R);
    r.A = L(A), r.C = L(C), r.Q = L(Q), r.R = L(R);
    bool useB = !g.p(1, 4), useD = g.b();
    Mat B = useB ? g.gmat(n, p, 1) : Mat(Mat::Zero(n, p));
    fp->setB(B);
    r.B = useB && p ? L(B) : ref::LM();
    r.Dm = ref::LM();
    if(useD && p)
    {
      Mat Dm = g.gmat(m, p, 1);
      fp->setD(Dm);
      r.Dm = L(Dm);
    }
    else if(g.b()) fp->setD(Mat::Zero(m, p));
    else fp->clearD();
  };
  mats();
  Mat P0 = g.spd(n, 0.5, 0.1);
  fp->setStateCovariance(P0);
  r.P = L(P0);
  Model md;
  long steps = 0, requests = 0;
  bool ahead = false;
  auto stepOk = [&](long k) { // data needed for k -> k+1
    if(!md.y.count(k + 1)) return false;
    if(r.B.size() && !md.u.count(k)) return false;
    if(r.Dm.size() && !md.u.count(k + 1)) return false;
    return true;
  };
  auto reach = [&]() {
    long k = md.k;
    while(stepOk(k)) ++k;
    return k;
  };
  auto doSteps = [&](long to) {
    for(long k = md.k; k < to; ++k)
    {
      ref::LV uk, uk1;
      bool a = md.u.count(k), b = md.u.count(k + 1);
      if(a) uk = LVc(md.u[k]);
      if(b) uk1 = LVc(md.u[k + 1]);
      r.step(a ? &uk : nullptr, b ? &uk1 : nullptr, LVc(md.y[k + 1]));
      ++steps;
    }
    md.k = to;
  };
  auto check = [&](const char * what) {
    REQUIRE(fp->stateIsSet() == md.set, what << ": state set flag");
    if(md.set)
    {
      REQUIRE(fp->getCurrentTime() == md.k, what << ": time " << fp->getCurrentTime() << " instead of " << md.k);
      CLOSE(fp->getCurrentEstimatedState(), ref::D(r.x), 1e-8, what);
    }
    REQUIRE(fp->getMeasurementsNumber() == TimeSize(md.y.size()),
            what << ": " << fp->getMeasurementsNumber() << " measurements instead of " << md.y.size());
    REQUIRE(fp->getInputsNumber() == TimeSize(md.u.size()),
            what << ": " << fp->getInputsNumber() << " inputs instead of " << md.u.size());
    if(!md.y.empty())
      REQUIRE(fp->getMeasurementTime() == md.y.rbegin()->first, what << ": last measurement time " << fp->getMeasurementTime());
    if(!md.u.empty())
      REQUIRE(fp->getInputTime() == md.u.rbegin()->first, what << ": last input time " << fp->getInputTime());
    for(auto & e : md.y) REQUIRE(fp->getMeasurement(e.first) == e.second, what << ": measurement of " << e.first);
    for(auto & e : md.u) REQUIRE(fp->getInput(e.first) == e.second, what << ": input of " << e.first);
  };
  // after an estimation, what is older than the current time is gone; whether the data at the current time are still
  // held is checked as the library documents it (inputs at the current time are needed for the next step; the
  // measurement at the current time is kept until the next step)
  auto consumed = [&](long from) {
    if(md.k == from) return;
    md.y.erase(md.y.begin(), md.y.lower_bound(md.k));
    md.u.erase(md.u.begin(), md.u.lower_bound(md.k));
  };
  size_t ops = 8 + g.many(g.thorough ? 60 : 35, 300);
  if(!g.p(1, 8))
  {
    Vec x = g.vec(n, 5);
    md.k = g.time(-3, 20);
    fp->setState(x, md.k);
    md.set = true;
    r.x = LVc(x);
    r.k = md.k;
  }
  for(size_t o = 0; o < ops; ++o)
  {
    if(g.p(1, 20)) g.b() ? fp.copied() : fp.assigned();
    switch(g.u(13))
    {
      case 0: // state override at any time
      {
        Vec x = g.vec(n, 5);
        long k;
        if(!md.set)
        {
          // first initialisation, possibly with data already stored
          k = md.y.empty() ? (md.u.empty() ? g.time(-3, 20) : md.u.begin()->first) : md.y.begin()->first - 1;
          if(!md.u.empty() && md.u.begin()->first > k + 1) break;
        }
        else k = g.p(1, 3) ? md.k : md.k + g.i(-2, 3);
        // a gap between the new time and what is stored is outside the domain
        long yl = md.y.empty() ? k + 1 : std::max(md.y.begin()->first, k + 1);
        if(!(md.set && k < md.k))
        {
          if(!md.y.empty() && md.y.rbegin()->first > k && yl != k + 1) break;
          if(!md.u.empty() && md.u.rbegin()->first >= k && std::max(md.u.begin()->first, k) > k + 1) break;
        }
        g.note() << "setState(" << k - md.k << ") ";
        fp->setState(x, k);
        if(md.set && k < md.k)
        {
          md.y.clear();
          md.u.clear();
          g.label("went back in time");
        }
        else
        {
          md.y.erase(md.y.begin(), md.y.upper_bound(k));
          md.u.erase(md.u.begin(), md.u.lower_bound(k));
          if(md.set && k > md.k) g.label("jumped forward");
        }
        md.k = k;
        md.set = true;
        r.x = LVc(x);
        if(!fp->checkPmatrix(fp->getStateCovariance()))
        {
          Mat P = g.spd(n, 0.5, 0.1);
          fp->setStateCovariance(P);
          r.P = L(P);
        }
        check("after setState");
        break;
      }
      case 1:
        if(md.set)
        {
          Vec x = g.vec(n, 5);
          fp->setCurrentState(x);
          r.x = LVc(x);
          g.note() << "setCurrentState ";
          check("after setCurrentState");
        }
        break;
      case 2:
      case 3: // measurement with time
      {
        Vec y = g.vec(m, 5);
        long k;
        if(!md.y.empty())
        {
          if(g.p(1, 3))
          {
            k = md.y.begin()->first + long(g.u(md.y.size() - 1));
            g.label("measurement replaced");
          }
          else k = md.y.rbegin()->first + 1;
        }
        else k = md.set ? md.k + 1 : g.time(-3, 20);
        fp->setMeasurement(y, k);
        md.y[k] = y;
        g.note() << "y" << k - md.k << ' ';
        if(md.set && k > md.k + 1) ahead = true;
        check("after setMeasurement");
        break;
      }
      case 4:
      {
        if(md.y.empty() && !md.set) break;
        Vec y = g.vec(m, 5);
        fp->pushMeasurement(y);
        long k = md.y.empty() ? md.k + 1 : md.y.rbegin()->first + 1;
        md.y[k] = y;
        g.note() << "y+ ";
        if(md.set && k > md.k + 1) ahead = true;
        check("after pushMeasurement");
        break;
      }
      case 5:
      case 6:
      {
        Vec u = g.vec(p, 5);
        long k;
        if(!md.u.empty())
        {
          if(g.p(1, 3)) k = md.u.begin()->first + long(g.u(md.u.size() - 1));
          else k = md.u.rbegin()->first + 1;
        }
        else k = md.set ? md.k + (r.B.size() ? 0 : long(g.u(1))) : g.time(-3, 20);
        fp->setInput(u, k);
        if(p) md.u[k] = u;
        g.note() << "u" << k - md.k << ' ';
        check("after setInput");
        break;
      }
      case 7:
      {
        if(md.u.empty() && !md.set) break;
        Vec u = g.vec(p, 5);
        fp->pushInput(u);
        if(p) md.u[md.u.empty() ? md.k : md.u.rbegin()->first + 1] = u;
        g.note() << "u+ ";
        check("after pushInput");
        break;
      }
      case 8:
      case 9:
      case 10:
      {
        if(!md.set) break;
        long to = reach();
        if(to > md.k && g.p(1, 3)) to = md.k + g.i(0, to - md.k);
        long from = md.k;
        doSteps(to);
        Vec x = fp->getEstimatedState(to);
        consumed(from);
        ++requests;
        g.note() << "estimate+" << to - from << ' ';
        CLOSE(x, ref::D(r.x), 1e-8, "estimate");
        check("after getEstimatedState");
        if(g.b())
        {
          CLOSE(fp->getEstimatedState(to), x, 0, "estimate asked again");
          check("after asking again");
        }
        break;
      }
      case 11:
      {
        if(!md.set) break;
        long to = reach(), from = md.k;
        long last = md.y.empty() ? md.k : std::max(md.k, md.y.rbegin()->first);
        if(last != to) break; // some input is missing
        doSteps(to);
        TimeIndex t = fp->estimateState();
        consumed(from);
        ++requests;
        g.note() << "estimateAll+" << to - from << ' ';
        REQUIRE(t == to, "estimateState returned " << t << " instead of " << to);
        check("after estimateState");
        break;
      }
      case 12:
        switch(g.u(4))
        {
          case 0: fp->clearMeasurements(), md.y.clear(), g.note() << "clearY "; break;
          case 1: fp->clearInputs(), md.u.clear(), g.note() << "clearU "; break;
          case 2: fp->clearInputsAndMeasurements(), md.y.clear(), md.u.clear(), g.note() << "clearYU "; break;
          case 3: // sizes: unchanged sizes change nothing
            fp->setStateSize(n), fp->setMeasureSize(m), fp->setInputSize(p);
            break;
          default:
            if(g.p(1, 3))
            {
              if(g.b()) fp->clearStates();
              else
              {
                fp->reset();
                md.y.clear();
                md.u.clear();
              }
              md.set = false;
              md.k = 0;
              Mat P = g.spd(n, 0.5, 0.1);
              fp->setStateCovariance(P);
              r.P = L(P);
              g.note() << "clearStates ";
              // data stored for another time base is outside the domain
              fp->clearInputsAndMeasurements();
              md.y.clear();
              md.u.clear();
            }
        }
        check("after clearing");
        break;
      default:
        if(g.p(1, 3))
        {
          // changing a size forgets what had that size
          switch(g.u(2))
          {
            case 0:
              m = m == 1 ? 2 : 1;
              fp->setMeasureSize(m);
              md.y.clear();
              break;
            case 1:
              p = p == 1 ? 2 : 1;
              fp->setInputSize(p);
              md.u.clear();
              break;
            default:
              n = n == 1 ? 2 : 1;
              fp->setStateSize(n);
              md.set = false;
              md.k = 0;
              md.y.clear();
              md.u.clear();
              fp->clearInputsAndMeasurements();
          }
          REQUIRE(fp->getStateSize() == n && fp->getMeasureSize() == m && fp->getInputSize() == p, "sizes");
          mats();
          Mat P = g.spd(n, 0.5, 0.1);
          fp->setStateCovariance(P);
          r.P = L(P);
          g.note() << "resize ";
          check("after a change of size");
        }
    }
  }
  if(steps >= 3 && requests >= 2 && ahead) g.nontrivial();
  g.labelIf(steps > 0, "estimated");
}

FACET(batching, 80000, 320000, "at least two steps")
{
  // the same data through: one request per step, random batches, one request at the end, estimateState
  long n = 1 + long(g.u(3)), m = 1 + long(g.u(2)), p = long(g.u(2)), N = 1 + long(g.p(1, 100) ? 100 + g.u(200) : g.u(8)), k0 = g.time(-5, 50);
  Mat A = g.gmat(n, n, 0.8), B = g.gmat(n, p, 1), C = g.gmat(m, n, 1), Dm = g.gmat(m, p, 1), Q = g.spd(n, 0.5, 0.05),
      R = g.spd(m, 0.5, 0.2), P = g.spd(n, 0.5, 0.1);
  Vec x0 = g.vec(n, 5);
  std::vector<Vec> y, u;
  for(long i = 0; i <= N; ++i) y.push_back(g.vec(m, 5)), u.push_back(g.vec(p, 5));
  if(N > 1) g.nontrivial();
  std::vector<Vec> ends;
  std::vector<Mat> cov;
  for(int way = 0; way < 4; ++way)
  {
    LinearKalmanFilter f(n, m, p);
    f.setA(A), f.setB(B), f.setC(C), f.setD(Dm), f.setQ(Q), f.setR(R), f.setStateCovariance(P), f.setState(x0, k0);
    long done = 0;
    if(way == 0)
      for(long i = 0; i < N; ++i)
      {
        f.setInput(u[size_t(i)], k0 + i);
        f.setInput(u[size_t(i + 1)], k0 + i + 1);
        f.setMeasurement(y[size_t(i + 1)], k0 + i + 1);
        f.getEstimatedState(k0 + i + 1);
      }
    else
    {
      f.pushInput(u[0]);
      for(long i = 0; i < N; ++i)
      {
        f.pushMeasurement(y[size_t(i + 1)]);
        f.pushInput(u[size_t(i + 1)]);
        if(way == 1 && g.b()) f.getEstimatedState(k0 + (done = i + 1));
      }
    }
    Vec e = way == 3 ? (f.estimateState(), f.getCurrentEstimatedState()) : f.getEstimatedState(k0 + N);
    REQUIRE(f.getCurrentTime() == k0 + N, "final time");
    ends.push_back(e);
    cov.push_back(f.getStateCovariance());
    if(way)
    {
      CLOSE(e, ends[0], 1e-12, "estimate depends on how it was requested");
      CLOSE(cov.back(), cov[0], 1e-12, "covariance depends on how it was requested");
    }
  }
}
