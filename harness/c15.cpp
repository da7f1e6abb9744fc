// C15: the dynamical system simulator (stateful, model = the trajectory computed step by step).
#include "models.hpp"
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
using namespace stateObservation;

namespace
{
struct Model
{
  models::Functor f;
  std::map<long, Vec> u;
  std::map<long, Vec> given; // states set by the user
  long first = 0, last = 0; // range of the states known to the simulator
  std::map<long, Vec> x; // known states
  std::map<long, Vec> input; // input that was used at a simulated time
  Vec inputAt(long k) const
  {
    auto i = u.upper_bound(k);
    --i;
    return i->second;
  }
  void to(long k)
  {
    for(; last < k; ++last)
    {
      Vec v = inputAt(last);
      x[last + 1] = f.f(x.at(last), &v, last);
    }
  }
  Vec y(long k)
  {
    to(k);
    Vec v = inputAt(k);
    return f.h(x.at(k), &v, k);
  }
};
} // namespace

FACET(history, 800000, 3200000, "at least five calls, one of them changing a state or an input")
{
  models::Manifold s, m;
  for(size_t i = 1 + g.u(2); i > 0; --i) s.kinds.push_back(0);
  for(size_t i = 1 + g.u(2); i > 0; --i) m.kinds.push_back(0);
  Model r;
  long p = 1 + long(g.u(1));
  r.f = models::Functor(g, s, m, p);
  r.f.M *= 0.3; // tame growth
  r.first = r.last = g.b() ? 0 : g.time(0, 6);
  DynamicalSystemSimulator sim;
  auto start = [&]
  {
    Vec x = g.gvec(s.size(), 2), u = g.gvec(p, 2);
    r.u.clear();
    r.x.clear();
    r.last = r.first;
    long ku = g.b() ? r.first : r.first - g.i(0, 3);
    if(g.b())
    {
      sim.setState(x, r.first);
      sim.setInput(u, ku);
    }
    else
    {
      sim.setInput(u, ku);
      sim.setState(x, r.first);
    }
    r.u[ku] = u;
    r.x[r.first] = x;
  };
  sim.setDynamicsFunctor(&r.f);
  start();
  long seen = r.first - 1; // latest time whose input has been used
  const double tol = 1e-12;
  size_t n = 1 + g.many(14, 150);
  bool change = false;
  for(size_t c = 0; c < n; ++c)
  {
    REQUIRE(sim.getCurrentTime() == r.last, "current time " << sim.getCurrentTime() << " instead of " << r.last);
    CLOSE(sim.getCurrentState(), r.x.at(r.last), tol, "current state");
    switch(g.u(10))
    {
      case 0:
        g.label("simulate");
        sim.simulateDynamics();
        r.to(r.last + 1);
        break;
      case 1:
      {
        g.label("simulate to");
        long k = r.last + g.i(-3, 6);
        sim.simulateDynamicsTo(k);
        r.to(k);
        break;
      }
      case 2:
      {
        g.label("state");
        long k = std::max(r.first, r.last + g.i(-5, 5));
        g.labelIf(k > r.last, "future state");
        r.to(k);
        CLOSE(sim.getState(k), r.x.at(k), tol, "state");
        break;
      }
      case 3:
      {
        g.label("measurement");
        long k = std::max(r.first, r.last + g.i(-5, 5));
        g.labelIf(k >= r.last, "future measurement");
        Vec y = r.y(k);
        CLOSE(sim.getMeasurement(k), y, tol, "measurement");
        seen = std::max(seen, k);
        // the call may or may not have simulated one more state
        r.to(sim.getCurrentTime());
        REQUIRE(sim.getCurrentTime() <= std::max(r.last, k + 1), "simulated too far");
        break;
      }
      case 4:
      {
        g.label("state array");
        long k = std::max(r.first, r.last + g.i(-5, 2));
        long d = g.i(0, 5);
        if(d) r.to(k + d - 1);
        IndexedVectorArray a = sim.getStateArray(k, d);
        REQUIRE(a.size() == d && (d == 0 || a.getFirstIndex() == k), "range of the state array");
        for(long i = k; i < k + d; ++i) CLOSE(Vector(a[i]), r.x.at(i), tol, "state in array");
        break;
      }
      case 5:
      {
        g.label("measurement array");
        long k = std::max(r.first, r.last + g.i(-5, 2));
        long d = g.i(0, 5);
        if(d) r.y(k + d - 1);
        IndexedVectorArray a = sim.getMeasurementArray(k, d);
        REQUIRE(a.size() == d && (d == 0 || a.getFirstIndex() == k), "range of the measurement array");
        r.to(sim.getCurrentTime());
        for(long i = k; i < k + d; ++i) CLOSE(Vector(a[i]), r.y(i), tol, "measurement in array");
        seen = std::max(seen, k + d - 1);
        break;
      }
      case 6:
      { // input of a time that has not been used yet
        g.label("input");
        long k = std::max(seen + 1, r.last) + g.i(0, 4);
        Vec u = g.gvec(p, 2);
        g.labelIf(r.u.count(k), "input replaced");
        sim.setInput(u, k);
        r.u[k] = u;
        if(g.b())
        { // changed mind
          u = g.gvec(p, 2);
          sim.setInput(u, k);
          r.u[k] = u;
          g.label("input replaced");
        }
        change = true;
        break;
      }
      case 7:
      {
        g.label("override state");
        long k = std::min(r.last + 1, std::max(r.first, r.last + g.i(-4, 1)));
        g.labelIf(k == r.last + 1, "state appended");
        g.labelIf(k < r.last, "past state overridden");
        Vec x = g.gvec(s.size(), 2);
        sim.setState(x, k);
        r.x[k] = x;
        r.x.erase(r.x.upper_bound(k), r.x.end());
        r.last = k;
        seen = std::min(seen, k - 1);
        if(g.b())
        { // and the input from there on
          Vec u = g.gvec(p, 2);
          sim.setInput(u, k);
          r.u[k] = u;
        }
        change = true;
        break;
      }
      case 8:
      {
        long k = std::max(r.u.begin()->first, r.last + g.i(-6, 6));
        CLOSE(sim.getInput(k), r.inputAt(k), 0, "input in force");
        break;
      }
      case 9:
        if(!g.p(1, 3)) break;
        g.label("reset");
        if(g.b())
          sim.resetDynamics();
        else
        {
          sim.resetSimulator();
          sim.setDynamicsFunctor(&r.f);
        }
        r.first = g.time(0, 6);
        start();
        seen = r.first - 1;
        break;
      default:
      { // read everything again
        for(auto & i : r.x) CLOSE(sim.getState(i.first), i.second, tol, "state read again");
      }
    }
    seen = std::max(seen, r.last - 1);
  }
  if(n >= 5 && change) g.nontrivial();
}

FACET(query_order, 200000, 800000, "more than one step")
{ // the same scenario asked in two different ways gives identical results
  models::Manifold s, m;
  s.kinds = {0, 0};
  m.kinds = {0};
  models::Functor f(g, s, m, 1);
  f.M *= 0.3;
  DynamicalSystemSimulator a, b;
  a.setDynamicsFunctor(&f);
  b.setDynamicsFunctor(&f);
  Vec x = g.gvec(2, 2);
  a.setState(x, 0);
  b.setState(x, 0);
  long n = 1 + long(g.u(8));
  if(n > 1) g.nontrivial();
  for(long k = 0; k < n; ++k)
    if(k == 0 || g.b())
    {
      Vec u = g.gvec(1, 2);
      a.setInput(u, k);
      b.setInput(u, k);
    }
  IndexedVectorArray ya = a.getMeasurementArray(0, n), xa = a.getStateArray(0, n + 1);
  std::vector<long> order;
  for(long k = 0; k < n; ++k) order.insert(order.begin() + long(g.u(order.size())), k);
  for(long k : order)
  {
    CLOSE(b.getMeasurement(k), Vector(ya[k]), 0, "measurement depends on the order of the questions");
    long j = g.i(0, n);
    CLOSE(b.getState(j), Vector(xa[j]), 0, "state depends on the order of the questions");
  }
}
