// C06: time-indexed arrays, time-indexed values and checked items against explicit models.
#include "pbt.hpp"
#include <deque>
#include <state-observation/tools/definitions.hpp>
using namespace stateObservation;

static const char * opNames[] = {"pushBack",   "setExisting", "setNext",      "popFront",     "truncAfter",
                                 "truncBefore", "resize",      "setFirstIndex", "setLastIndex", "clear",
                                 "reset",      "write",       "setOnEmpty",   "copy",         "setFront",
                                 "setBack",    "assign"};

template<class Arr, class Val>
static void arrayCase(Gen & g, long rows, long cols)
{
  struct Model
  {
    long first = 0;
    std::deque<Mat> v;
    long next() const { return first + long(v.size()); }
  };
  auto value = [&]() -> Val { return Val(g.mat(rows, cols, 10)); };
  Arr a;
  Model m;
  if(g.p(1, 4))
  {
    size_t s = g.u(4);
    long t = g.time(-10, 30);
    a = Arr(TimeSize(s), TimeIndex(t));
    m.first = t;
    m.v.assign(s, Mat());
    REQUIRE(a.size() == TimeSize(s) && a.getFirstIndex() == t && a.getNextIndex() == t + long(s), "sized construction");
    for(long k = t; k < m.next(); ++k)
    {
      Val x = value();
      a.setValue(x, k);
      m.v[size_t(k - t)] = Mat(x);
    }
  }
  bool knownFirst = true; // the time of the next value is specified by the documentation
  auto check = [&]() {
    REQUIRE(a.size() == TimeSize(m.v.size()), "size " << a.size() << " instead of " << m.v.size());
    const Arr & ca = a;
    if(knownFirst)
    {
      REQUIRE(a.getFirstIndex() == m.first || m.v.empty(), "first index " << a.getFirstIndex() << " not " << m.first);
      REQUIRE(a.getNextIndex() == m.next(), "next index " << a.getNextIndex() << " instead of " << m.next());
      REQUIRE(a.getLastIndex() == m.next() - 1, "last index " << a.getLastIndex() << " instead of " << m.next() - 1);
    }
    if(m.v.empty())
    {
      REQUIRE(a.getArray().empty(), "array of an empty array");
      for(long k = m.first - 2; k < m.first + 3; ++k) REQUIRE(!a.checkIndex(k), "index " << k << " in an empty array");
      return;
    }
    for(long k = m.first - 3; k < m.next() + 3; ++k)
      REQUIRE(a.checkIndex(k) == (k >= m.first && k < m.next()), "membership of " << k);
    auto arr = a.getArray();
    REQUIRE(arr.size() == m.v.size(), "size of the standard array");
    for(long k = m.first; k < m.next(); ++k)
    {
      const Mat & e = m.v[size_t(k - m.first)];
      REQUIRE(Mat(ca[k]) == e, "value at " << k);
      REQUIRE(Mat(a[k]) == e, "value at " << k << " (non const)");
      REQUIRE(Mat(arr[size_t(k - m.first)]) == e, "array value at " << k);
    }
    REQUIRE(Mat(ca.front()) == m.v.front() && Mat(a.front()) == m.v.front(), "front");
    REQUIRE(Mat(ca.back()) == m.v.back() && Mat(a.back()) == m.v.back(), "back");
  };
  check();
  size_t ops = 1 + g.many(g.thorough ? 60 : 30, 300);
  std::set<int> kinds;
  for(size_t o = 0; o < ops; ++o)
  {
    int op = int(g.u(16));
    bool empty = m.v.empty();
    if(empty && (op == 1 || op == 2 || op == 3 || op == 11 || op == 14 || op == 15)) op = g.b() ? 0 : 12;
    if(!empty && op == 12) op = 2;
    if(empty && !knownFirst && op != 10) op = 12;
    kinds.insert(op);
    g.note() << opNames[op] << ' ';
    switch(op)
    {
      case 0:
      {
        for(size_t n = 1 + g.many(0, 300); n > 0; --n)
        {
          if(!m.v.empty() && g.p(1, 8))
          { // a value of the array itself
            long k = m.first + long(g.u(m.v.size() - 1));
            Mat w = m.v[size_t(k - m.first)];
            a.pushBack(a[k]);
            m.v.push_back(w);
            continue;
          }
          Val x = value();
          a.pushBack(x);
          m.v.push_back(Mat(x));
        }
        break;
      }
      case 1:
      {
        long k = m.first + long(g.u(m.v.size() - 1));
        Val x = value();
        if(g.p(1, 6))
        { // a value of the array itself
          x = a.front();
          a.setValue(a.front(), k);
        }
        else
          a.setValue(x, k);
        m.v[size_t(k - m.first)] = Mat(x);
        break;
      }
      case 2:
      {
        Val x = value();
        if(g.p(1, 6))
        {
          const Arr & ca = a;
          x = ca.back();
          a.setValue(ca.back(), m.next());
        }
        else
          a.setValue(x, m.next());
        m.v.push_back(Mat(x));
        break;
      }
      case 3:
        a.popFront();
        m.v.pop_front();
        m.first++;
        break;
      case 4:
      {
        long t = m.first + g.i(-2, long(m.v.size()) + 2);
        g.note() << "(" << t - m.first << "/" << m.v.size() << ") ";
        a.truncateAfter(t);
        while(!m.v.empty() && m.next() - 1 > t) m.v.pop_back();
        break;
      }
      case 5:
      {
        long t = m.first + g.i(-2, long(m.v.size()) + 2);
        g.note() << "(" << t - m.first << "/" << m.v.size() << ") ";
        bool had = !m.v.empty();
        a.truncateBefore(t);
        while(!m.v.empty() && m.first < t)
        {
          m.v.pop_front();
          m.first++;
        }
        // the documentation does not say which index an emptied array continues at
        if(had && m.v.empty()) knownFirst = false;
        break;
      }
      case 6:
      {
        size_t s = g.many(6, 300);
        Val x = value();
        a.resize(TimeSize(s), x);
        m.v.resize(s, Mat(x));
        break;
      }
      case 7:
      {
        long t = g.time(-20, 40);
        a.setFirstIndex(t);
        m.first = t;
        break;
      }
      case 8:
      {
        long t = g.time(-20, 40);
        a.setLastIndex(t);
        m.first = t - long(m.v.size()) + 1;
        break;
      }
      case 9:
        a.clear();
        m.first = m.next();
        m.v.clear();
        break;
      case 10:
        a.reset();
        m.first = 0;
        m.v.clear();
        knownFirst = true;
        break;
      case 11:
      {
        long k = m.first + long(g.u(m.v.size() - 1));
        Val x = value();
        a[k] = x;
        m.v[size_t(k - m.first)] = Mat(x);
        break;
      }
      case 12:
      {
        long t = g.time(-20, 40);
        Val x = value();
        a.setValue(x, t);
        m.first = t;
        m.v.push_back(Mat(x));
        knownFirst = true;
        break;
      }
      case 13:
      {
        Arr c(a);
        if(g.b()) a.reset();
        if(c.size()) c.front() = value(), a = c, m.v.front() = Mat(c.front());
        else a = c;
        break;
      }
      case 14:
      {
        Val x = value();
        a.front() = x;
        m.v.front() = Mat(x);
        break;
      }
      case 15:
      {
        Val x = value();
        a.back() = x;
        m.v.back() = Mat(x);
        break;
      }
      case 16:
      {
        Arr c;
        c = a;
        c.pushBack(value()); // must not affect a
        break;
      }
    }
    check();
  }
  if(kinds.size() >= 4) g.nontrivial();
  for(int k : kinds) g.label(opNames[k]);
}

FACET(vectorArray, 480000, 3000000, "at least four kinds of operation were applied")
{
  arrayCase<IndexedVectorArray, Vector>(g, 1 + long(g.many(3, 20)), 1);
}
FACET(matrixArray, 320000, 2000000, "at least four kinds of operation were applied")
{
  arrayCase<IndexedMatrixArray, Matrix>(g, 1 + long(g.u(2)), 1 + long(g.u(2)));
}

template<class Item, class Val>
static void indexedValue(Gen & g, long rows, long cols)
{
  auto value = [&]() -> Val { return Val(g.mat(rows, cols, 10)); };
  Item x;
  bool set = false, hasValue = false;
  long k = 0;
  Mat v;
  REQUIRE(!x.isSet(), "initially set");
  if(g.b())
  {
    Val w = value();
    k = g.time(-10, 1000);
    x = Item(w, k);
    v = w;
    set = hasValue = true;
  }
  size_t n = 1 + g.many(12, 100);
  for(size_t i = 0; i < n; ++i)
  {
    switch(g.u(5))
    {
      case 0:
      {
        Val w = value();
        k = g.time(-10, 1000);
        bool same = set && g.p(1, 6); // the value it holds, at another time
        if(same) w = x();
        Item & r = same ? x.set(x(), k) : x.set(w, k);
        REQUIRE(&r == &x, "returned reference");
        v = w;
        set = hasValue = true;
        break;
      }
      case 1:
        if(set)
        {
          k = g.time(-10, 1000);
          x.setIndex(k);
        }
        break;
      case 2:
        x.reset();
        set = false;
        break;
      case 3:
        if(hasValue)
        {
          x.set(true);
          set = true;
        }
        break;
      case 4:
        if(set)
        {
          Val w = value();
          x() = w;
          v = w;
        }
        break;
      case 5:
      {
        Item c(x);
        x = c;
        break;
      }
    }
    REQUIRE(x.isSet() == set, "set flag");
    if(set)
    {
      g.nontrivial();
      const Item & c = x;
      REQUIRE(c.getTime() == k, "time " << c.getTime() << " instead of " << k);
      REQUIRE(Mat(c()) == v && Mat(x()) == v, "value");
    }
  }
}
FACET(indexedValue, 320000, 2000000, "a value was set and read")
{
  switch(g.u(3))
  {
    case 0: indexedValue<IndexedVector, Vector>(g, 1 + long(g.u(4)), 1); break;
    case 1: indexedValue<IndexedMatrix, Matrix>(g, 1 + long(g.u(3)), 1 + long(g.u(3))); break;
    case 2: indexedValue<IndexedVector3, Vector3>(g, 3, 1); break;
    default: indexedValue<IndexedMatrix3, Matrix3>(g, 3, 3);
  }
}

FACET(checkedItem, 320000, 2000000, "a value was set and read")
{
  std::vector<CheckedVector3> x(2);
  std::vector<bool> set(2, false), has(2, false);
  std::vector<V3> v(2, V3::Zero());
  size_t n = 1 + g.many(12, 100);
  for(size_t i = 0; i < n; ++i)
  {
    size_t j = g.u(1);
    switch(g.u(6))
    {
      case 0:
      {
        V3 w = g.v3(10);
        x[j] = w;
        v[j] = w;
        set[j] = has[j] = true;
        break;
      }
      case 1:
        x[j].reset();
        set[j] = false;
        break;
      case 2:
      {
        V3 w = g.v3(10);
        x[j].set() = w;
        v[j] = w;
        set[j] = has[j] = true;
        break;
      }
      case 3:
        if(has[j])
        {
          bool s = g.b();
          x[j].set(s);
          set[j] = s;
        }
        break;
      case 4:
        if(set[j])
        {
          V3 w = g.v3(10);
          x[j]() = w;
          v[j] = w;
        }
        break;
      case 5:
        if(has[1 - j])
        {
          x[j] = x[1 - j];
          v[j] = v[1 - j];
          set[j] = set[1 - j];
          has[j] = has[1 - j];
        }
        break;
      case 6:
        if(has[1 - j])
        {
          CheckedVector3 c(x[1 - j]);
          REQUIRE(c.isSet() == set[1 - j], "copied flag");
          if(c.isSet()) REQUIRE(V3(c()) == v[1 - j], "copied value");
          CheckedVector3 d(v[1 - j]);
          REQUIRE(d.isSet() && V3(d()) == v[1 - j], "construction from a value");
        }
        break;
    }
    for(size_t q = 0; q < 2; ++q)
    {
      REQUIRE(x[q].isSet() == set[q], "set flag of " << q);
      if(set[q])
      {
        g.nontrivial();
        const CheckedVector3 & c = x[q];
        REQUIRE(V3(c()) == v[q] && V3(x[q]()) == v[q] && c.chckitm_getValue() == v[q], "value of " << q);
      }
    }
  }
}
