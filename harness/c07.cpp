// C07: files and logger round-trips (all files live in the worker's scratch directory).
#include "pbt.hpp"
#include <cstdio>
#include <deque>
#include <fstream>
#include <memory>
#include <state-observation/tools/logger.hpp>
#include <unistd.h>
using namespace stateObservation;

static const double printTol = 1.1e-5; // six significant digits

static double number(Gen & g)
{
  switch(g.u(6))
  {
    case 0: return 0;
    case 1: return double(g.i(-1000, 1000));
    case 2: return (g.b() ? -1 : 1) * g.mag(-12, 12);
    case 3: return (g.b() ? -1 : 1) * g.mag(-250, 250);
    case 4: return double(g.i(-9, 9)) * 123456.0;
    default: return g.sym(10);
  }
}
static Mat numbers(Gen & g, long r, long c)
{
  Mat m(r, c);
  for(long i = 0; i < r; ++i)
    for(long j = 0; j < c; ++j) m(i, j) = number(g);
  return m;
}
static void near(const Mat & a, const Mat & b, const char * what)
{
  REQUIRE(a.rows() == b.rows() && a.cols() == b.cols(),
          what << ": size " << a.rows() << "x" << a.cols() << " instead of " << b.rows() << "x" << b.cols());
  for(long i = 0; i < a.rows(); ++i)
    for(long j = 0; j < a.cols(); ++j)
      REQUIRE(std::fabs(a(i, j) - b(i, j)) <= printTol * std::fabs(b(i, j)),
              what << ": " << a(i, j) << " instead of " << b(i, j) << " at " << i << "," << j);
}
struct Rec
{
  long k;
  Mat m;
};
/// independent reading of a log: one record per line, time then the values row by row
static std::vector<std::pair<long, std::vector<double>>> parse(const std::string & file)
{
  std::ifstream f(file);
  REQUIRE(f.is_open(), "no file " << file);
  std::vector<std::pair<long, std::vector<double>>> r;
  std::string line;
  while(std::getline(f, line))
  {
    std::istringstream s(line);
    long k;
    REQUIRE(bool(s >> k), "line without a time index: '" << line << "'");
    std::vector<double> v;
    double d;
    while(s >> d) v.push_back(d);
    r.push_back({k, v});
  }
  return r;
}
static void checkFile(const std::string & file, const std::vector<Rec> & e)
{
  auto r = parse(file);
  REQUIRE(r.size() == e.size(), "file has " << r.size() << " records instead of " << e.size());
  for(size_t i = 0; i < e.size(); ++i)
  {
    REQUIRE(r[i].first == e[i].k, "record " << i << " has time " << r[i].first << " instead of " << e[i].k);
    REQUIRE(long(r[i].second.size()) == e[i].m.size(), "record " << i << " has " << r[i].second.size() << " values");
    for(long a = 0; a < e[i].m.rows(); ++a)
      for(long b = 0; b < e[i].m.cols(); ++b)
      {
        double x = r[i].second[size_t(a * e[i].m.cols() + b)], y = e[i].m(a, b);
        REQUIRE(std::fabs(x - y) <= printTol * std::fabs(y), "record " << i << " holds " << x << " instead of " << y);
      }
  }
}
static std::string fileName()
{
  static std::string s = pbt::scratchDir() + "/pbt_c07_array.log";
  std::remove(s.c_str());
  return s;
}

FACET(vectorRoundTrip, 40000, 400000, "at least two records with at least one value each")
{
  std::string file = fileName();
  IndexedVectorArray a;
  long n = long(g.many(6, 300)), first = g.p(1, 3) ? 0 : g.time(-50, 100000);
  bool ragged = g.p(1, 4);
  long r = 1 + long(g.many(4, 40));
  std::vector<Rec> all;
  a.setFirstIndex(first);
  long k = first;
  size_t batches = 1 + g.u(2);
  for(size_t b = 0; b < batches; ++b)
  {
    for(long i = 0; i < n; ++i)
    {
      Mat v = numbers(g, ragged ? 1 + long(g.u(4)) : r, 1);
      a.pushBack(v);
      all.push_back({k++, v});
    }
    // clear and append: the batches together form one log
    bool last = b + 1 == batches, clr = last ? g.b() : true;
    if(g.b()) a.writeInFile(file, clr, b > 0);
    else a.writeInFile(file.c_str(), clr, b > 0);
    if(clr) REQUIRE(a.size() == 0 && a.getNextIndex() == k, "cleared array continues at " << a.getNextIndex());
    else
    {
      REQUIRE(a.size() == TimeSize(n), "the array is kept when not cleared");
      for(long i = 0; i < n; ++i)
        REQUIRE(Mat(a[k - n + i]) == all[all.size() - size_t(n) + size_t(i)].m, "writing alters the array");
    }
    checkFile(file, all);
  }
  g.note() << all.size() << " records from " << first << (ragged ? " ragged" : "");
  if(all.size() > 1) g.nontrivial();
  auto verify = [&](IndexedVectorArray & c) {
    REQUIRE(c.size() == TimeSize(all.size()), c.size() << " records read instead of " << all.size());
    if(all.empty()) return;
    REQUIRE(c.getFirstIndex() == first, "first time " << c.getFirstIndex() << " instead of " << first);
    for(auto & e : all) near(c[e.k], e.m, "vector read back");
  };
  IndexedVectorArray c;
  if(g.b()) c.setValue(Vec::Zero(2), 4); // reading resets
  if(g.b()) c.readVectorsFromFile(file);
  else c.readVectorsFromFile(file.c_str());
  verify(c);
  if(!ragged)
  {
    if(g.b()) c.readFromFile(file, r);
    else c.readFromFile(file.c_str(), r, 1, true);
    verify(c);
  }
  // rewriting over an existing file replaces it
  if(g.b())
  {
    IndexedVectorArray d;
    Mat v = numbers(g, r, 1);
    d.setValue(v, 3);
    d.writeInFile(file);
    checkFile(file, {{3, v}});
    c.readVectorsFromFile(file);
    REQUIRE(c.size() == 1 && c.getFirstIndex() == 3, "stale records after reading again");
    near(c[3], v, "vector read back");
  }
}

FACET(matrixRoundTrip, 40000, 400000, "at least two records of at least two values")
{
  std::string file = fileName();
  long n = long(g.many(6, 300)), first = g.time(-5, 1000), r = 1 + long(g.u(3)), c = 1 + long(g.u(3));
  IndexedMatrixArray a;
  std::vector<Rec> all;
  for(long i = 0; i < n; ++i)
  {
    Mat m = numbers(g, r, c);
    a.setValue(m, first + i);
    all.push_back({first + i, m});
  }
  a.writeInFile(file);
  checkFile(file, all);
  g.note() << n << " records " << r << "x" << c << " from " << first;
  if(n > 1 && r * c > 1) g.nontrivial();
  IndexedMatrixArray b;
  if(g.b()) b.setValue(Mat::Zero(2, 2), 4);
  b.readFromFile(file, r, c);
  REQUIRE(b.size() == TimeSize(n), b.size() << " records read instead of " << n);
  for(auto & e : all) near(b[e.k], e.m, "matrix read back");
  if(n) REQUIRE(b.getFirstIndex() == first, "first time");
}

FACET(withoutTimeStamp, 40000, 400000, "at least two records")
{
  std::string file = fileName();
  long n = long(g.many(6, 300)), r = 1 + long(g.u(3)), c = 1 + long(g.u(3));
  std::vector<Mat> all;
  {
    std::ofstream f(file);
    f.precision(10);
    for(long i = 0; i < n; ++i)
    {
      Mat m = numbers(g, r, c);
      all.push_back(m);
      for(long x = 0; x < r; ++x)
        for(long y = 0; y < c; ++y) f << m(x, y) << (x == r - 1 && y == c - 1 ? "" : " ");
      if(i + 1 < n || !g.p(1, 3)) f << "\n"; // the end of the last line may be missing
    }
  }
  g.note() << n << " records " << r << "x" << c;
  if(n > 1) g.nontrivial();
  IndexedMatrixArray b;
  b.readFromFile(file, r, c, false);
  REQUIRE(b.size() == TimeSize(n), b.size() << " records read instead of " << n);
  for(long i = 0; i < n; ++i) near(b[i], all[size_t(i)], "matrix read back");
  IndexedVectorArray v;
  v.readVectorsFromFile(file, false);
  REQUIRE(v.size() == TimeSize(n), v.size() << " vectors read instead of " << n);
  for(long i = 0; i < n; ++i)
  {
    Mat t = all[size_t(i)].transpose();
    near(v[i], Mat(t.reshaped()), "vector read back");
  }
}

FACET(strings, 120000, 2000000, "more than one value")
{
  long r = 1 + long(g.many(4, 20)), c = 1 + long(g.many(4, 20));
  Mat m = numbers(g, r, c);
  if(r * c > 1) g.nontrivial();
  g.note() << m.reshaped().transpose();
  near(tools::stringToMatrix(tools::matrixToString(m), r, c), m, "matrix through a string");
  Vec v = numbers(g, r, 1);
  near(tools::stringToVector(tools::vectorToString(v), r), v, "vector through a string");
  near(tools::stringToVector(tools::vectorToString(v)), v, "vector through a string (free length)");
}

FACET(loggerHistory, 12000, 150000, "at least two variables and two ticks")
{
  REQUIRE(chdir(pbt::scratchDir().c_str()) == 0, "scratch directory");
  struct Var
  {
    int type;
    std::shared_ptr<void> mem;
    const void * addr;
    std::string file;
    std::deque<Rec> recs;
    long next = 0;
    bool tracked = false, saved = false;
    std::vector<Rec> onDisk;
  };
  std::vector<Var> vars;
  tools::Logger log;
  std::string path = pbt::scratchDir();
  log.setPath(path);
  auto assignTo = [&](Var & v) {
    switch(v.type)
    {
      case 0: *static_cast<Matrix *>(v.mem.get()) = numbers(g, 1 + long(g.u(2)), 1 + long(g.u(2))); break;
      case 1: *static_cast<Vector *>(v.mem.get()) = numbers(g, 1 + long(g.u(3)), 1); break;
      case 2: *static_cast<Matrix3 *>(v.mem.get()) = M3(numbers(g, 3, 3)); break;
      case 3: *static_cast<Vector3 *>(v.mem.get()) = V3(numbers(g, 3, 1)); break;
      case 4: *static_cast<int *>(v.mem.get()) = int(g.b() ? g.i(-1000000, 1000000) : g.i(-2147483647, 2147483647)); break;
      case 5: *static_cast<long *>(v.mem.get()) = g.b() ? g.i(-100000, 100000) : g.i(-9, 9) * (1L << g.u(48)) + g.i(-9, 9); break;
      case 6: *static_cast<double *>(v.mem.get()) = number(g); break;
      default: *static_cast<float *>(v.mem.get()) = float(g.sym(1000));
    }
  };
  auto valueOf = [&](const Var & v) -> Mat {
    switch(v.type)
    {
      case 0: return *static_cast<Matrix *>(v.mem.get());
      case 1: return *static_cast<Vector *>(v.mem.get());
      case 2: return *static_cast<Matrix3 *>(v.mem.get());
      case 3: return *static_cast<Vector3 *>(v.mem.get());
      case 4: return Mat::Constant(1, 1, double(*static_cast<int *>(v.mem.get())));
      case 5: return Mat::Constant(1, 1, double(*static_cast<long *>(v.mem.get())));
      case 6: return Mat::Constant(1, 1, *static_cast<double *>(v.mem.get()));
      default: return Mat::Constant(1, 1, double(*static_cast<float *>(v.mem.get())));
    }
  };
  auto allocate = [&](Var & v) {
    switch(v.type)
    {
      case 0: v.mem = std::make_shared<Matrix>(); break;
      case 1: v.mem = std::make_shared<Vector>(); break;
      case 2: v.mem = std::make_shared<Matrix3>(); break;
      case 3: v.mem = std::make_shared<Vector3>(); break;
      case 4: v.mem = std::make_shared<int>(); break;
      case 5: v.mem = std::make_shared<long>(); break;
      case 6: v.mem = std::make_shared<double>(); break;
      default: v.mem = std::make_shared<float>();
    }
    v.addr = v.mem.get();
    assignTo(v);
  };
#define ON_TYPE(V, CALL)                                                         \
  switch((V).type)                                                               \
  {                                                                              \
    case 0: { const Matrix * q = static_cast<Matrix *>((V).mem.get()); CALL; break; }   \
    case 1: { const Vector * q = static_cast<Vector *>((V).mem.get()); CALL; break; }   \
    case 2: { const Matrix3 * q = static_cast<Matrix3 *>((V).mem.get()); CALL; break; } \
    case 3: { const Vector3 * q = static_cast<Vector3 *>((V).mem.get()); CALL; break; } \
    case 4: { const int * q = static_cast<int *>((V).mem.get()); CALL; break; }         \
    case 5: { const long * q = static_cast<long *>((V).mem.get()); CALL; break; }       \
    case 6: { const double * q = static_cast<double *>((V).mem.get()); CALL; break; }   \
    default: { const float * q = static_cast<float *>((V).mem.get()); CALL; }           \
  }
  size_t ops = 2 + g.u(20), ticks = 0;
  for(size_t o = 0; o < ops; ++o)
  {
    size_t op = vars.empty() ? 0 : g.u(9);
    switch(op)
    {
      case 0:
        if(vars.size() < 5)
        {
          Var v;
          v.type = int(g.u(7));
          allocate(v);
          if(!g.p(1, 4))
          {
            v.file = "pbt_c07_" + std::to_string(vars.size()) + ".log";
            std::remove((path + "/" + v.file).c_str());
          }
          v.tracked = true;
          bool byRef = g.b();
          g.note() << "record" << v.type << ' ';
          if(byRef) ON_TYPE(v, log.record(*q, v.file))
          else ON_TYPE(v, log.record(q, v.file))
          vars.push_back(v);
        }
        break;
      case 1:
      case 2:
      case 3:
        for(auto & v : vars)
          if(g.b()) assignTo(v);
        log.push();
        ++ticks;
        g.note() << "tick ";
        for(auto & v : vars)
          if(v.tracked) v.recs.push_back({v.next++, valueOf(v)});
        break;
      case 4:
      {
        Var & v = vars[g.u(vars.size() - 1)];
        if(!v.tracked) break;
        assignTo(v);
        g.note() << "push1 ";
        bool byRef = g.b();
        if(byRef) ON_TYPE(v, log.push(*q))
        else ON_TYPE(v, log.push(q))
        v.recs.push_back({v.next++, valueOf(v)});
        break;
      }
      case 5:
      {
        Var & v = vars[g.u(vars.size() - 1)];
        if(!v.tracked) break;
        const void * old = v.addr;
        std::shared_ptr<void> keep = v.mem;
        if(!g.p(1, 5)) allocate(v); // otherwise: same address again
        g.note() << "move ";
        ON_TYPE(v, log.updateAddress(old, q))
        break;
      }
      case 6:
      {
        bool clr = g.b(), app = g.b();
        log.save(clr, app);
        g.note() << "save" << clr << app << ' ';
        for(auto & v : vars)
        {
          if(v.file.empty()) continue;
          if(!v.tracked)
          { // its file is left alone
            if(v.saved) checkFile(path + "/" + v.file, v.onDisk);
            continue;
          }
          v.saved = true;
          if(!app) v.onDisk.clear();
          for(auto & r : v.recs) v.onDisk.push_back(r);
          if(clr) v.recs.clear();
          checkFile(path + "/" + v.file, v.onDisk);
        }
        break;
      }
      case 7:
        if(g.p(1, 2))
        {
          log.clearLogs();
          g.note() << "clearLogs ";
          for(auto & v : vars) v.recs.clear();
        }
        break;
      case 8:
        if(g.p(1, 5))
        {
          log.clearTracking();
          g.note() << "clearTracking ";
          for(auto & v : vars)
          {
            v.tracked = false, v.recs.clear();
            bool refused = false;
            try
            {
              log.getRecord(v.addr);
            }
            catch(...)
            {
              refused = true;
            }
            REQUIRE(refused, "a variable which is not tracked anymore has a log");
          }
          if(g.b())
          { // tracked again, from scratch
            Var & v = vars[g.u(vars.size() - 1)];
            ON_TYPE(v, log.record(q, v.file))
            v.tracked = true, v.next = 0;
            g.note() << "again ";
          }
        }
        break;
      case 9: // assigning a variable without a tick records nothing
        for(auto & v : vars) assignTo(v);
        break;
    }
    const tools::Logger & clog = log;
    for(auto & v : vars)
    {
      if(!v.tracked) continue;
      const IndexedMatrixArray & r = g.b() ? clog.getRecord(v.addr) : log.getRecord(v.addr);
      REQUIRE(r.size() == TimeSize(v.recs.size()), "log of a variable of type " << v.type << " has " << r.size()
                                                                               << " records instead of " << v.recs.size());
      REQUIRE(r.getNextIndex() == v.next, "next tick " << r.getNextIndex() << " instead of " << v.next);
      for(auto & e : v.recs)
        REQUIRE(Mat(r[e.k]).rows() == e.m.rows() && Mat(r[e.k]) == e.m, "record " << e.k << " of type " << v.type);
    }
  }
  if(vars.size() > 1 && ticks > 1) g.nontrivial();
}
