#include "pbt.hpp"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
static std::vector<Facet> & facets()
{
  static std::vector<Facet> f;
  return f;
}
void addFacet(const std::string & name, unsigned long quick, unsigned long thorough, const std::string & rule,
              std::function<void(Gen &)> f)
{
  facets().push_back(Facet{name, quick, thorough, rule, f});
}

static uint64_t mix(uint64_t & s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ---- shared memory with the parent
static const size_t MAXREC = 1u << 20;
struct Shared
{
  volatile int facet;
  volatile unsigned long index;
  volatile int failed; // 1: exception recorded
  char message[8192];
  volatile uint64_t nrec;
  uint64_t rec[MAXREC];
};
static Shared * child_ = nullptr; // set in one-case children: choices are streamed there

uint64_t Gen::choice(uint64_t maxInclusive)
{
  uint64_t v;
  if(replaying)
  {
    v = pos < prefix.size() ? prefix[pos] : 0;
    if(v > maxInclusive) v = maxInclusive;
  }
  else
  {
    uint64_t r = mix(state);
    v = maxInclusive == UINT64_MAX ? r : r % (maxInclusive + 1);
  }
  ++pos;
  rec.push_back(v);
  if(child_ && child_->nrec < MAXREC) child_->rec[child_->nrec++] = v;
  if(rec.size() > MAXREC) fail("case draws too many choices");
  return v;
}

static std::string scratch_;
std::string scratchDir()
{
  return scratch_;
}
static std::set<std::string> known_;
static std::map<std::string, unsigned long> knownSeen_;
bool knownFinding(const std::string & key)
{
  return known_.count(key) != 0;
}
void knownFindingSeen(const std::string & key)
{
  ++knownSeen_[key];
}

static std::string prop_;
static uint64_t seed_ = 1;
static bool thorough_ = false;

static uint64_t caseState(size_t facet, unsigned long index)
{
  uint64_t s = seed_ * 0x9e3779b97f4a7c15ull + 12345;
  std::string k = prop_ + "/" + facets()[facet].name;
  for(char c : k)
  {
    s ^= (unsigned char)c;
    mix(s);
  }
  s ^= mix(s) + index * 0xd1342543de82ef95ull;
  mix(s);
  return s;
}

static void armTimer(int seconds)
{
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
static const int HANG = 60; // CPU seconds; cases take milliseconds

static void runOne(size_t facet, Gen & g)
{
  g.thorough = thorough_;
  pbt::randomDeviceValue = 5489u;
  facets()[facet].f(g);
}

struct Outcome
{
  bool failed;
  std::string message;
  std::vector<uint64_t> rec;
};

static Shared * newShared()
{
  void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED)
  {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shared *>(p);
}

static std::string sigName(int status)
{
  if(WIFSIGNALED(status))
  {
    int s = WTERMSIG(status);
    if(s == SIGPROF) return "the case does not terminate (60 s of CPU time)";
    return std::string("the code crashed with signal ") + strsignal(s);
  }
  return "the code ended the process with status " + std::to_string(WEXITSTATUS(status));
}

/// run in a child the given function; true exit code protocol: 0 pass, 10 fail
static Outcome inChild(const std::function<void(Shared *)> & body, bool quiet)
{
  static Shared * sh = newShared();
  sh->failed = 0;
  sh->nrec = 0;
  sh->message[0] = 0;
  std::cout.flush();
  fflush(stdout);
  pid_t pid = fork();
  if(pid < 0)
  {
    perror("fork");
    exit(2);
  }
  if(pid == 0)
  {
    if(quiet)
    {
      if(!freopen("/dev/null", "w", stdout)) {}
      if(!freopen("/dev/null", "w", stderr)) {}
    }
    child_ = sh;
    armTimer(HANG);
    body(sh);
    _exit(sh->failed ? 10 : 0);
  }
  int status = 0;
  while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.rec.assign(sh->rec, sh->rec + sh->nrec);
  if(WIFEXITED(status) && WEXITSTATUS(status) == 0)
    o.failed = false;
  else if(WIFEXITED(status) && WEXITSTATUS(status) == 10)
  {
    o.failed = true;
    o.message = sh->message;
  }
  else
  {
    o.failed = true;
    o.message = sigName(status);
  }
  return o;
}

static void guarded(Shared * sh, size_t facet, Gen & g)
{
  std::string m;
  try
  {
    runOne(facet, g);
    return;
  }
  catch(const Failure & e)
  {
    m = e.what();
  }
  catch(const std::exception & e)
  {
    m = std::string("unexpected exception: ") + e.what();
  }
  catch(...)
  {
    m = "unexpected exception of unknown type";
  }
  sh->failed = 1;
  strncpy(sh->message, m.c_str(), sizeof(sh->message) - 1);
  sh->message[sizeof(sh->message) - 1] = 0;
}

static Outcome runChoices(size_t facet, const std::vector<uint64_t> & c)
{
  return inChild(
      [&](Shared * sh) {
        Gen g;
        g.replaying = true;
        g.prefix = c;
        guarded(sh, facet, g);
      },
      true);
}

static std::vector<uint64_t> shrink(size_t facet, std::vector<uint64_t> best, std::string & message)
{
  auto t0 = std::chrono::steady_clock::now();
  unsigned attempts = 0;
  auto budget = [&]() {
    return !getenv("VERIF_NOSHRINK") && attempts < 1500
           && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < 45;
  };
  auto attempt = [&](const std::vector<uint64_t> & c) {
    if(!budget()) return false;
    ++attempts;
    Outcome o = runChoices(facet, c);
    if(!o.failed) return false;
    // keep what was really read
    std::vector<uint64_t> r = o.rec;
    while(!r.empty() && r.back() == 0) r.pop_back();
    if(r.size() < best.size() || (r.size() == best.size() && r < best))
    {
      best = r;
      message = o.message;
      return true;
    }
    return false;
  };
  bool improved = true;
  while(improved && budget())
  {
    improved = false;
    // delete blocks
    for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && budget(); len /= 2)
    {
      for(size_t k = 0; k + len <= best.size() && budget();)
      {
        std::vector<uint64_t> c(best.begin(), best.begin() + long(k));
        c.insert(c.end(), best.begin() + long(k + len), best.end());
        if(attempt(c))
          improved = true;
        else
          k += len;
      }
      if(len == 1) break;
    }
    // zero blocks
    for(size_t len = std::max<size_t>(1, best.size() / 4); len >= 1 && budget(); len /= 2)
    {
      for(size_t k = 0; k + len <= best.size() && budget(); k += len)
      {
        std::vector<uint64_t> c = best;
        bool any = false;
        for(size_t j = k; j < k + len; ++j)
        {
          any = any || c[j];
          c[j] = 0;
        }
        if(any && attempt(c)) improved = true;
      }
      if(len == 1) break;
    }
    // lower single choices
    for(size_t k = 0; k < best.size() && budget(); ++k)
    {
      uint64_t lo = 0;
      while(k < best.size() && lo < best[k] && budget())
      {
        std::vector<uint64_t> c = best;
        uint64_t mid = lo + (best[k] - lo) / 2;
        c[k] = mid;
        if(attempt(c))
          improved = true;
        else
          lo = mid + 1;
      }
    }
  }
  return best;
}

static std::string jstr(const std::string & s)
{
  std::string o = "\"";
  char buf[8];
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\')
    {
      o += '\\';
      o += char(c);
    }
    else if(c < 32 || c > 126)
    {
      snprintf(buf, sizeof buf, "\\u%04x", c);
      o += buf;
    }
    else
      o += char(c);
  }
  return o + "\"";
}

struct WorkerStats
{
  std::vector<unsigned long> evals, nontriv;
  std::map<std::string, unsigned long> labels;
  std::vector<std::pair<size_t, std::string>> samples;
};

static unsigned long casesOf(const Facet & f, double scale)
{
  unsigned long n = thorough_ ? f.thorough : f.quick;
  n = (unsigned long)(double(n) * scale);
  return n < 1 ? 1 : n;
}

static const int ROUNDS = 50;

/// the deterministic order in which worker w visits its cases; stops when visit returns false
static void schedule(unsigned w, unsigned W, double scale, const std::vector<size_t> & sel,
                     const std::function<bool(size_t, unsigned long)> & visit)
{
  for(int r = 0; r < ROUNDS; ++r)
    for(size_t f : sel)
    {
      unsigned long n = casesOf(facets()[f], scale);
      unsigned long a = n * (unsigned long)r / ROUNDS, b = n * (unsigned long)(r + 1) / ROUNDS;
      for(unsigned long k = a; k < b; ++k)
        if(k % W == w && !visit(f, k)) return;
    }
}

static void worker(unsigned w, unsigned W, double scale, const std::vector<size_t> & sel, Shared * sh,
                   volatile int * stop, double deadline, const std::string & outfile)
{
  WorkerStats st;
  st.evals.assign(facets().size(), 0);
  st.nontriv.assign(facets().size(), 0);
  std::vector<std::pair<size_t, uint64_t>> hashes;
  auto t0 = std::chrono::steady_clock::now();
  bool timedOut = false;
  std::vector<unsigned> nsamples(facets().size(), 0);
  schedule(w, W, scale, sel, [&](size_t f, unsigned long k) {
    if(*stop) return false;
    if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline)
    {
      timedOut = true;
      return false;
    }
    sh->facet = int(f);
    sh->index = k;
    armTimer(HANG);
    Gen g;
    g.state = caseState(f, k);
    guarded(sh, f, g);
    if(sh->failed) return false;
    ++st.evals[f];
    if(g.nontrivial_)
    {
      uint64_t h = 1469598103934665603ull;
      for(uint64_t c : g.rec)
      {
        h ^= c;
        h *= 1099511628211ull;
        h ^= h >> 29;
      }
      hashes.push_back(std::make_pair(f, h));
      if(nsamples[f] < 2 && w == 0)
      {
        ++nsamples[f];
        std::ostringstream s;
        s << facets()[f].name << " #" << k << ": " << g.note_.str() << " [choices:";
        for(size_t j = 0; j < g.rec.size() && j < 12; ++j) s << " " << g.rec[j];
        if(g.rec.size() > 12) s << " ... (" << g.rec.size() << ")";
        s << "]";
        st.samples.push_back(std::make_pair(f, s.str()));
      }
    }
    for(const std::string & l : g.labels_) ++st.labels[facets()[f].name + ":" + l];
    return true;
  });
  armTimer(0);
  std::ofstream o(outfile);
  o << (timedOut ? 1 : 0) << "\n";
  for(size_t f = 0; f < facets().size(); ++f) o << st.evals[f] << "\n";
  o << hashes.size() << "\n";
  for(auto & h : hashes) o << h.first << " " << h.second << "\n";
  o << st.labels.size() << "\n";
  for(auto & l : st.labels) o << l.second << " " << l.first << "\n";
  o << st.samples.size() << "\n";
  for(auto & s : st.samples)
  {
    std::string t = s.second;
    for(char & c : t)
      if(c == '\n') c = ' ';
    o << s.first << " " << t << "\n";
  }
  o << knownSeen_.size() << "\n";
  for(auto & l : knownSeen_) o << l.second << " " << l.first << "\n";
  o.close();
  _exit(sh->failed ? 10 : 0);
}

static size_t facetByName(const std::string & n)
{
  for(size_t f = 0; f < facets().size(); ++f)
    if(facets()[f].name == n) return f;
  std::cerr << "no facet " << n << "\n";
  exit(2);
}

static int replay(const std::string & file)
{
  std::ifstream in(file);
  std::string line, mode, facet;
  unsigned w = 0, W = 1;
  double scale = 1;
  unsigned long index = 0;
  std::vector<uint64_t> c;
  while(std::getline(in, line))
  {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if(k == "mode") s >> mode;
    if(k == "facet") s >> facet;
    if(k == "seed") s >> seed_;
    if(k == "tier")
    {
      std::string t;
      s >> t;
      thorough_ = t == "thorough";
    }
    if(k == "worker") s >> w >> W >> scale >> index;
    if(k == "choices")
    {
      uint64_t v;
      while(s >> v) c.push_back(v);
    }
  }
  if(facet.empty())
  {
    std::cerr << "cannot read replay file " << file << "\n";
    return 2;
  }
  size_t f = facetByName(facet);
  Outcome o;
  if(mode == "history")
  {
    std::vector<size_t> sel;
    for(size_t k = 0; k < facets().size(); ++k) sel.push_back(k);
    o = inChild(
        [&](Shared * sh) {
          schedule(w, W, scale, sel, [&](size_t ff, unsigned long k) {
            sh->nrec = 0;
            armTimer(HANG);
            Gen g;
            g.state = caseState(ff, k);
            guarded(sh, ff, g);
            return !sh->failed && !(ff == f && k == index);
          });
        },
        false);
  }
  else
    o = inChild(
        [&](Shared * sh) {
          Gen g;
          g.replaying = true;
          g.prefix = c;
          guarded(sh, f, g);
          std::cout << "case: " << g.note_.str() << "\n";
          std::cout.flush();
        },
        false);
  if(o.failed)
  {
    std::cout << "replay fails: facet " << facet << ": " << o.message << "\n";
    std::cout << "VIOLATION property=" << prop_ << " replay=" << file << "\n";
    return 1;
  }
  std::cout << "replay passes\n";
  return 0;
}

static int mainImpl(int argc, char ** argv)
{
  std::string out, replayDir = ".", replayFile, only, knownFile, assume;
  unsigned W = 8;
  double scale = 1, deadline = 0;
  for(int k = 1; k < argc; ++k)
  {
    std::string a = argv[k];
    auto next = [&]() {
      if(k + 1 >= argc) exit(2);
      return std::string(argv[++k]);
    };
    if(a == "--prop") prop_ = next();
    else if(a == "--seed") seed_ = strtoull(next().c_str(), nullptr, 10);
    else if(a == "--tier") thorough_ = next() == "thorough";
    else if(a == "--out") out = next();
    else if(a == "--replays") replayDir = next();
    else if(a == "--replay") replayFile = next();
    else if(a == "--workers") W = unsigned(atoi(next().c_str()));
    else if(a == "--scale") scale = atof(next().c_str());
    else if(a == "--facet") only = next();
    else if(a == "--deadline") deadline = atof(next().c_str());
    else if(a == "--scratch") scratch_ = next();
    else if(a == "--known") knownFile = next();
    else
    {
      std::cerr << "unknown option " << a << "\n";
      return 2;
    }
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if(scratch_.empty()) scratch_ = "/tmp";
  std::map<std::string, std::string> knownText;
  if(!knownFile.empty())
  {
    // lines: known: property=<ID> key=<key> <description>
    std::ifstream in(knownFile);
    std::string line;
    while(std::getline(in, line))
    {
      std::string pre = "known: property=" + prop_ + " key=";
      if(line.compare(0, pre.size(), pre) == 0)
      {
        std::string rest = line.substr(pre.size());
        std::string key = rest.substr(0, rest.find(' '));
        known_.insert(key);
        knownText[key] = rest.size() > key.size() ? rest.substr(key.size() + 1) : "";
      }
    }
  }
  if(!replayFile.empty()) return replay(replayFile);
  if(deadline <= 0) deadline = thorough_ ? 600 : 240;
  std::vector<size_t> sel;
  for(size_t f = 0; f < facets().size(); ++f)
    if(only.empty() || facets()[f].name == only) sel.push_back(f);
  if(sel.empty())
  {
    std::cerr << "no facet selected\n";
    return 2;
  }
  auto t0 = std::chrono::steady_clock::now();
  volatile int * stop =
      static_cast<volatile int *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *stop = 0;
  std::vector<Shared *> sh(W);
  std::vector<pid_t> pid(W);
  std::cout.flush();
  std::string base = scratch_;
  for(unsigned w = 0; w < W; ++w)
  {
    sh[w] = newShared();
    sh[w]->facet = -1;
    sh[w]->failed = 0;
    pid[w] = fork();
    if(pid[w] < 0)
    {
      perror("fork");
      return 2;
    }
    if(pid[w] == 0)
    {
      scratch_ = base + "/w" + std::to_string(w);
      mkdir(scratch_.c_str(), 0700);
      if(!freopen("/dev/null", "w", stdout)) {}
      if(!getenv("PBT_STDERR") && !freopen("/dev/null", "w", stderr)) {}
      worker(w, W, scale, sel, sh[w], stop, deadline, base + "/stats" + std::to_string(w));
      _exit(3);
    }
  }
  scratch_ = base + "/main";
  mkdir(scratch_.c_str(), 0700);
  int bestW = -1;
  std::vector<int> status(W, 0);
  for(unsigned done = 0; done < W; ++done)
  {
    int st;
    pid_t p;
    while((p = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
    for(unsigned w = 0; w < W; ++w)
      if(pid[w] == p)
      {
        status[w] = st;
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
          *stop = 1;
          if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
          {
            std::cerr << "worker killed (out of memory?)\n";
            return 2;
          }
          if(bestW < 0 || sh[w]->index < sh[unsigned(bestW)]->index) bestW = int(w);
        }
      }
  }
  // ---- merge statistics
  bool timedOut = false;
  std::vector<unsigned long> evals(facets().size(), 0);
  std::set<std::pair<size_t, uint64_t>> distinct;
  std::map<std::string, unsigned long> labels, seen;
  std::vector<std::string> samples;
  for(unsigned w = 0; w < W; ++w)
  {
    std::ifstream in(base + "/stats" + std::to_string(w));
    if(!in) continue;
    int t;
    in >> t;
    timedOut = timedOut || t;
    for(size_t f = 0; f < facets().size(); ++f)
    {
      unsigned long e = 0;
      in >> e;
      evals[f] += e;
    }
    size_t n = 0;
    in >> n;
    for(size_t k = 0; k < n; ++k)
    {
      size_t f;
      uint64_t h;
      in >> f >> h;
      distinct.insert(std::make_pair(f, h));
    }
    n = 0;
    in >> n;
    std::string line;
    for(size_t k = 0; k < n; ++k)
    {
      unsigned long c;
      in >> c;
      in.get();
      std::getline(in, line);
      labels[line] += c;
    }
    n = 0;
    in >> n;
    for(size_t k = 0; k < n; ++k)
    {
      size_t f;
      in >> f;
      in.get();
      std::getline(in, line);
      samples.push_back(line);
    }
    n = 0;
    in >> n;
    for(size_t k = 0; k < n; ++k)
    {
      unsigned long c;
      in >> c;
      in.get();
      std::getline(in, line);
      seen[line] += c;
    }
  }
  std::vector<unsigned long> nt(facets().size(), 0);
  for(auto & d : distinct) ++nt[d.first];

  int rc = 0;
  std::string violation, replayPath;
  if(bestW >= 0)
  {
    Shared * s = sh[unsigned(bestW)];
    if(s->facet < 0)
    {
      std::cerr << "worker ended before its first case: " << sigName(status[unsigned(bestW)]) << "\n";
      return 2;
    }
    size_t f = size_t(s->facet);
    unsigned long index = s->index;
    std::string wmsg = s->failed ? s->message : sigName(status[unsigned(bestW)]);
    std::cout << "case " << index << " of facet " << facets()[f].name << " failed: " << wmsg << "\n";
    // isolated reproduction, 3 times
    auto again = [&]() {
      return inChild(
          [&](Shared * c) {
            Gen g;
            g.state = caseState(f, index);
            guarded(c, f, g);
          },
          true);
    };
    Outcome o;
    int n = 0;
    for(int k = 0; k < 3; ++k)
    {
      o = again();
      n += o.failed;
    }
    mkdir(replayDir.c_str(), 0755);
    replayPath = replayDir + "/" + prop_ + "-" + facets()[f].name + ".replay";
    std::string message = o.message;
    bool confirmed = false;
    if(n == 3)
    {
      std::vector<uint64_t> c = shrink(f, o.rec, message);
      int m = 0;
      for(int k = 0; k < 3; ++k)
      {
        Outcome q = runChoices(f, c);
        m += q.failed;
        if(q.failed) message = q.message;
      }
      if(m < 3)
      {
        c = o.rec;
        message = o.message;
      }
      std::ofstream r(replayPath);
      r << "property " << prop_ << "\nmode choices\nfacet " << facets()[f].name << "\nseed " << seed_ << "\ntier "
        << (thorough_ ? "thorough" : "quick") << "\nchoices";
      for(uint64_t v : c) r << " " << v;
      r << "\n# " << message << "\n";
      confirmed = true;
    }
    else
    {
      // depends on earlier cases of the same process (static state): replay the worker's history
      int m = 0;
      for(int k = 0; k < 2; ++k)
      {
        Outcome q = inChild(
            [&](Shared * c) {
              schedule(unsigned(bestW), W, scale, sel, [&](size_t ff, unsigned long kk) {
                c->nrec = 0;
                armTimer(HANG);
                Gen g;
                g.state = caseState(ff, kk);
                guarded(c, ff, g);
                return !c->failed && !(ff == f && kk == index);
              });
            },
            true);
        m += q.failed;
        if(q.failed) message = q.message;
      }
      if(m == 2)
      {
        std::ofstream r(replayPath);
        r << "property " << prop_ << "\nmode history\nfacet " << facets()[f].name << "\nseed " << seed_ << "\ntier "
          << (thorough_ ? "thorough" : "quick") << "\nworker " << bestW << " " << W << " " << scale << " " << index
          << "\n# " << message << "\n";
        confirmed = true;
      }
    }
    if(confirmed)
    {
      rc = 1;
      violation = message;
    }
    else
    {
      std::cout << "the failure is not reproducible (" << n << "/3 alone): no violation reported\n";
      std::cerr << "IRREPRODUCIBLE failure: " << wmsg << "\n";
      return 2;
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  unsigned long total = 0, totalNt = 0;
  for(size_t f = 0; f < facets().size(); ++f)
  {
    total += evals[f];
    totalNt += nt[f];
  }
  if(rc == 0)
    for(auto & k : knownText)
    {
      if(seen.count(k.first))
        std::cout << "KNOWN-FINDING: property=" << prop_ << " " << k.second << "\n";
    }
  if(!out.empty())
  {
    std::ofstream o(out);
    o << "{\n \"property\": " << jstr(prop_) << ",\n \"tier\": \"" << (thorough_ ? "thorough" : "quick")
      << "\",\n \"seed\": " << seed_ << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << total
      << ",\n  \"distinct_nontrivial\": " << totalNt
      << ",\n  \"rule\": "
      << jstr("Each case is generated from a recorded choice sequence seeded by (seed, property, facet, number). A case "
              "counts when it is distinct (hash of its choices) and non-trivial by its facet's rule, listed under facets.")
      << ",\n  \"facets\": {";
    bool first = true;
    for(size_t f : sel)
    {
      o << (first ? "\n" : ",\n") << "   " << jstr(facets()[f].name) << ": {\"evaluations\": " << evals[f]
        << ", \"distinct_nontrivial\": " << nt[f] << ", \"nontrivial_rule\": " << jstr(facets()[f].rule) << "}";
      first = false;
    }
    o << "\n  },\n  \"labels\": {";
    first = true;
    for(auto & l : labels)
    {
      o << (first ? "\n" : ",\n") << "   " << jstr(l.first) << ": " << l.second;
      first = false;
    }
    o << "\n  },\n  \"samples\": [";
    first = true;
    for(auto & s : samples)
    {
      o << (first ? "\n" : ",\n") << "   " << jstr(s.substr(0, 600));
      first = false;
    }
    o << "\n  ],\n  \"exhaustive\": false,\n  \"stopped_by_time_budget\": " << (timedOut ? "true" : "false")
      << "\n },\n \"assumptions\": [" << jstr("floating-point results are compared with the tolerances written in the harness")
      << ", " << jstr("the library is compiled with the flags of run.py (assertions enabled)") << "],\n \"wall_s\": " << wall
      << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
  }
  for(size_t f : sel)
    std::cout << "  " << facets()[f].name << ": " << evals[f] << " cases, " << nt[f] << " distinct non-trivial\n";
  if(getenv("PBT_LABELS"))
    for(auto & l : labels) std::cout << "    " << l.first << " " << l.second << "\n";
  std::cout << prop_ << ": " << total << " cases, " << totalNt << " distinct non-trivial, " << wall << " s"
            << (timedOut ? " (stopped by time budget)" : "") << "\n";
  if(rc)
  {
    std::cout << "shrunk failure: " << violation << "\n";
    std::cout << "VIOLATION property=" << prop_ << " replay=" << replayPath << "\n";
  }
  std::cout.flush();
  return rc;
}
} // namespace pbt

int main(int argc, char ** argv)
{
  return pbt::mainImpl(argc, argv);
}
