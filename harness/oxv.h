// Runtime-monitoring harness support: seeded case generator, oracle checks, event counters,
// per-case journal and watchdog. One executable per property links oxv_main.cc.
#ifndef OXV_H
#define OXV_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace oxv
{

inline uint64_t mix(uint64_t z)
{
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(mix(x)) {}
  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    return mix(s);
  }
  double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  long ri(long a, long b) { return a + long(next() % uint64_t(b - a + 1)); } // inclusive
  // usually a few, now and then many
  long few(long a, long b, long most, double p = 0.04) { return coin(p) ? ri(b, most) : ri(a, b); }
  bool coin(double p = 0.5) { return uni() < p; }
  double gaus()
  {
    double u = uni() + 1e-18, v = uni();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v.at(next() % v.size()); }
  template <class T>
  void shuffle(std::vector<T> &v)
  {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[next() % i]);
  }
  // A value that likes the special ones.
  double value(double a, double b)
  {
    if (coin(0.08))
      return 0;
    if (coin(0.08))
      return coin() ? a : b;
    if (coin(0.15))
      return double(ri(long(std::ceil(a)), std::max(long(std::ceil(a)), long(std::floor(b)))));
    return uni(a, b);
  }
};

struct Violation
{
  std::string key, msg;
};

struct Stats
{
  uint64_t cases = 0, checks = 0;
  std::map<std::string, uint64_t> counts;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
};
Stats &stats();

struct Case
{
  Rng r;
  std::string scenario;
  uint64_t index = 0;
  bool thorough = false;
  std::vector<std::string> trace;
  void log(const std::string &s)
  {
    if (trace.size() < 400)
      trace.push_back(s);
  }
  void count(const std::string &k, uint64_t n = 1) { stats().counts[k] += n; }
  // Something whose distinct values show the diversity of what was observed.
  void sig(uint64_t h) { stats().sigs.insert(mix(h)); }
  void sig(const std::string &s) { stats().sigs.insert(std::hash<std::string>()(s)); }
};
Case *&current();

struct Log
{
  std::ostringstream o;
  Log() { o.precision(17); }
  ~Log() { current()->log(o.str()); }
};
#define LOG oxv::Log().o

template <class... A>
std::string cat(const A &...a)
{
  std::ostringstream o;
  o.precision(17);
  (void)std::initializer_list<int>{(o << a, 0)...};
  return o.str();
}

inline void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }

template <class... A>
void check(bool ok, const std::string &key, const A &...a)
{
  ++stats().checks;
  if (!ok)
    fail(key, cat(a...));
}

inline bool close(double a, double b, double rel = 1e-9, double scale = 0)
{
  if (a == b)
    return true;
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b))
    return false;
  double m = std::max(std::max(std::fabs(a), std::fabs(b)), std::fabs(scale));
  return std::fabs(a - b) <= rel * m + 1e-300;
}

// got agrees with want to rel * max(|got|, |want|, scale)
template <class... A>
void near(double got, double want, const std::string &key, double rel, double scale, const A &...a)
{
  ++stats().checks;
  if (!close(got, want, rel, scale))
    fail(key, cat("got ", got, " want ", want, " ", a...));
}

template <class... A>
void nearv(const std::vector<double> &got, const std::vector<double> &want, const std::string &key, double rel,
           double scale, const A &...a)
{
  ++stats().checks;
  if (got.size() != want.size())
    fail(key, cat("got ", got.size(), " values, want ", want.size(), " ", a...));
  for (size_t i = 0; i < got.size(); ++i)
    if (!close(got[i], want[i], rel, scale))
      fail(key, cat("element ", i, ": got ", got[i], " want ", want[i], " ", a...));
}

template <class T>
std::string str(const std::vector<T> &v)
{
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); ++i)
    o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}
template <class T>
std::string str(const std::set<T> &v) { return str(std::vector<T>(v.begin(), v.end())); }

size_t allocatedBytes(); // live heap bytes according to the sanitizer allocator

struct Scenario
{
  std::string name;
  int weight; // 0: directed, run exactly once
  std::function<void(Case &)> fn;
};
std::vector<Scenario> &scenarios();
struct Reg
{
  Reg(const char *n, int w, std::function<void(Case &)> f) { scenarios().push_back(Scenario{n, w, f}); }
};
struct Plan
{
  std::string property, rule;
  uint64_t quick, thorough;
};
Plan &plan();
struct RegPlan
{
  RegPlan(const char *p, uint64_t q, uint64_t t, const char *rule) { plan() = Plan{p, rule, q, t}; }
};
// what a call prints
template <class F>
inline std::string printed(F f)
{
  std::ostringstream o;
  std::streambuf *old = std::cout.rdbuf(o.rdbuf());
  try
  {
    f();
  }
  catch (...)
  {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  return o.str();
}
} // namespace oxv

#define PLAN(p, q, t, rule) static oxv::RegPlan oxv_plan(p, q, t, rule);
#define SCENARIO(name, weight)                              \
  static void oxv_##name(oxv::Case &c);                     \
  static oxv::Reg oxv_reg_##name(#name, weight, oxv_##name); \
  static void oxv_##name(oxv::Case &c)
#define DIRECTED(name) SCENARIO(name, 0)

// The request must be refused with one of the library's own exceptions.
#define REFUSED_LIB(key, ...)                                                                         \
  REFUSED(key, try { __VA_ARGS__; } catch (const std::out_of_range &) { oxv::fail(key, "not a library error: " #__VA_ARGS__); })

// The request must be refused with one of the library's own exceptions, or std::out_of_range.
#define REFUSED(key, ...)                                                                             \
  do                                                                                                  \
  {                                                                                                   \
    ++oxv::stats().checks;                                                                            \
    bool oxv_refused = false;                                                                         \
    try                                                                                               \
    {                                                                                                 \
      __VA_ARGS__;                                                                                    \
    }                                                                                                 \
    catch (const OXSXException &)                                                                     \
    {                                                                                                 \
      oxv_refused = true;                                                                             \
    }                                                                                                 \
    catch (const std::out_of_range &)                                                                 \
    {                                                                                                 \
      oxv_refused = true;                                                                             \
    }                                                                                                 \
    catch (const std::exception &e)                                                                   \
    {                                                                                                 \
      oxv::fail(key, std::string("refused with a foreign exception: ") + e.what() + " in " #__VA_ARGS__); \
    }                                                                                                 \
    if (!oxv_refused)                                                                                 \
      oxv::fail(key, "accepted, should have been refused: " #__VA_ARGS__);                            \
    oxv::stats().counts["refusals"] += 1;                                                             \
  } while (0)

#endif
