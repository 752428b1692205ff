// Shared generators and plain-array models.
#ifndef OXV_GEN_H
#define OXV_GEN_H
#include "oxv.h"
#include <AxisCollection.h>
#include <BinAxis.h>
#include <BinnedED.h>
#include <Event.h>
#include <Exceptions.h>
#include <Histogram.h>
#include <ObsSet.h>
#include <OXSXDataSet.h>
#include <algorithm>
#include <numeric>

namespace oxv
{

// increasing edges; "nice" ones half of the time so that values land exactly on edges
inline std::vector<double> genEdges(Rng &r, int nbins)
{
  std::vector<double> e;
  double x = r.coin() ? double(r.ri(-5, 5)) : r.uni(-5, 5);
  int kind = int(r.ri(0, 3));
  double w = kind == 0 ? 1.0 : kind == 1 ? 0.5 : r.uni(0.05, 3);
  for (int i = 0; i <= nbins; ++i)
  {
    e.push_back(x);
    if (kind == 2)
      x += r.uni(0.05, 3);
    else if (kind == 3)
      x += 0.25 * r.ri(1, 8);
    else
      x += w;
  }
  return e;
}

inline BinAxis axisFromEdges(const std::string &n, const std::vector<double> &e, const std::string &latex = "")
{
  return BinAxis(n, std::vector<double>(e.begin(), e.end() - 1), std::vector<double>(e.begin() + 1, e.end()), latex);
}

// now and then the axis is in units that make its numbers large or small
inline double units(Rng &r) { return r.coin(0.05) ? std::pow(10, r.uni(-7, 7)) : 1; }

inline BinAxis genAxis(Rng &r, const std::string &name, int nbins)
{
  if (r.coin(0.4))
  {
    double lo = r.coin() ? double(r.ri(-5, 5)) : r.uni(-5, 5);
    double hi = lo + (r.coin() ? double(r.ri(1, 10)) : r.uni(0.1, 10));
    double u = units(r);
    return BinAxis(name, lo * u, hi * u, nbins);
  }
  std::vector<double> e = genEdges(r, nbins);
  double u = units(r);
  for (auto &x : e)
    x *= u;
  return axisFromEdges(name, e);
}

// axis edges as the axis itself reports them
inline std::vector<double> edges(const BinAxis &a)
{
  std::vector<double> e = a.GetBinLowEdges();
  e.push_back(a.GetBinHighEdges().back());
  return e;
}

inline AxisCollection genAxes(Rng &r, const std::vector<std::string> &names, int maxBinsTotal = 200, int minBins = 1)
{
  AxisCollection ac;
  int left = maxBinsTotal;
  for (size_t d = 0; d < names.size(); ++d)
  {
    int cap = std::max<int>(minBins, std::min<int>(names.size() == 1 ? 40 : 9, std::max(1, left)));
    int n = int(r.ri(minBins, cap));
    left = std::max(1, left / n);
    ac.AddAxis(genAxis(r, names[d], n));
  }
  return ac;
}

inline std::vector<std::string> genNames(Rng &r, int n, const std::string &prefix = "")
{
  static const std::vector<std::string> pool = {"energy", "radius", "x", "y", "z", "t", "psd", "e2", "nhit", "itr", "E", "ener"};
  // sometimes names that run into one another when put side by side, or contain one another
  static const std::vector<std::string> runs = {"a", "ab", "b", "bc", "c", "aa", "aaa", "ba", "abc", "a_b", "a_", "_b", "a,b", "bb"};
  std::vector<std::string> p = r.coin(0.08) ? runs : pool, o;
  while (int(p.size()) < n)
    p.push_back(cat("v", p.size()));
  r.shuffle(p);
  // sometimes long names that differ only at their ends (or only at their starts)
  std::string before, after;
  if (r.coin(0.1))
    (r.coin() ? before : after) = r.coin() ? "reconstructed_prompt_position_of_the_best_fit_vertex_" : "detector_a.module_1.";
  for (int i = 0; i < n; ++i)
    o.push_back(prefix + before + p.at(i) + after);
  return o;
}

struct Dims
{
  std::vector<size_t> n;
  size_t total() const
  {
    size_t t = n.empty() ? 0 : 1;
    for (auto x : n)
      t *= x;
    return t;
  }
  std::vector<size_t> unpack(size_t i) const
  {
    std::vector<size_t> o(n.size());
    for (size_t d = n.size(); d-- > 0;)
    {
      o[d] = i % n[d];
      i /= n[d];
    }
    return o;
  }
  size_t flat(const std::vector<size_t> &v) const
  {
    size_t i = 0;
    for (size_t d = 0; d < n.size(); ++d)
      i = i * n[d] + v[d];
    return i;
  }
};
inline Dims dims(const AxisCollection &a)
{
  Dims d;
  for (size_t i = 0; i < a.GetNDimensions(); ++i)
    d.n.push_back(a.GetAxis(i).GetNBins());
  return d;
}

// The bin a value belongs to, from the edges alone.
inline size_t modelFind(const std::vector<double> &e, double v)
{
  size_t n = e.size() - 1;
  for (size_t i = 0; i < n; ++i)
    if (v < e[i + 1])
      return i;
  return n - 1;
}
inline size_t modelFind(const AxisCollection &a, const std::vector<double> &v)
{
  Dims d = dims(a);
  std::vector<size_t> ix;
  for (size_t i = 0; i < v.size(); ++i)
    ix.push_back(modelFind(edges(a.GetAxis(i)), v[i]));
  return d.flat(ix);
}

// a value that often sits on an edge, just beside one, or outside the range
inline double probeValue(Rng &r, const std::vector<double> &e)
{
  double lo = e.front(), hi = e.back();
  switch (r.ri(0, 6))
  {
  case 0:
    return r.pick(e);
  case 1:
    return std::nextafter(r.pick(e), 1e9);
  case 2:
    return std::nextafter(r.pick(e), -1e9);
  case 3:
    return lo - r.uni(0, 3) * (hi - lo);
  case 4:
    return hi + r.uni(0, 3) * (hi - lo);
  default:
    return r.uni(lo, hi);
  }
}
inline double insideValue(Rng &r, const std::vector<double> &e) { return r.uni(e.front(), e.back()); }

inline std::vector<double> genContents(Rng &r, size_t n, bool positive = false)
{
  std::vector<double> c(n);
  int kind = int(r.ri(0, 3));
  for (auto &x : c)
    x = kind == 0   ? double(r.ri(positive ? 1 : 0, 9))
        : kind == 1 ? r.uni(positive ? 0.1 : 0, 10)
        : kind == 2 ? (positive ? 0.01 : 0) + (r.coin(0.3) ? 0 : r.uni(0, 1e4))
                    : r.uni(0.5, 1.5);
  if (!positive && r.coin(0.15)) // next to nothing in some bins
    for (auto &x : c)
      if (r.coin(0.3))
        x = std::pow(10, r.uni(-30, -10));
  if (r.coin(0.05)) // large or small throughout
  {
    double u = std::pow(10, r.uni(-10, 10));
    for (auto &x : c)
      x *= u;
  }
  return c;
}

inline Histogram genHist(Rng &r, const AxisCollection &ac, bool positive = false)
{
  Histogram h(ac);
  h.SetBinContents(genContents(r, ac.GetNBins(), positive));
  return h;
}

// a snapshot that must not change: used to show that operands are left alone
struct HistSnap
{
  std::vector<double> c;
  AxisCollection a;
  std::vector<std::string> n;
  explicit HistSnap(const Histogram &h) : c(h.GetBinContents()), a(h.GetAxes()), n(h.GetAxisNames()) {}
  void same(const Histogram &h, const std::string &key, const std::string &what) const
  {
    check(h.GetBinContents() == c && h.GetAxes() == a && h.GetAxisNames() == n && h.GetNBins() == c.size(), key, what,
          " was modified");
  }
};

inline Event makeEvent(const std::vector<double> &d, const std::vector<std::string> *names)
{
  Event e(d);
  e.SetObservableNames(names);
  return e;
}

// position of a in v
template <class T>
size_t pos(const std::vector<T> &v, const T &a) { return std::find(v.begin(), v.end(), a) - v.begin(); }

template <class T>
std::vector<T> subset(Rng &r, std::vector<T> v, size_t k)
{
  r.shuffle(v);
  v.resize(k);
  return v;
}
} // namespace oxv
#endif
