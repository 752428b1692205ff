// P03: projections and slices keep exactly the right bins.
#include "gen.h"
#include "oxv.h"
#include <HistTools.h>
using namespace oxv;
PLAN("P03", 30000, 750000,
     "Random 1-5 dimensional histograms and binned distributions with all-different contents; every projection onto a "
     "random ordered subset of axes, projection of a projection, slice at random fixed bins, the full set of 1-D slices "
     "and the visualisable projections are compared bin by bin with index arithmetic on the source contents. Distinct = "
     "shape and axis selection.")

static Histogram wrap(const Histogram &h, bool) { return h; }

template <class T>
static const Histogram &hist(const T &t);
template <>
const Histogram &hist<Histogram>(const Histogram &t) { return t; }
template <>
const Histogram &hist<BinnedED>(const BinnedED &t) { return t.GetHistogram(); }

static void checkAxes(const Histogram &p, const AxisCollection &src, const std::vector<std::string> &want, const std::string &key)
{
  check(p.GetNDims() == want.size() && p.GetAxisNames() == want, key, "axes ", str(p.GetAxisNames()), " want ", str(want));
  for (auto &n : want)
    check(p.GetAxes().GetAxis(n) == src.GetAxis(n) && p.GetAxes().GetAxis(n).GetName() == n &&
              p.GetAxes().GetAxis(n).GetLatexName() == src.GetAxis(n).GetLatexName(),
          key, "axis ", n, " changed");
}

static std::vector<double> modelProject(const Histogram &h, const std::vector<size_t> &idx)
{
  Dims d = dims(h.GetAxes()), nd;
  for (size_t i : idx)
    nd.n.push_back(d.n[i]);
  std::vector<double> c = h.GetBinContents(), o(nd.total(), 0.0);
  for (size_t b = 0; b < c.size(); ++b)
  {
    std::vector<size_t> x = d.unpack(b), y;
    for (size_t i : idx)
      y.push_back(x[i]);
    o[nd.flat(y)] += c[b];
  }
  return o;
}

static std::vector<double> modelSlice(const Histogram &h, const std::map<size_t, size_t> &fixed)
{
  Dims d = dims(h.GetAxes());
  std::vector<double> c = h.GetBinContents(), o;
  for (size_t b = 0; b < c.size(); ++b) // row-major order of the free axes is the order of b
  {
    std::vector<size_t> x = d.unpack(b);
    bool ok = true;
    for (auto &f : fixed)
      ok = ok && x[f.first] == f.second;
    if (ok)
      o.push_back(c[b]);
  }
  return o;
}

static void observables(Case &, const Histogram &, const std::vector<std::string> &) {}
static void observables(Case &, const BinnedED &e, const std::vector<std::string> &want)
{
  check(e.GetObservables() == want, "observables", str(e.GetObservables()), " want ", str(want));
}

static void nonEmptyName(const Histogram &) {}
static void nonEmptyName(const BinnedED &e) { check(e.GetName().find("src") == 0, "derived name", e.GetName()); }

template <class T>
static void run(Case &c, const T &src)
{
  const Histogram &h = hist(src);
  HistSnap snap(h);
  std::vector<std::string> names = h.GetAxisNames();
  size_t nd = names.size();
  double tot = h.Integral(), scale = 0;
  for (double x : h.GetBinContents())
    scale += std::fabs(x);
  Dims dm = dims(h.GetAxes());
  for (int k = 0; k < 4; ++k)
  {
    size_t m = c.r.ri(1, nd);
    std::vector<std::string> sub = subset(c.r, names, m);
    std::vector<size_t> idx;
    for (auto &n : sub)
      idx.push_back(pos(names, n));
    T p = src.Marginalise(sub);
    LOG << "project " << str(sub);
    checkAxes(hist(p), h.GetAxes(), sub, "projection axes");
    observables(c, p, sub);
    nonEmptyName(p);
    nearv(p.GetBinContents(), modelProject(h, idx), "projection", 1e-11, scale, "onto ", str(sub));
    near(p.Integral(), tot, "projection total", 1e-11, scale, "");
    if (m == 1)
    {
      T q = src.Marginalise(sub[0]);
      check(q.GetBinContents() == p.GetBinContents(), "single name projection", "");
      observables(c, q, sub);
    }
    // projecting again agrees with projecting directly
    size_t m2 = c.r.ri(1, m);
    std::vector<std::string> sub2 = subset(c.r, sub, m2);
    T p2 = p.Marginalise(sub2), direct = src.Marginalise(sub2);
    nearv(p2.GetBinContents(), direct.GetBinContents(), "repeated projection", 1e-11, scale, str(sub), " then ", str(sub2));
    observables(c, p2, sub2);
    c.sig(cat(str(dm.n), str(idx)));
    c.count("projections");
  }
  for (int k = 0; k < 4; ++k)
  {
    if (nd == 1 && k)
      break;
    size_t m = nd == 1 ? 0 : c.r.ri(k ? 1 : 0, nd - 1);
    std::vector<std::string> sub = subset(c.r, names, m);
    std::map<std::string, size_t> fixed;
    std::map<size_t, size_t> fi;
    for (auto &n : sub)
    {
      size_t i = pos(names, n), b = c.r.ri(0, dm.n[i] - 1);
      fixed[n] = b;
      fi[i] = b;
    }
    std::vector<std::string> freeNames;
    for (auto &n : names)
      if (!fixed.count(n))
        freeNames.push_back(n);
    LOG << "slice at " << str(sub);
    T s = src.GetSlice(fixed);
    checkAxes(hist(s), h.GetAxes(), freeNames, "slice axes");
    observables(c, s, freeNames);
    nonEmptyName(s);
    nearv(s.GetBinContents(), modelSlice(h, fi), "slice", 0, 0, "at ", str(sub), " shape ", str(dm.n));
    c.sig(cat("s", str(dm.n), str(sub)));
    c.count("slices");
    c.count(cat("slices with ", nd - m, " free axes"));
  }
  // all one-dimensional slices along one axis: every source bin exactly once
  std::string along = c.r.pick(names);
  std::vector<T> sl = HistTools::Get1DSlices(src, along);
  size_t na = dm.n[pos(names, along)];
  check(sl.size() * na == h.GetNBins(), "1D slices", "number ", sl.size());
  std::multiset<double> all, want;
  for (auto &s : sl)
  {
    checkAxes(hist(s), h.GetAxes(), {along}, "1D slice axes");
    for (double x : s.GetBinContents())
      all.insert(x);
  }
  for (double x : h.GetBinContents())
    want.insert(x);
  check(all == want, "1D slices", "contents are not the source contents once each");
  // each is a genuine slice
  std::set<std::vector<double>> genuine;
  for (size_t b = 0; b < h.GetNBins(); ++b)
  {
    std::vector<size_t> x = dm.unpack(b);
    std::map<size_t, size_t> fi;
    for (size_t i = 0; i < nd; ++i)
      if (names[i] != along)
        fi[i] = x[i];
    if (x[pos(names, along)] == 0)
      genuine.insert(modelSlice(h, fi));
  }
  for (auto &s : sl)
    check(genuine.count(s.GetBinContents()), "1D slices", "not a slice of the source");
  // visualisable projections: all 1D, and for three or more dimensions every pair once
  std::vector<T> vis = HistTools::GetVisualisableProjections(src);
  std::set<std::set<std::string>> got, wantSets;
  for (auto &n : names)
    wantSets.insert({n});
  if (nd > 2)
    for (size_t i = 0; i < nd; ++i)
      for (size_t j = 0; j < i; ++j)
        wantSets.insert({names[i], names[j]});
  for (auto &v : vis)
  {
    std::vector<std::string> n = hist(v).GetAxisNames();
    check(got.insert(std::set<std::string>(n.begin(), n.end())).second, "visualisable", "repeated ", str(n));
    std::vector<size_t> idx;
    for (auto &x : n)
      idx.push_back(pos(names, x));
    nearv(v.GetBinContents(), modelProject(h, idx), "visualisable contents", 1e-11, scale, str(n));
  }
  check(got == wantSets && vis.size() == wantSets.size(), "visualisable", "set of projections");
  snap.same(h, "source", "source");
}

static AxisCollection shape(Case &c, std::vector<std::string> &names)
{
  int nd = int(c.r.few(1, 5, 8, 0.02));
  names = genNames(c.r, nd);
  AxisCollection ac;
  for (int d = 0; d < nd; ++d)
    ac.AddAxis(genAxis(c.r, names[d], int(c.r.ri(1, nd > 5 ? 2 : nd > 3 ? 4 : 6))));
  return ac;
}

static void distinctContents(Case &c, Histogram &h)
{
  std::vector<double> v;
  for (size_t i = 0; i < h.GetNBins(); ++i)
    v.push_back(double(i) + 1 + 0.5 * c.r.uni());
  c.r.shuffle(v);
  if (c.r.coin(0.3))
    for (auto &x : v)
      x -= v.size() / 2.0;
  // hardly anything, a great deal, and both at once
  double f = c.r.coin(0.8) ? 1 : std::pow(10, c.r.uni(-200, 200));
  bool both = c.r.coin(0.1);
  for (auto &x : v)
    x *= both ? std::pow(10, c.r.uni(-30, 5)) : f;
  h.SetBinContents(v);
}

SCENARIO(histogram, 1)
{
  std::vector<std::string> names;
  Histogram h(shape(c, names));
  distinctContents(c, h);
  run(c, h);
}

SCENARIO(distribution, 1)
{
  std::vector<std::string> names;
  Histogram h(shape(c, names));
  distinctContents(c, h);
  BinnedED e("src", h);
  e.SetObservables(names);
  run(c, e);
}

// the histogram tool sets: one histogram per name or pair, filled from one dictionary
SCENARIO(toolsets, 1)
{
  std::vector<std::string> names;
  AxisCollection ac = shape(c, names);
  size_t nd = names.size();
  std::vector<std::string> some = subset(c.r, names, c.r.ri(1, nd));
  std::map<std::string, Histogram> one = HistTools::MakeAllHists(ac, some);
  std::map<std::string, Histogram> setv = HistTools::MakeAllHists(ac, std::set<std::string>(some.begin(), some.end()));
  check(one.size() == some.size() && setv.size() == some.size(), "one per name", "");
  std::set<std::pair<std::string, std::string>> combs = Combinations::AllCombsNoDiag(names);
  check(combs.size() == nd * (nd - 1) / 2, "pairs", combs.size());
  for (auto &p : combs)
    check(p.first != p.second && !combs.count({p.second, p.first}), "pairs", "repeated or diagonal");
  std::map<std::string, Histogram> two = HistTools::MakeAllHists(ac, combs);
  check(two.size() == combs.size(), "one per pair", two.size());
  std::vector<std::map<std::string, double>> fills;
  int n = int(c.r.ri(1, 30));
  for (int i = 0; i < n; ++i)
  {
    std::map<std::string, double> v;
    for (auto &a : names)
      v[a] = probeValue(c.r, edges(ac.GetAxis(a)));
    v["~other"] = 1;
    fills.push_back(v);
    HistTools::FillAllHists(one, v);
    HistTools::FillAllHists(two, v);
  }
  for (auto &a : some)
  {
    check(one.count(a) && one[a].GetAxisNames() == std::vector<std::string>(1, a), "named", a);
    std::vector<double> w(ac.GetAxis(a).GetNBins(), 0.0);
    for (auto &v : fills)
      w[modelFind(edges(ac.GetAxis(a)), v[a])] += 1;
    nearv(one[a].GetBinContents(), w, "filled 1D", 0, 0, a);
    check(setv[a].GetAxes() == one[a].GetAxes() && setv[a].Integral() == 0, "set version", a);
  }
  for (auto &p : combs)
  {
    Histogram &h = two.at(p.first + "_" + p.second);
    check(h.GetAxisNames() == std::vector<std::string>({p.first, p.second}), "pair axes", p.first, p.second);
    std::vector<double> w(h.GetNBins(), 0.0);
    for (auto &v : fills)
      w[modelFind(h.GetAxes(), {v[p.first], v[p.second]})] += 1;
    nearv(h.GetBinContents(), w, "filled 2D", 0, 0, p.first, p.second);
  }
  // joint fill projected = separate fills
  Histogram joint(ac);
  for (auto &v : fills)
    joint.Fill(v);
  for (auto &a : some)
    check(joint.Marginalise(a).GetBinContents() == one[a].GetBinContents(), "joint", a);
  c.count("tool fills", n);
  c.sig(cat("t", str(dims(ac).n), n));
}

// far more bins than the random shapes have
template <class T>
static void big(const T &src)
{
  const Histogram &h = hist(src);
  std::vector<std::string> names = h.GetAxisNames();
  Dims dm = dims(h.GetAxes());
  double scale = h.Integral();
  for (size_t a = 0; a < names.size() && names.size() > 1; ++a)
  {
    for (size_t b : {size_t(0), dm.n[a] / 2, dm.n[a] - 1})
    {
      std::map<std::string, size_t> fixed{{names[a], b}};
      nearv(src.GetSlice(fixed).GetBinContents(), modelSlice(h, {{a, b}}), "slice", 0, 0, "large, at ", names[a], " ", b);
    }
    std::vector<size_t> rest;
    std::vector<std::string> restNames;
    for (size_t k = names.size(); k-- > 0;)
      if (k != a)
        rest.push_back(k), restNames.push_back(names[k]);
    nearv(src.Marginalise(names[a]).GetBinContents(), modelProject(h, {a}), "projection", 1e-10, scale, "large, onto ", names[a]);
    nearv(src.Marginalise(restNames).GetBinContents(), modelProject(h, rest), "projection", 1e-10, scale, "large, onto ", str(restNames));
    std::map<std::string, size_t> fixed;
    std::map<size_t, size_t> fi;
    for (size_t k : rest)
      fixed[names[k]] = fi[k] = dm.n[k] - 1;
    nearv(src.GetSlice(fixed).GetBinContents(), modelSlice(h, fi), "slice", 0, 0, "large, along ", names[a]);
  }
  nearv(src.Marginalise(names).GetBinContents(), h.GetBinContents(), "projection", 1e-10, scale, "large, onto everything");
}
DIRECTED(large)
{
  for (std::vector<size_t> n : {std::vector<size_t>{70001}, {300, 300}, {60, 5, 210}, {3, 90, 80}, {9, 8, 9, 8, 9}})
  {
    AxisCollection ac;
    std::vector<std::string> names;
    for (size_t d = 0; d < n.size(); ++d)
    {
      names.push_back(cat("a", d));
      ac.AddAxis(BinAxis(names.back(), 0, 1, int(n[d])));
    }
    Histogram h(ac);
    std::vector<double> v(h.GetNBins());
    for (size_t i = 0; i < v.size(); ++i)
      v[i] = double((i * 7919) % 100003) + 1;
    h.SetBinContents(v);
    big(h);
    BinnedED e("src", h);
    e.SetObservables(names);
    big(e);
  }
}
