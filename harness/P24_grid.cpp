// P24: the grid search evaluates the whole grid and returns its best point.
#include "recstat.h"
#include <BinnedNLLH.h>
#include <GridSearch.h>
#include <StatisticSum.h>
using namespace oxv;
PLAN("P24", 16000, 400000,
     "Grids in 1..5 parameters with exactly representable or decimal steps, 1..12 points per axis, ending on or between "
     "points, over smooth, tabulated, tied, all-positive, all-negative, zero-valued and constant objectives of a recording "
     "statistic, sums of those and real binned likelihoods; every evaluated point is recorded and matched with the grid. "
     "Settings are changed and the search repeated on the same object. Distinct = (grid shape, objective, direction).")

struct Grid
{
  ParameterDict lo, hi, step;
  std::vector<std::string> names; // sorted
  std::vector<size_t> n;
  size_t total() const
  {
    size_t t = 1;
    for (size_t x : n)
      t *= x;
    return t;
  }
  std::string shape() const { return str(n); }
};
static Grid genGrid(Case &c, size_t maxPoints)
{
  Rng &r = c.r;
  Grid g;
  int d = int(r.ri(1, 5));
  g.names = genNames(r, d);
  std::sort(g.names.begin(), g.names.end());
  size_t left = maxPoints;
  bool decimal = r.coin(0.2);
  for (auto &n : g.names)
  {
    size_t k = size_t(r.ri(1, long(std::min<size_t>(left, d == 1 ? 40 : 12))));
    if (r.coin(0.1))
      k = 1;
    left = std::max<size_t>(1, left / k);
    double st, lo, frac;
    if (decimal)
      st = r.uni(0.01, 3), lo = r.uni(-5, 5), frac = r.uni(0.2, 0.8);
    else
      st = double(r.ri(1, 40)) / 8, lo = double(r.ri(-40, 40)) / 4, frac = r.coin(0.6) ? 0 : double(r.ri(0, 7)) / 8;
    g.lo[n] = lo, g.step[n] = st;
    g.hi[n] = lo + st * (double(k - 1) + frac);
    g.n.push_back(k);
  }
  return g;
}
static std::vector<size_t> indices(const Grid &g, const ParameterDict &p)
{
  std::vector<size_t> ix;
  for (size_t i = 0; i < g.names.size(); ++i)
  {
    const std::string &n = g.names[i];
    double v = p.at(n), lo = g.lo.at(n), st = g.step.at(n);
    double k = std::floor((v - lo) / st + 0.5);
    check(k >= 0 && k < double(g.n[i]), "outside", n, " was evaluated at ", v, ", outside ", lo, " to ", g.hi.at(n));
    near(v, lo + k * st, "off-grid", 1e-9, std::fabs(lo) + std::fabs(g.hi.at(n)), n, " evaluated off the grid");
    ix.push_back(size_t(k));
  }
  return ix;
}
typedef std::function<double(const ParameterDict &)> Fn;
static Fn rawObjective(Case &c, const Grid &g, std::string &kind);
// values may also lie very close to each other, on a large offset, or far apart
static Fn genObjective(Case &c, const Grid &g, std::string &kind)
{
  Fn f = rawObjective(c, g, kind);
  if (!c.r.coin(0.3))
    return f;
  double scale = std::pow(10., double(c.r.ri(-15, 12))), offset = c.r.pick<double>({0, 0, 1e9, -1e9, 1, -1, 1e-9, -1e-9});
  kind += cat("*", scale, "+", offset);
  return [=](const ParameterDict &p) { return offset + scale * f(p); };
}
static Fn rawObjective(Case &c, const Grid &g, std::string &kind)
{
  Rng &r = c.r;
  uint64_t salt = r.next();
  std::vector<double> centre, w;
  for (auto &n : g.names)
    centre.push_back(r.uni(g.lo.at(n), g.hi.at(n))), w.push_back(r.uni(0.1, 3));
  double offset = r.pick<double>({0, 0, 5, -5, 1000, -1000});
  std::vector<std::string> names = g.names;
  switch (r.ri(0, 6))
  {
  case 0:
    kind = "parabola";
    return [=](const ParameterDict &p) {
      double v = offset;
      for (size_t i = 0; i < names.size(); ++i)
        v += w[i] * std::pow(p.at(names[i]) - centre[i], 2);
      return v;
    };
  case 1:
    kind = "hill";
    return [=](const ParameterDict &p) {
      double v = offset;
      for (size_t i = 0; i < names.size(); ++i)
        v -= w[i] * std::pow(p.at(names[i]) - centre[i], 2);
      return v;
    };
  case 2:
  {
    kind = "slope"; // the best point is a corner
    std::vector<double> s;
    for (size_t i = 0; i < names.size(); ++i)
      s.push_back(r.coin() ? 1 : -1);
    return [=](const ParameterDict &p) {
      double v = offset;
      for (size_t i = 0; i < names.size(); ++i)
        v += s[i] * w[i] * p.at(names[i]);
      return v;
    };
  }
  case 3:
    kind = "constant";
    return [=](const ParameterDict &) { return offset; };
  default:
  {
    // noise, with few or many different values, of one or of both signs
    int levels = int(r.pick<long>({2, 5, 1000}));
    int lowest = int(r.pick<long>({-levels, -1, 0, 1, -levels / 2}));
    bool inf = r.coin(0.1);
    const uint64_t none = r.coin(0.15) ? r.pick<uint64_t>({1, 2, 3, 10, 10}) : 0; // no value at one point in so many
    kind = cat("table", levels, lowest > 0 ? "+" : lowest + levels <= 0 ? "-" : "0", inf ? "i" : "", none ? "n" : "");
    return [=](const ParameterDict &p) {
      uint64_t h = salt;
      for (auto &n : names)
      {
        double v = std::round(p.at(n) * 1e6);
        h = mix(h ^ uint64_t(int64_t(v)));
      }
      if (none && mix(h ^ 5) % none == 0)
        return std::numeric_limits<double>::quiet_NaN();
      if (inf && h % 5 == 0)
        return h % 2 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
      return double(lowest + long(mix(h) % uint64_t(levels)));
    };
  }
  }
}
static void configure(GridSearch &s, const Grid &g, bool maxi, Rng &r)
{
  std::vector<int> order{0, 1, 2, 3};
  r.shuffle(order);
  for (int o : order)
    o == 0 ? s.SetMinima(g.lo) : o == 1 ? s.SetMaxima(g.hi) : o == 2 ? s.SetStepSizes(g.step) : s.SetMaximising(maxi);
  bool nan = false;
  for (auto &x : g.step)
    nan |= std::isnan(x.second);
  check(nan || (s.GetMinima() == g.lo && s.GetMaxima() == g.hi && s.GetStepSizes() == g.step && s.GetMaximising() == maxi), "settings", "settings do not read back");
}
static void judge(Case &c, const Grid &g, bool maxi, const std::vector<std::pair<ParameterDict, double>> &evals, const ParameterDict &best, double extreme)
{
  std::map<std::vector<size_t>, double> seen;
  for (auto &e : evals)
  {
    check(seen.emplace(indices(g, e.first), e.second).second, "twice", "evaluated twice: ", str(e.first));
  }
  check(seen.size() == g.total(), "incomplete", "evaluated ", seen.size(), " of ", g.total(), " grid points, shape ", g.shape());
  c.count("grid points", g.total());
  // a point without a value is better than none, and worse than any with one
  double want = std::numeric_limits<double>::quiet_NaN();
  for (auto &e : evals)
    if (!std::isnan(e.second) && (std::isnan(want) || (maxi ? e.second > want : e.second < want)))
      want = e.second;
  near(extreme, want, "extreme", 1e-15, 0, "extreme value, ", maxi ? "maximising" : "minimising");
  check(best.size() == g.names.size(), "best-names", "best fit has ", best.size(), " parameters");
  std::vector<size_t> ix = indices(g, best);
  near(seen.at(ix), want, "best-point", 1e-15, 0, "value at the reported best fit");
}

SCENARIO(recorded, 6)
{
  Rng &r = c.r;
  GridSearch s;
  check(!s.GetMaximising(), "default", "minimises by default");
  int runs = r.coin(0.3) ? 2 : 1;
  for (int k = 0; k < runs; ++k)
  {
    Grid g = genGrid(c, c.thorough ? 3000 : 400);
    std::string kind;
    Fn f = genObjective(c, g, kind);
    bool maxi = r.coin();
    configure(s, g, maxi, r);
    LOG << "grid " << g.shape() << " lo " << str(g.lo) << " step " << str(g.step) << " hi " << str(g.hi) << " " << kind << (maxi ? " max" : " min");
    if (r.coin(0.3) && g.names.size() > 1)
    {
      // two statistics sharing some of the parameters
      std::vector<std::string> a, b;
      for (auto &n : g.names)
      {
        int w = int(r.ri(0, 2));
        if (w != 1)
          a.push_back(n);
        if (w != 0)
          b.push_back(n);
      }
      auto part = [f, g](double w) {
        return [f, g, w](const ParameterDict &p) {
          ParameterDict q = g.lo;
          for (auto &x : p)
            q[x.first] = x.second;
          double v = f(q);
          return std::isinf(v) ? w * 100 : w * v;
        };
      };
      RecStat sa(a, part(1)), sb(b, part(r.coin() ? 1 : -0.5));
      StatisticSum sum(sa, sb);
      const FitResult &res = s.Optimise(&sum);
      check(sa.evals.size() == sb.evals.size() && sa.evals.size() == g.total(), "incomplete", "evaluated ", sa.evals.size(), " and ", sb.evals.size(), " of ", g.total());
      std::vector<std::pair<ParameterDict, double>> ev;
      for (size_t i = 0; i < sa.evals.size(); ++i)
      {
        ParameterDict p = sa.evals[i].first;
        for (auto &x : sb.evals[i].first)
        {
          if (p.count(x.first))
            check(p[x.first] == x.second, "shared", "the parts were evaluated at different points");
          p[x.first] = x.second;
        }
        ev.emplace_back(p, sa.evals[i].second + sb.evals[i].second);
      }
      judge(c, g, maxi, ev, res.GetBestFit(), res.GetExtremeVal());
      c.sig(cat(g.shape(), kind, maxi, "sum"));
      continue;
    }
    RecStat t(g.names, f);
    const FitResult &res = s.Optimise(&t);
    check(t.regs >= 1, "registered", "the components of the statistic were not registered");
    judge(c, g, maxi, t.evals, res.GetBestFit(), res.GetExtremeVal());
    FitResult copy = s.GetFitResult();
    check(copy.GetBestFit() == res.GetBestFit() && (copy.GetExtremeVal() == res.GetExtremeVal() || std::isnan(res.GetExtremeVal())), "result", "GetFitResult differs from what Optimise returned");
    check(s.GetMinima() == g.lo && s.GetMaxima() == g.hi && s.GetStepSizes() == g.step, "settings", "the search changed its settings");
    c.sig(cat(g.shape(), kind, maxi));
  }
}

// long axes and many parameters
DIRECTED(many)
{
  for (int k = 0; k < 3; ++k)
  {
    Grid g;
    size_t n = k == 0 ? 1 : k == 1 ? 2 : 11;
    for (size_t i = 0; i < n; ++i)
    {
      std::string nm = cat("p", char('a' + i));
      g.names.push_back(nm);
      size_t pts = k == 0 ? 70000 : k == 1 ? (i ? 3 : 300) : 2;
      g.n.push_back(pts);
      g.lo[nm] = -5, g.step[nm] = 0.125, g.hi[nm] = -5 + 0.125 * double(pts - 1);
    }
    for (bool maxi : {false, true})
    {
      std::string kind;
      Fn f = genObjective(c, g, kind);
      RecStat t(g.names, f);
      GridSearch s;
      configure(s, g, maxi, c.r);
      const FitResult &res = s.Optimise(&t);
      judge(c, g, maxi, t.evals, res.GetBestFit(), res.GetExtremeVal());
    }
  }
}

SCENARIO(likelihood, 1)
{
  Rng &r = c.r;
  AxisCollection a;
  a.AddAxis(BinAxis("x", 0, 1, 5));
  size_t np = size_t(r.ri(1, 3));
  std::vector<std::vector<double>> shape;
  BinnedNLLH lh;
  Grid g;
  for (size_t i = 0; i < np; ++i)
  {
    BinnedED d(cat("pdf", i), a);
    d.SetObservables(std::vector<std::string>{"x"});
    std::vector<double> v;
    for (int b = 0; b < 5; ++b)
      v.push_back(r.uni(0.1, 2));
    d.SetBinContents(v);
    d.Normalise();
    shape.push_back(d.GetBinContents());
    lh.AddPdf(d);
    g.names.push_back(cat("pdf", i));
    g.n.push_back(size_t(r.ri(1, 6)));
    g.lo[g.names[i]] = double(r.ri(1, 20)), g.step[g.names[i]] = double(r.ri(1, 8)) / 2;
    g.hi[g.names[i]] = g.lo[g.names[i]] + double(g.n[i] - 1) * g.step[g.names[i]];
  }
  BinnedED data("data", a);
  data.SetObservables(std::vector<std::string>{"x"});
  std::vector<double> dv;
  for (int b = 0; b < 5; ++b)
    dv.push_back(double(r.ri(0, 12)));
  data.SetBinContents(dv);
  lh.SetDataDist(data);
  bool maxi = r.coin(0.2);
  GridSearch s;
  configure(s, g, maxi, r);
  const FitResult &res = s.Optimise(&lh);
  std::vector<std::pair<ParameterDict, double>> ev;
  for (size_t k = 0; k < g.total(); ++k)
  {
    ParameterDict p;
    size_t left = k;
    for (size_t i = 0; i < np; ++i)
    {
      p[g.names[i]] = g.lo[g.names[i]] + double(left % g.n[i]) * g.step[g.names[i]];
      left /= g.n[i];
    }
    double v = 0;
    for (int b = 0; b < 5; ++b)
    {
      double mu = 0;
      for (size_t i = 0; i < np; ++i)
        mu += p[g.names[i]] * shape[i][size_t(b)];
      v += mu - dv[size_t(b)] * std::log(mu);
    }
    ev.emplace_back(p, v);
  }
  double want = ev[0].second;
  for (auto &e : ev)
    want = maxi ? std::max(want, e.second) : std::min(want, e.second);
  near(res.GetExtremeVal(), want, "likelihood", 1e-9, 10, "best likelihood on the grid");
  std::vector<size_t> ix = indices(g, res.GetBestFit());
  double at = 0;
  for (auto &e : ev)
    if (indices(g, e.first) == ix)
      at = e.second;
  near(at, want, "likelihood-point", 1e-9, 10, "likelihood at the best fit");
  c.sig(cat("lh", g.shape(), maxi));
}

SCENARIO(refusals, 1)
{
  Rng &r = c.r;
  Grid g = genGrid(c, 60);
  std::string kind;
  Fn f = genObjective(c, g, kind);
  RecStat t(g.names, f);
  GridSearch s;
  Grid bad = g;
  std::string n = r.pick(g.names);
  int what = int(r.ri(0, 6));
  if (what == 0)
    bad.lo.erase(n);
  else if (what == 1)
    bad.hi.erase(n);
  else if (what == 2)
    bad.step.erase(n);
  else if (what == 3)
    bad.lo[n] = bad.hi[n] + 1;
  else if (what == 4)
    bad.step[n] = r.coin() ? 0 : -1;
  else if (what == 5)
  {
    // named differently from the statistic's
    for (ParameterDict *d : {&bad.lo, &bad.hi, &bad.step})
    {
      double v = d->at(n);
      d->erase(n);
      (*d)["other"] = v;
    }
  }
  else
    bad.step[n] = std::numeric_limits<double>::quiet_NaN();
  configure(s, bad, false, r);
  REFUSED(cat("bad-grid-", what), s.Optimise(&t));
  check(t.evals.empty(), "evaluated", "a refused search evaluated the statistic");
  configure(s, g, false, r);
  const FitResult &res = s.Optimise(&t);
  judge(c, g, false, t.evals, res.GetBestFit(), res.GetExtremeVal());
  c.sig(cat("refuse", what));
}
