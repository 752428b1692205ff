// P33: Bayesian limits.
#include "gen.h"
#include <BayesIntervalCalc.h>
using namespace oxv;
PLAN("P33", 600000, 15000000,
     "Posterior histograms of 1..40 (some 200..1500) equal or variable bins with empty bins at either end and in between, narrow peaks and wide "
     "tails, levels from 1e-6 to one including exact cumulative values, and requests that make no sense; the bound against the "
     "interpolated cumulative sum. Counting limits for 0..60 observed and 0..690 expected, levels up to one and tolerances of 1e-3 to 0.2 "
     "against Poisson sums in log space. Distinct = (binning, contents, level) and (expected, observed, level).")

namespace
{
// log of sum_{k<=n} x^k e^-x / k!
long double logQ(int n, long double x)
{
  long double top = -1e300L;
  std::vector<long double> t;
  for (int k = 0; k <= n; ++k)
  {
    if (x == 0 && k > 0)
      break;
    long double v = -x + (k ? k * std::log(x) - std::lgamma((long double)(k + 1)) : 0);
    t.push_back(v), top = std::max(top, v);
  }
  long double s = 0;
  for (auto v : t)
    s += std::exp(v - top);
  return top + std::log(s);
}
double level(double b, int n, double s) { return double(-std::expm1(logQ(n, (long double)b + s) - logQ(n, b))); }
} // namespace

SCENARIO(posterior, 20)
{
  Rng &r = c.r;
  AxisCollection ac;
  if (r.coin(0.01))
    ac.AddAxis(genAxis(r, "rate", int(r.ri(200, 1500))));
  else
    ac = genAxes(r, {"rate"}, 40);
  std::vector<double> e = edges(ac.GetAxis(0)), x(ac.GetNBins());
  size_t n = x.size();
  int kind = int(r.ri(0, 5));
  double peak = r.uni(0, double(n)), width = r.uni(0.3, double(n));
  for (size_t i = 0; i < n; ++i)
    x[i] = kind == 0   ? 1
           : kind == 1 ? r.uni(0, 5)
           : kind == 2 ? std::exp(-0.5 * (double(i) - peak) * (double(i) - peak) / width / width)
           : kind == 3 ? double(r.ri(0, 3))
           : kind == 5 ? (r.coin(0.1) ? 1 : r.uni(0, 1e-6))
                       : std::pow(10.0, r.uni(-5, 5));
  if (r.coin(0.3))
    for (auto &v : x)
      if (r.coin(0.4))
        v = 0;
  if (r.coin(0.2)) // empty ends
    for (size_t i = 0, k = size_t(r.ri(0, long(n) - 1)); i < k; ++i)
      x[i] = 0;
  if (r.coin(0.2))
    for (size_t i = n, k = size_t(r.ri(1, long(n))); i-- > k;)
      x[i] = 0;
  for (auto &v : x)
    if (v < 1e-290)
      v = 0; // no digits left to compare
  Histogram h(ac);
  h.SetBinContents(x);
  double total = 0;
  for (double v : x)
    total += v;
  if (!total)
  {
    REFUSED("empty", BayesIntervalCalc::UpperBound(h, 0.9));
    return;
  }
  double cl = r.coin(0.1) ? 1 : r.coin(0.1) ? r.uni(1e-6, 1e-3) : r.uni(0.001, 1);
  if (r.coin(0.2))
  { // just what the first bins hold
    double s = 0;
    for (size_t i = 0, k = size_t(r.ri(1, long(n))); i < k; ++i)
      s += x[i];
    if (s > 0)
      cl = std::min(1.0, s / total);
  }
  LOG << str(e) << " " << str(x) << " level " << cl;
  HistSnap before(h);
  double got = BayesIntervalCalc::UpperBound(h, cl);
  before.same(h, "posterior", "the posterior");
  check(got >= e.front() && got <= e.back(), "bound-range", "bound ", got, " outside ", e.front(), "..", e.back());
  // what is below it
  double below = 0;
  for (size_t i = 0; i < n; ++i)
    below += x[i] * std::max(0.0, std::min(1.0, (got - e[i]) / (e[i + 1] - e[i])));
  near(below / total, cl, "bound", 1e-9, 1, "below ", got);
  // not further up than it has to be: an empty bin is never entered
  size_t b = modelFind(e, got);
  if (got > e[b] + 1e-9 * (e[b + 1] - e[b]) && got < e[b + 1] - 1e-9 * (e[b + 1] - e[b]))
    check(x[b] > 0, "bound-empty", "bound ", got, " inside an empty bin");
  c.count("posterior bounds");
  c.sig(cat(str(e), str(x), cl));
  if (r.coin(0.2))
  { // more probability further up
    double cl2 = r.uni(cl, 1);
    check(BayesIntervalCalc::UpperBound(h, cl2) >= got - 1e-9 * (e.back() - e.front()), "bound-order", "a larger level, a smaller bound");
    // normalisation is irrelevant
    Histogram g(h);
    g.Scale(r.uni(0.01, 100));
    got = BayesIntervalCalc::UpperBound(g, cl), below = 0;
    for (size_t i = 0; i < n; ++i)
      below += x[i] * std::max(0.0, std::min(1.0, (got - e[i]) / (e[i + 1] - e[i])));
    near(below / total, cl, "bound-scale", 1e-9, 1, "below ", got, " after scaling");
  }
}

SCENARIO(posteriorRefused, 2)
{
  Rng &r = c.r;
  AxisCollection ac = genAxes(r, {"rate"}, 40);
  Histogram h = genHist(r, ac, true);
  REFUSED("level", BayesIntervalCalc::UpperBound(h, r.coin(0.3) ? 0 : -r.uni(1e-6, 2)));
  REFUSED("level", BayesIntervalCalc::UpperBound(h, r.coin(0.3) ? 1 + 1e-9 : r.uni(1.001, 3)));
  REFUSED("level", BayesIntervalCalc::UpperBound(h, std::nan("")));
  REFUSED("empty", BayesIntervalCalc::UpperBound(Histogram(ac), 0.9));
  REFUSED("dimensions", BayesIntervalCalc::UpperBound(genHist(r, genAxes(r, {"a", "b"}), true), 0.9));
  c.count("refused posteriors");
}

SCENARIO(oneSided, 10)
{
  Rng &r = c.r;
  int n = int(r.coin(0.3) ? 0 : r.coin(0.8) ? r.ri(0, 15) : r.ri(0, 300));
  double b = r.coin(0.15) ? 0 : r.coin(0.7) ? r.uni(0, 20) : r.uni(0, 600), s = r.coin(0.05) ? 0 : r.coin() ? r.uni(0, 10) : r.uni(0, 3 * n + 20);
  near(BayesIntervalCalc::OneSidedUpperInterval(b, n, s), level(b, n, s), "one-sided", 1e-8, 1, n, " observed, ", b, " expected, up to ", s);
  REFUSED("negative", BayesIntervalCalc::OneSidedUpperInterval(-r.uni(0.01, 5), n, s));
  REFUSED("negative", BayesIntervalCalc::OneSidedUpperInterval(b, -int(r.ri(1, 5)), s));
  REFUSED("negative", BayesIntervalCalc::OneSidedUpperInterval(b, n, -r.uni(0.01, 5)));
  c.count("one sided intervals");
  c.sig(cat(n, b, s));
}

SCENARIO(counting, 10)
{
  Rng &r = c.r;
  int n = int(r.coin(0.3) ? 0 : r.coin(0.9) ? r.ri(0, 10) : r.ri(10, 60));
  double b = r.coin(0.2) ? 0 : r.coin(0.8) ? r.uni(0, 20) : r.uni(0, 690);
  double cl = r.coin(0.1) ? 1 : r.coin() ? 0.9 : r.uni(0.01, 0.999);
  double tol = r.coin(0.1) ? 1e-3 : std::pow(10.0, r.uni(-2.5, -0.7));
  LOG << n << " observed " << b << " expected, level " << cl << " to " << tol;
  double s = BayesIntervalCalc::UpperBound(b, n, cl, tol);
  check(s >= 0 && std::isfinite(s), "limit", "limit ", s);
  check(std::fabs(level(b, n, s) - cl) <= tol * (1 + 1e-6) + 1e-8, "limit-level", "up to ", s, " are ", level(b, n, s), " requested ", cl, " to ", tol);
  c.count("counting limits");
  c.sig(cat(n, b, cl));
  if (r.coin(0.3))
  {
    REFUSED("level", BayesIntervalCalc::UpperBound(b, n, r.coin() ? 0 : -r.uni(0.1, 2), tol));
    REFUSED("level", BayesIntervalCalc::UpperBound(b, n, 1 + 2 * tol + r.uni(1e-6, 2), tol));
    REFUSED("level", BayesIntervalCalc::UpperBound(b, n, std::nan(""), tol));
    REFUSED("tolerance", BayesIntervalCalc::UpperBound(b, n, cl, r.coin() ? 0 : -tol));
    REFUSED("negative", BayesIntervalCalc::UpperBound(-r.uni(0.01, 5), n, cl, tol));
    REFUSED("negative", BayesIntervalCalc::UpperBound(b, -int(r.ri(1, 5)), cl, tol));
  }
}
