// P31: generated distributions and the draws behind them.
// OXV_NEEDS_ROOT: random numbers come from TRandom3
#include "gen.h"
#include <BinnedEDGenerator.h>
#include <Function.h>
#include <Gaussian.h>
#include <Rand.h>
using namespace oxv;
PLAN("P31", 32000, 800000,
     "Generated distributions (expected rates and Poisson) of 1..4 pdfs with empty bins over 1..3 dimensions, rates of 0, "
     "fractions and halves up to 300, free, extreme and scripted uniform deviates, refused set-ups; accounts for every event. "
     "Bin frequencies per source over 20000 events, Poisson totals over thousands of draws. Uniform, ranged, integer, normal and accept-reject "
     "draws under the same deviates: ranges, regions without density, frequencies. Distinct = (dims, sources, rates, deviates).")

namespace
{
void script(Rng &r, int kind)
{
  if (kind == 0)
    oxv_shim::rndm_hook() = nullptr;
  else if (kind == 1)
    oxv_shim::rndm_hook() = [] { return 1 - 1e-9; };
  else if (kind == 2)
    oxv_shim::rndm_hook() = [] { return 1e-9; };
  else
  {
    auto s = std::make_shared<Rng>(r.next());
    oxv_shim::rndm_hook() = [s] { return s->coin(0.3) ? 1 - 1e-9 : s->coin(0.3) ? 1e-9 : s->uni(1e-9, 1 - 1e-9); };
  }
}
struct Free
{
  ~Free() { oxv_shim::rndm_hook() = nullptr; }
};
BinnedED genPdf(Rng &r, const AxisCollection &ac, const std::vector<std::string> &names, const std::string &n)
{
  BinnedED p(n, ac);
  p.SetObservables(names);
  std::vector<double> x = genContents(r, ac.GetNBins());
  double zeros = r.coin(0.3) ? 0.8 : r.coin() ? 0.3 : 0;
  for (auto &v : x)
    if (r.coin(zeros))
      v = 0;
  x[size_t(r.ri(0, long(x.size()) - 1))] = r.coin() ? 1 : 1e-3;
  p.SetBinContents(x);
  return p;
}
// how far a frequency may be off
void frequency(double seen, double p, double n, const std::string &key, const std::string &what)
{
  double sigma = std::sqrt(std::max(0.0, n * p * (1 - p)));
  check(std::fabs(seen - n * p) <= 9 * sigma + 40 * std::exp(-n * p) + (p <= 0 || p >= 1 ? 1e-6 * n : 12), key, what, ": ", seen, " of ", n, ", expected ", n * p);
}
// anything non-negative on an interval
struct Shape : Function
{
  std::vector<double> e, v;
  mutable std::vector<double> asked;
  Function *Clone() const { return new Shape(*this); }
  double operator()(const std::vector<double> &x) const
  {
    check(x.size() == 1, "accept-reject", "called with ", x.size(), " values");
    check(x[0] >= e.front() && x[0] <= e.back(), "accept-reject-range", "evaluated at ", x[0], " outside ", e.front(), "..", e.back());
    return v[modelFind(e, x[0])];
  }
  size_t GetNDims() const { return 1; }
  void SetParameter(const std::string &, double) {}
  double GetParameter(const std::string &) const { return 0; }
  void SetParameters(const ParameterDict &) {}
  ParameterDict GetParameters() const { return ParameterDict(); }
  size_t GetParameterCount() const { return 0; }
  std::set<std::string> GetParameterNames() const { return {}; }
  void RenameParameter(const std::string &, const std::string &) {}
  std::string GetName() const { return "shape"; }
  void SetName(const std::string &) {}
};
struct Setup
{
  AxisCollection ac;
  std::vector<std::string> names, pdfNames;
  std::vector<BinnedED> pdfs;
  std::vector<double> rates;
  BinnedEDGenerator g;
};
void genSetup(Rng &r, Setup &s, int maxBins = 60)
{
  int nd = int(r.ri(1, 3));
  s.names = genNames(r, nd);
  s.ac = genAxes(r, s.names, maxBins);
  for (int n = int(r.few(1, 4, 14)); n > 0; --n)
  {
    s.pdfNames.push_back(cat("pdf", n));
    s.pdfs.push_back(genPdf(r, s.ac, s.names, s.pdfNames.back()));
    double k = r.coin(0.15) ? 0 : r.coin(0.3) ? double(r.ri(1, 3)) : double(r.ri(1, 300));
    s.rates.push_back(r.coin(0.4) ? k : r.coin(0.2) ? k + 0.5 : r.coin() ? k + r.uni(0, 0.5) : std::max(0.0, k - r.uni(0, 0.5)));
  }
  s.g.SetPdfs(s.pdfs);
  s.g.SetRates(s.rates);
}
void shape(Case &c, const Setup &s, const BinnedED &d, const std::string &what)
{
  check(d.GetAxes() == s.ac && d.GetAxes().GetAxisNames() == s.ac.GetAxisNames() && d.GetNBins() == s.ac.GetNBins(), "binning", what, " has another binning");
  check(d.GetObservables() == s.names, "observables", what, " has ", str(d.GetObservables()));
  for (size_t i = 0; i < d.GetNBins(); ++i)
  {
    double x = d.GetBinContent(i);
    check(x >= 0 && x == std::floor(x), "integers", what, " has ", x, " in bin ", i);
    bool possible = false;
    for (size_t k = 0; k < s.pdfs.size(); ++k)
      possible |= s.rates[k] > 0 && s.pdfs[k].GetBinContent(i) > 0;
    check(possible || x == 0, "support", what, " has ", x, " in bin ", i, " where no pdf has anything");
  }
  c.count("events", uint64_t(d.Integral()));
}
// the set-up isn't changed by drawing from it
void unchanged(const Setup &s)
{
  check(s.g.GetRates() == s.rates && s.g.GetPdfs().size() == s.pdfs.size(), "setup", "the rates or pdfs were changed");
  auto p = s.g.GetPdfs();
  for (size_t i = 0; i < p.size(); ++i)
    check(p[i].GetBinContents() == s.pdfs[i].GetBinContents() && p[i].GetName() == s.pdfs[i].GetName(), "setup", "pdf ", i, " was changed");
}
std::string joined(const std::string &pre, const Setup &s)
{
  std::string n = pre;
  for (size_t i = 0; i < s.pdfNames.size(); ++i)
    n += (i ? "_" : "") + s.pdfNames[i];
  return n;
}
} // namespace

SCENARIO(expected, 50)
{
  Rng &r = c.r;
  Free f;
  Setup s;
  genSetup(r, s);
  int kind = r.coin() ? 0 : int(r.ri(1, 3));
  script(r, kind);
  bool named = r.coin();
  BinnedED d = named ? s.g.ExpectedRatesED("mine") : s.g.ExpectedRatesED();
  shape(c, s, d, "the expected distribution");
  double want = 0, slack = 0;
  for (double x : s.rates)
  {
    want += std::round(x);
    if (x - std::floor(x) == 0.5)
      slack += 1; // either way
  }
  check(std::fabs(d.Integral() - want) <= slack, "total", d.Integral(), " events for rates ", str(s.rates));
  check(d.GetName() == (named ? "mine" : joined("Gen_Exp", s)), "name", "called ", d.GetName());
  unchanged(s);
  c.count("expected distributions");
  c.sig(cat(s.ac.GetNBins(), str(s.rates), kind));
}

SCENARIO(poisson, 25)
{
  Rng &r = c.r;
  Free f;
  Setup s;
  genSetup(r, s);
  bool one = r.coin();
  if (one)
  {
    s.pdfs.resize(1), s.rates.resize(1), s.pdfNames.resize(1);
    s.g.SetPdfs(s.pdfs), s.g.SetRates(s.rates);
  }
  unsigned seed = unsigned(r.ri(1, 1000000));
  Rand::SetSeed(seed);
  check(Rand::GetSeed() == seed, "seed", "seed ", Rand::GetSeed(), " after setting ", seed);
  bool named = r.coin();
  BinnedED d = named ? s.g.PoissonFluctuatedED("mine") : s.g.PoissonFluctuatedED();
  shape(c, s, d, "the Poisson distribution");
  check(d.GetName() == (named ? "mine" : joined("Gen_Poi", s)), "name", "called ", d.GetName());
  unchanged(s);
  double total = 0;
  for (double x : s.rates)
    total += x;
  check(std::fabs(d.Integral() - total) <= 10 * std::sqrt(total) + 20, "poisson-total", d.Integral(), " events for rates ", str(s.rates));
  // the same seed, the same distribution
  Rand::SetSeed(seed);
  BinnedED e = s.g.PoissonFluctuatedED();
  check(e.GetBinContents() == d.GetBinContents(), "reproducible", "another distribution from the same seed");
  if (one)
  { // its total is the number drawn
    Rand::SetSeed(seed);
    double n = Rand::Poisson(s.rates[0]);
    check(d.Integral() == n, "poisson-drawn", d.Integral(), " events, ", n, " drawn");
  }
  c.count("Poisson distributions");
  c.sig(cat(s.ac.GetNBins(), str(s.rates), seed));
}

SCENARIO(refused, 8)
{
  Rng &r = c.r;
  Free f;
  Setup s;
  genSetup(r, s);
  switch (r.ri(0, 6))
  {
  case 0:
    s.rates.push_back(1);
    s.g.SetRates(s.rates);
    break;
  case 1:
    s.rates.pop_back();
    s.g.SetRates(s.rates);
    break;
  case 2:
    s.g.SetPdfs({}), s.g.SetRates({});
    s.pdfs.clear(), s.rates.clear();
    break;
  case 3:
    s.rates[size_t(r.ri(0, long(s.rates.size()) - 1))] = -r.uni(0.6, 5);
    s.g.SetRates(s.rates);
    break;
  case 4:
  case 5:
  { // nothing to draw from, or less than nothing
    size_t i = size_t(r.ri(0, long(s.rates.size()) - 1));
    std::vector<double> x(s.ac.GetNBins(), 0.0);
    if (r.coin())
    {
      x = s.pdfs[i].GetBinContents();
      x[size_t(r.ri(0, long(x.size()) - 1))] = -1;
    }
    s.pdfs[i].SetBinContents(x);
    s.rates[i] = double(r.ri(100, 200)); // Poisson: never none
    s.g.SetPdfs(s.pdfs), s.g.SetRates(s.rates);
    break;
  }
  default:
  { // another binning
    AxisCollection o;
    for (size_t k = 0; k < s.names.size(); ++k)
      o.AddAxis(BinAxis(s.names[k], 17, 23, 5 + unsigned(r.ri(0, 3))));
    s.pdfs.push_back(genPdf(r, o, s.names, "other")), s.rates.push_back(double(r.ri(100, 200)));
    if (r.coin())
      std::swap(s.pdfs[0], s.pdfs.back()), std::swap(s.rates[0], s.rates.back());
    s.g.SetPdfs(s.pdfs), s.g.SetRates(s.rates);
  }
  }
  REFUSED("setup-refused", s.g.ExpectedRatesED());
  REFUSED("setup-refused", s.g.PoissonFluctuatedED("x"));
  unchanged(s);
}

// in proportion to each pdf
SCENARIO(frequencies, 3)
{
  Rng &r = c.r;
  Free f;
  Setup s;
  genSetup(r, s, 20);
  double n = 20000;
  // one block of bins per source: what came from where can be told
  for (size_t k = 0; k < s.pdfs.size(); ++k)
  {
    std::vector<double> x = s.pdfs[k].GetBinContents();
    s.rates[k] = s.pdfs.size() > 1 && r.coin(0.3) ? std::floor(n / 3) : n;
    s.pdfs[k].SetBinContents(x);
  }
  s.g.SetPdfs(s.pdfs), s.g.SetRates(s.rates);
  BinnedED d = s.g.ExpectedRatesED();
  shape(c, s, d, "the expected distribution");
  double total = 0;
  for (double x : s.rates)
    total += x;
  for (size_t i = 0; i < d.GetNBins(); ++i)
  {
    double mean = 0;
    for (size_t k = 0; k < s.pdfs.size(); ++k)
      mean += s.rates[k] * s.pdfs[k].GetBinContent(i) / s.pdfs[k].Integral();
    frequency(d.GetBinContent(i), mean / total, total, "frequency", cat("bin ", i));
  }
}

SCENARIO(poissonCounts, 2)
{
  Rng &r = c.r;
  Free f;
  // two sources in bins of their own: the numbers of each are Poisson, and independent
  AxisCollection ac;
  ac.AddAxis(BinAxis("x", 0, 2, 2));
  std::vector<BinnedED> p;
  for (int k = 0; k < 2; ++k)
  {
    p.push_back(BinnedED(cat("p", k), ac));
    p.back().SetObservables({"x"});
    p.back().SetBinContent(size_t(k), 3);
  }
  std::vector<double> m{r.uni(0.2, 20), r.uni(0.2, 20)};
  BinnedEDGenerator g;
  g.SetPdfs(p), g.SetRates(m);
  int runs = 1000;
  double s[2] = {0, 0}, q[2] = {0, 0}, xy = 0;
  for (int i = 0; i < runs; ++i)
  {
    BinnedED d = g.PoissonFluctuatedED();
    double x[2] = {d.GetBinContent(0), d.GetBinContent(1)};
    for (int k = 0; k < 2; ++k)
      s[k] += x[k], q[k] += (x[k] - m[size_t(k)]) * (x[k] - m[size_t(k)]);
    xy += (x[0] - m[0]) * (x[1] - m[1]);
  }
  for (size_t k = 0; k < 2; ++k)
  {
    check(std::fabs(s[k] / runs - m[k]) < 9 * std::sqrt(m[k] / runs), "poisson-mean", "mean ", s[k] / runs, " for rate ", m[k]);
    double err = std::sqrt((m[k] + 2 * m[k] * m[k]) / runs); // of the variance
    check(std::fabs(q[k] / runs - m[k]) < 10 * err, "poisson-variance", "variance ", q[k] / runs, " for rate ", m[k]);
  }
  check(std::fabs(xy / runs) < 9 * std::sqrt(m[0] * m[1] / runs), "poisson-independent", "covariance ", xy / runs);
  c.count("Poisson series");
}

SCENARIO(draws, 20)
{
  Rng &r = c.r;
  Free f;
  int kind = int(r.ri(0, 3));
  script(r, kind);
  double a = r.value(-10, 10), b = a + (r.coin(0.1) ? 0 : r.uni(0.01, 20)), m = r.uni(0.01, 50);
  int n = int(r.coin() ? r.ri(1, 5) : r.ri(1, 2000));
  for (int i = 0; i < 60; ++i)
  {
    double u = Rand::Uniform();
    check(u >= 0 && u <= 1, "uniform", "drew ", u);
    u = Rand::Uniform(m);
    check(u >= 0 && u <= m, "uniform", "drew ", u, " up to ", m);
    u = Rand::UniformRange(a, b);
    check(u >= a - 1e-12 * std::fabs(a) - 1e-15 && u <= b + 1e-12 * std::fabs(b), "range", "drew ", u, " in ", a, "..", b);
    u = Rand::UniformRange();
    check(u >= 0 && u <= 1, "range", "drew ", u, " in 0..1");
    int k = Rand::Shoot(n);
    check(k >= 0 && k < n, "shoot", "drew ", k, " of ", n);
  }
  c.count("draws", 300);
  // the same seed, the same numbers
  script(r, 0);
  unsigned seed = unsigned(r.ri(1, 1 << 30));
  std::vector<double> x, y;
  for (auto *v : {&x, &y})
  {
    Rand::SetSeed(seed);
    for (int i = 0; i < 20; ++i)
    {
      v->push_back(Rand::Uniform());
      v->push_back(Rand::Gaus(a, m));
      v->push_back(Rand::Poisson(m));
      v->push_back(Rand::Shoot(n));
    }
  }
  check(x == y, "seed", "the same seed gave other numbers");
  check(std::set<double>(x.begin(), x.end()).size() > 10, "seed", "always the same number");
  c.sig(cat(kind, a, b, n));
}

SCENARIO(drawFrequencies, 2)
{
  Rng &r = c.r;
  Free f;
  double a = r.uni(-10, 10), b = a + r.uni(0.01, 20), m = r.uni(0.1, 30), sd = r.uni(0.1, 5), mean = r.uni(-5, 5);
  int n = int(r.ri(1, 12));
  double N = 20000;
  std::vector<double> u(10, 0.0), w(10, 0.0), rg(10, 0.0), s(size_t(n), 0.0), g(8, 0.0);
  double ps = 0, pq = 0;
  for (int i = 0; i < int(N); ++i)
  {
    u[std::min<size_t>(9, size_t(10 * Rand::Uniform()))]++;
    w[std::min<size_t>(9, size_t(10 * Rand::Uniform(m) / m))]++;
    rg[std::min<size_t>(9, size_t(10 * (Rand::UniformRange(a, b) - a) / (b - a)))]++;
    s[size_t(Rand::Shoot(n))]++;
    double z = (Rand::Gaus(mean, sd) - mean) / sd;
    g[size_t(std::max(0.0, std::min(7.0, std::floor(z + 4))))]++;
    double p = Rand::Poisson(m);
    ps += p, pq += (p - m) * (p - m);
  }
  for (size_t i = 0; i < 10; ++i)
  {
    frequency(u[i], 0.1, N, "uniform-frequency", "a tenth of 0..1");
    frequency(w[i], 0.1, N, "uniform-frequency", "a tenth of the range");
    frequency(rg[i], 0.1, N, "range-frequency", "a tenth of the range");
  }
  for (int i = 0; i < n; ++i)
    frequency(s[size_t(i)], 1.0 / n, N, "shoot-frequency", cat(i, " of ", n));
  auto cdf = [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); };
  for (int i = 0; i < 8; ++i)
    frequency(g[size_t(i)], (i == 7 ? 1 : cdf(i - 3.0)) - (i == 0 ? 0 : cdf(i - 4.0)), N, "normal-frequency", cat(i - 4, " to ", i - 3, " sigma"));
  check(std::fabs(ps / N - m) < 9 * std::sqrt(m / N), "poisson-numbers", "mean ", ps / N, " for ", m);
  check(std::fabs(pq / N - m) < 10 * std::sqrt((m + 2 * m * m) / N), "poisson-numbers", "variance ", pq / N, " for ", m);
  c.count("frequency series");
}

SCENARIO(acceptReject, 10)
{
  Rng &r = c.r;
  Free f;
  Shape s;
  int n = int(r.ri(1, 8));
  s.e = genEdges(r, n);
  double top = 0;
  do
  {
    s.v.clear();
    for (int i = 0; i < n; ++i)
      s.v.push_back(r.coin(0.3) ? 0 : r.uni(0.2, 5));
    top = *std::max_element(s.v.begin(), s.v.end());
  } while (top <= 0);
  double yMax = r.coin() ? top : top * r.uni(1, 3), lo = s.e.front(), hi = s.e.back();
  bool many = r.coin(0.1);
  script(r, many ? 0 : r.coin() ? 0 : 3);
  double N = many ? 5000 : 20;
  std::vector<double> seen(size_t(n), 0.0);
  for (int i = 0; i < int(N); ++i)
  {
    double x = Rand::VonNeumannSample(&s, lo, hi, yMax);
    check(x >= lo && x <= hi, "accept-reject-range", "drew ", x, " outside ", lo, "..", hi);
    size_t b = modelFind(s.e, x);
    check(s.v[b] > 0, "accept-reject-support", "drew ", x, " where the function is zero");
    seen[b]++;
  }
  if (many)
  {
    double norm = 0;
    for (size_t i = 0; i < size_t(n); ++i)
      norm += s.v[i] * (s.e[i + 1] - s.e[i]);
    for (size_t i = 0; i < size_t(n); ++i)
      frequency(seen[i], s.v[i] * (s.e[i + 1] - s.e[i]) / norm, N, "accept-reject-frequency", cat(s.e[i], " to ", s.e[i + 1]));
    // within a bin too
    c.count("accept-reject series");
  }
  c.count("accepted", uint64_t(N));
  REFUSED("accept-reject-refused", Rand::VonNeumannSample(&s, hi, lo, yMax));
  REFUSED("accept-reject-refused", Rand::VonNeumannSample(&s, lo, lo, yMax));
  REFUSED("accept-reject-refused", Rand::VonNeumannSample(&s, lo, hi, r.coin() ? 0 : -yMax));
  Gaussian two(2, "two");
  REFUSED("accept-reject-refused", Rand::VonNeumannSample(&two, lo, hi, 1));
  c.sig(cat(n, many, str(s.v)));
}

// a continuous density
SCENARIO(acceptRejectNormal, 1)
{
  Rng &r = c.r;
  Free f;
  double m = r.uni(-3, 3), sd = r.uni(0.2, 2), lo = m - sd * r.uni(0, 4), hi = m + sd * r.uni(0.3, 4);
  Gaussian g(m, sd, "g");
  auto cdf = [&](double x) { return 0.5 * std::erfc(-(x - m) / sd / std::sqrt(2.0)); };
  double top = g({m}), N = 5000;
  std::vector<double> seen(6, 0.0);
  for (int i = 0; i < int(N); ++i)
  {
    double x = Rand::VonNeumannSample(&g, lo, hi, top);
    check(x >= lo && x <= hi, "accept-reject-range", "drew ", x, " outside ", lo, "..", hi);
    seen[std::min<size_t>(5, size_t(6 * (x - lo) / (hi - lo)))]++;
  }
  for (int i = 0; i < 6; ++i)
    frequency(seen[size_t(i)], (cdf(lo + (hi - lo) * (i + 1) / 6) - cdf(lo + (hi - lo) * i / 6)) / (cdf(hi) - cdf(lo)), N, "accept-reject-frequency", "a sixth of the range");
  c.count("accept-reject series");
}
