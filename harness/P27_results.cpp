// P27: autocorrelation calculator and fit results.
#include "gen.h"
#include <AutoCorrelationCalc.h>
#include <FitResult.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace oxv;
PLAN("P27", 140000, 3500000,
     "Calculators of window 1..200 filled with 0..300 values (constant, alternating, drifting, walking, random, staying put, huge offsets) "
     "with clears, copies and reads in between, compared with sums kept outside; histories of 1..25 setters, copies, "
     "assignments (also to itself), moves out of scope and reads on up to 3 fit results, and their text and files parsed "
     "back. Distinct = (window, number of fills, clears, kind) and (operations used).")

namespace
{
struct Model
{
  size_t q;
  std::vector<double> all; // since the last clear
  std::vector<long double> diff, norm;
  long double big = 0;
  explicit Model(size_t n) : q(n), diff(n, 0), norm(n, 0) {}
  std::vector<double> window() const
  {
    return std::vector<double>(all.size() > q ? all.end() - long(q) : all.begin(), all.end());
  }
  static long double mean(const std::vector<double> &w)
  {
    long double s = 0;
    for (double x : w)
      s += x;
    return s / (long double)w.size();
  }
  void fill(double v)
  {
    all.push_back(v);
    big = std::max<long double>(big, std::fabs(v));
    auto w = window();
    long double m = mean(w);
    for (size_t lag = 0; lag < w.size(); ++lag)
    {
      diff[lag] += (v - m) * (w[w.size() - 1 - lag] - m);
      norm[lag] += (v - m) * (v - m);
    }
  }
};
void compare(const AutoCorrelationCalc &a, const Model &m)
{
  auto got = a.Get();
  check(got.size() == m.q, "size", got.size(), " coefficients for a window of ", m.q);
  auto w = m.window();
  for (size_t lag = 0; lag < m.q; ++lag)
  {
    double tol = 1e-9 + double(1e-11L * m.big * m.big * (long double)(m.all.size() + 1) / (m.norm[lag] > 0 ? m.norm[lag] : 1e-300L));
    if (lag >= w.size())
    {
      check(std::isnan(got[lag]) || got[lag] == 0, "unreached-lag", "coefficient ", lag, " is ", got[lag], " after ", w.size(), " values");
      continue;
    }
    if (!(m.norm[lag] > 0) || tol > 1e-3)
      continue; // nothing but rounding
    double want = double(m.diff[lag] / m.norm[lag]);
    check(std::fabs(got[lag] - want) <= tol * (1 + std::fabs(want)), lag ? "coefficient" : "first-coefficient", "lag ", lag, ": got ", got[lag],
          " want ", want, " after ", m.all.size(), " values");
    if (lag == 0)
      check(std::fabs(got[0] - 1) <= tol, "first-coefficient", "the coefficients start at ", got[0]);
    current()->count("coefficients");
  }
  if (w.size())
  {
    long double mu = Model::mean(w), v = 0, big = 0;
    for (double x : w)
      v += (x - mu) * (x - mu), big = std::max<long double>(big, std::fabs(x));
    near(a.Mean(), double(mu), "mean", 1e-12, double(big));
    near(a.Var(), double(v / (long double)w.size()), "variance", 1e-11, double(big * big));
  }
}
std::string scratch()
{
  static std::string dir;
  if (dir.empty())
  {
    char b[] = "/tmp/oxv_p27_XXXXXX";
    if (!mkdtemp(b))
      throw std::runtime_error("no scratch directory");
    dir = b;
    std::atexit([] { unlink((dir + "/result.txt").c_str()), rmdir(dir.c_str()); });
  }
  return dir;
}
} // namespace

SCENARIO(autocorrelation, 6)
{
  Rng &r = c.r;
  size_t q = size_t(r.coin(0.2) ? 1 : r.coin(0.1) ? r.ri(61, 200) : r.ri(2, 60));
  double stay = r.coin(0.3) ? r.uni(0.1, 0.9) : 0; // as a chain that rejects
  AutoCorrelationCalc a(q);
  Model m(q);
  std::vector<std::pair<AutoCorrelationCalc, Model>> kept;
  int kind = int(r.ri(0, 5)), clears = 0;
  double off = r.pick<double>({0, 0, 1, -50, 1e5}), x = off;
  int n = int(r.coin(0.1) ? r.ri(0, 3) : r.ri(1, 300));
  LOG << "window " << q << " kind " << kind << " offset " << off;
  for (int i = 0; i < n; ++i)
  {
    double v = kind == 0   ? off
               : kind == 1 ? off + (i % 2 ? 1 : -1)
               : kind == 2 ? off + 0.1 * i
               : kind == 3 ? (x += r.uni(-1, 1))
               : kind == 4 ? off + r.gaus()
                           : double(r.ri(-3, 3));
    if (m.all.size() && r.coin(stay))
      v = m.all.back();
    a.Fill(v), m.fill(v);
    if (n < 40)
      LOG << "fill " << v;
    if (r.coin(0.03))
      compare(a, m);
    if (r.coin(0.005) && ++clears)
    {
      LOG << "clear";
      a.Clear(), m = Model(q);
    }
    if (r.coin(0.01))
      kept.push_back({a, m});
    if (kept.size() && r.coin(0.1))
    { // a copy goes its own way
      size_t k = size_t(r.ri(0, long(kept.size()) - 1));
      double y = off + r.uni(-2, 2);
      kept[k].first.Fill(y), kept[k].second.fill(y);
    }
  }
  compare(a, m);
  for (auto &k : kept)
    compare(k.first, k.second);
  // as does a new calculator given only the values since the last clear
  AutoCorrelationCalc fresh(q);
  for (double v : m.all)
    fresh.Fill(v);
  auto g = a.Get(), h = fresh.Get();
  for (size_t i = 0; i < q; ++i)
    check(close(g[i], h[i], 1e-12), "history", "coefficient ", i, " remembers values from before the clear: ", g[i], " and ", h[i]);
  c.sig(mix(q * 7 + kind) ^ mix(n * 3 + clears));
}

namespace
{
struct Want
{
  ParameterDict best;
  std::vector<std::vector<double>> sample;
  std::unique_ptr<Histogram> space;
  std::map<std::string, Histogram> one, two;
  double extreme = 0;
  std::vector<std::vector<double>> cov;
  size_t precision = 5;
  bool valid = true;
  Want() = default;
  Want(const Want &o) { *this = o; }
  Want &operator=(const Want &o)
  {
    if (this == &o)
      return *this;
    best = o.best, sample = o.sample, one = o.one, two = o.two, extreme = o.extreme, cov = o.cov, precision = o.precision, valid = o.valid;
    space.reset(o.space ? new Histogram(*o.space) : nullptr);
    return *this;
  }
};
void same(const Histogram &g, const Histogram &w, const std::string &key)
{
  check(g.GetNBins() == w.GetNBins() && g.GetNDims() == w.GetNDims() && g.GetBinContents() == w.GetBinContents() && g.GetAxisNames() == w.GetAxisNames(),
        key, "differs from the histogram that was set");
  for (size_t b = 0; b < w.GetNBins(); ++b)
    for (size_t d = 0; d < w.GetNDims(); ++d)
      check(g.GetBinLowEdge(b, d) == w.GetBinLowEdge(b, d) && g.GetBinHighEdge(b, d) == w.GetBinHighEdge(b, d), key, "other edges");
}
void same(const HistMap &g, const HistMap &w, const std::string &key)
{
  check(g.size() == w.size(), key, g.size(), " projections, ", w.size(), " were set");
  for (auto &x : w)
  {
    check(g.count(x.first), key, "no projection ", x.first);
    same(g.at(x.first), x.second, key);
  }
}
void text(const std::string &t, const Want &w)
{
  // every parameter on a line of its own: name, then value
  std::istringstream in(t);
  std::map<std::string, std::string> seen;
  std::string line;
  bool listing = false;
  while (std::getline(in, line))
  {
    if (line.find("Best Fit") != std::string::npos)
    {
      listing = true;
      continue;
    }
    std::istringstream l(line);
    std::string n, v, rest;
    if (!listing || !(l >> n >> v) || (l >> rest))
      continue;
    check(!seen.count(n), "text", n, " is listed twice");
    seen[n] = v;
  }
  for (auto &p : w.best)
  {
    check(seen.count(p.first), "text", p.first, " is not listed in\n", t);
    std::ostringstream o;
    o.precision(long(w.precision));
    o << p.second;
    check(seen[p.first] == o.str(), "text", p.first, " is listed as ", seen[p.first], ", with precision ", w.precision, " it is ", o.str());
  }
  check(seen.size() == w.best.size(), "text", seen.size(), " parameters listed, ", w.best.size(), " are set");
  current()->count("listings");
}
void compare(const FitResult &f, const Want &w)
{
  check(f.GetBestFit() == w.best, "best-fit", "another best fit than was set");
  check(f.GetExtremeVal() == w.extreme, "extreme", f.GetExtremeVal(), " instead of ", w.extreme);
  check(f.GetValid() == w.valid, "valid", f.GetValid());
  check(f.GetStatSample() == w.sample, "sample", "another sample than was set");
  check(f.GetPrintPrecision() == w.precision, "precision", f.GetPrintPrecision(), " instead of ", w.precision);
  same(f.Get1DProjections(), w.one, "projections");
  same(f.Get2DProjections(), w.two, "projections");
  if (w.space)
    same(f.GetStatSpace(), *w.space, "stat-space");
  else
    REFUSED("stat-space", f.GetStatSpace());
  DenseMatrix m = f.GetCovarianceMatrix();
  try
  {
    m.GetComponent(w.cov.size(), 0);
    fail("covariance", cat("more than ", w.cov.size(), " rows"));
  }
  catch (const OXSXException &)
  {
  }
  for (size_t i = 0; i < w.cov.size(); ++i)
    for (size_t j = 0; j < w.cov.size(); ++j)
      check(m.GetComponent(i, j) == w.cov[i][j], "covariance", "element ", i, ",", j);
}
HistMap genMap(Rng &r, int nd)
{
  HistMap m;
  int n = int(r.ri(0, 3));
  for (int i = 0; i < n; ++i)
    m[cat("p", i, nd)] = genHist(r, genAxes(r, genNames(r, nd), 12));
  return m;
}
} // namespace

SCENARIO(results, 4)
{
  Rng &r = c.r;
  std::vector<std::pair<std::unique_ptr<FitResult>, Want>> v;
  v.emplace_back(new FitResult, Want());
  std::string ops;
  int n = int(r.ri(1, 25));
  for (int i = 0; i < n; ++i)
  {
    size_t k = size_t(r.ri(0, long(v.size()) - 1));
    FitResult &f = *v[k].first;
    Want &w = v[k].second;
    int op = int(r.ri(0, 14));
    ops += char('a' + op);
    switch (op)
    {
    case 0:
    case 1:
    {
      ParameterDict p;
      for (auto &x : genNames(r, int(r.ri(0, 5))))
        p[r.coin(0.2) ? x + std::string(size_t(r.ri(1, 60)), '_') : x] = r.coin(0.1) ? 1e300 * r.uni(-1, 1) : r.coin(0.2) ? double(r.ri(-5, 5)) : r.coin(0.2) ? r.uni(-1, 1) * 1e-7 : r.uni(-1e6, 1e6);
      f.SetBestFit(p), w.best = p;
      break;
    }
    case 2:
      w.extreme = r.coin(0.1) ? -std::numeric_limits<double>::infinity() : r.uni(-1e4, 1e4);
      f.SetExtremeVal(w.extreme);
      break;
    case 3:
    {
      Histogram h = genHist(r, genAxes(r, genNames(r, int(r.ri(1, 3))), 30));
      f.SetStatSpace(h), w.space.reset(new Histogram(h));
      if (r.coin(0.2)) // with its own
        f.SetStatSpace(f.GetStatSpace());
      break;
    }
    case 4:
      w.sample.assign(size_t(r.ri(0, 5)), std::vector<double>(size_t(r.ri(0, 3)), r.uni()));
      f.SetStatSample(w.sample);
      break;
    case 5:
      w.valid = r.coin(), f.SetValid(w.valid);
      break;
    case 6:
      w.precision = size_t(r.ri(1, 17)), f.SetPrintPrecision(w.precision);
      break;
    case 7:
      w.one = genMap(r, 1), f.Set1DProjections(w.one);
      break;
    case 8:
      w.two = genMap(r, 2), f.Set2DProjections(w.two);
      break;
    case 9:
    {
      size_t d = size_t(r.ri(1, 4));
      DenseMatrix m(d, d);
      w.cov.assign(d, std::vector<double>(d));
      for (size_t a = 0; a < d; ++a)
        for (size_t b = 0; b < d; ++b)
          m.SetComponent(a, b, w.cov[a][b] = r.uni(-3, 3));
      f.SetCovarianceMatrix(m);
      break;
    }
    case 10:
      if (v.size() < 3)
      {
        std::unique_ptr<FitResult> g(new FitResult(f));
        Want ww = w;
        v.emplace_back(std::move(g), ww);
      }
      break;
    case 11:
    {
      size_t j = size_t(r.ri(0, long(v.size()) - 1));
      *v[j].first = f;
      v[j].second = w;
      break;
    }
    case 12:
      if (v.size() > 1)
        v.erase(v.begin() + long(k));
      break;
    case 13:
      text(f.AsString(), w);
      if (r.coin(0.3))
        text(printed([&] { f.Print(); }), w);
      break;
    case 14:
    {
      std::string name = scratch() + "/result.txt";
      f.SaveAs(name);
      std::ifstream in(name);
      check(bool(in), "file", "nothing was saved");
      std::ostringstream o;
      o << in.rdbuf();
      text(o.str(), w);
      if (r.coin(0.2))
        REFUSED("unwritable", f.SaveAs(scratch() + "/no/such/folder.txt"));
      break;
    }
    }
    if (r.coin(0.2))
      for (auto &x : v)
        compare(*x.first, x.second);
  }
  for (auto &x : v)
    compare(*x.first, x.second), text(x.first->AsString(), x.second);
  c.sig(ops);
}
