// P37: the gradient minimiser's wrapper.
// OXV_NEEDS_ROOT: the minimiser
#include "gen.h"
#include <BinnedNLLH.h>
#include <FitResult.h>
#include <Minuit.h>
#include <Minuit2/oxv_minuit.h>
#include <ParameterDict.h>
#include <TestStatistic.h>
using namespace oxv;
PLAN("P37", 12000, 300000,
     "Histories of 1..6 fits with one wrapper, reconfigured in between (values, errors, limits for none, some or all parameters, fixed and released "
     "parameters, method, direction, call limit, tolerance, strategy, contour edge, also after refused and interrupted fits and through copies), of "
     "coupled quadratic statistics of 1..8 oddly named parameters and of a binned likelihood; a stand-in minimiser records what reaches it and every point it "
     "tries, the statistic every point it is set to. Distinct = (parameters, limits, fixed, method, direction).")

namespace
{
typedef std::vector<double> V;
namespace M2 = ROOT::Minuit2;

struct Quad : TestStatistic
{
  std::set<std::string> names;
  ParameterDict centre, weight, now;
  double mix = 0, sign = 1, offset = 0;
  int registered = 0;
  std::vector<ParameterDict> set;
  V value;
  long throwAt = -1;
  bool badSet = false;
  static double f(const ParameterDict &c, const ParameterDict &w, double mix, const ParameterDict &x)
  {
    double s = 0, last = 0;
    for (auto &p : x)
    {
      double d = p.second - c.at(p.first);
      s += w.at(p.first) * d * d + mix * d * last;
      last = d;
    }
    return s;
  }
  double at(const ParameterDict &x) const { return offset + sign * f(centre, weight, mix, x); }
  double Evaluate()
  {
    if (throwAt >= 0 && long(value.size()) >= throwAt)
      throw ValueError("interrupted");
    check(registered > 0, "registered", "evaluated before its components were registered");
    value.push_back(at(now));
    if (set.size() < value.size())
      fail("set", "evaluated without being set first");
    return value.back();
  }
  size_t GetParameterCount() const { return names.size(); }
  void SetParameters(const ParameterDict &p)
  {
    std::set<std::string> k;
    for (auto &x : p)
      k.insert(x.first);
    if (k != names)
      fail("set-names", cat("set with ", str(std::vector<std::string>(k.begin(), k.end())), " for ", str(std::vector<std::string>(names.begin(), names.end()))));
    now = p;
    set.push_back(p);
    if (set.size() > value.size() + 1) // set again before being evaluated: only the last setting counts
      set.erase(set.end() - 2);
  }
  ParameterDict GetParameters() const { return now; }
  std::set<std::string> GetParameterNames() const { return registered ? names : std::set<std::string>(); }
  void RegisterFitComponents() { ++registered; }
};

struct Config
{
  ParameterDict init, err, lo, hi;
  std::set<std::string> fixed;
  std::string method = "Migrad";
  bool maximise = false;
  unsigned calls = 0;
  double tol = 0.1, up = 0.5;
  int strategy = 2;
};
std::vector<std::string> parameterNames(Rng &r)
{
  static const std::vector<std::string> pool = {"a", "a1", "a10", "a2", "B", "b", "bg_norm", "bg", "Z", "z_", "_", "scale factor", "0", "-1", "A", "energy scale", "~", "shift", "#mu"};
  return subset(r, pool, size_t(r.coin(0.2) ? 1 : r.ri(2, r.coin(0.1) ? 19 : 8)));
}
Quad genQuad(Rng &r, const std::vector<std::string> &names)
{
  Quad q;
  q.names = std::set<std::string>(names.begin(), names.end());
  for (auto &n : names)
    q.centre[n] = r.uni(-4, 4), q.weight[n] = r.uni(0.5, 4);
  q.mix = r.coin() ? 0 : r.uni(-0.5, 0.5);
  q.offset = r.value(-20, 20);
  return q;
}
void genValues(Rng &r, const std::vector<std::string> &names, Config &k)
{
  k.init.clear();
  k.err.clear();
  for (auto &n : names)
    k.init[n] = r.coin(0.1) ? double(r.ri(-3, 3)) + 1e-3 * r.uni() : r.uni(-6, 6), k.err[n] = r.uni(0.01, 2);
}
void genLimits(Rng &r, const std::vector<std::string> &names, Config &k)
{
  k.lo.clear();
  k.hi.clear();
  double p = r.coin(0.3) ? 1 : r.coin(0.3) ? 0 : r.uni();
  for (auto &n : names)
    if (r.coin(p))
    {
      double lo = k.init.at(n) - (r.coin(0.1) ? 0 : r.uni(0.01, 8)), hi = k.init.at(n) + r.uni(0.01, 8);
      k.lo[n] = lo;
      k.hi[n] = hi;
    }
}
std::set<std::string> genFixed(Rng &r, const std::vector<std::string> &names)
{
  std::set<std::string> s;
  if (r.coin())
    for (auto &n : names)
      if (r.coin(0.4))
        s.insert(n);
  if (s.size() == names.size())
    s.erase(s.begin());
  return s;
}
void apply(Minuit &m, const Config &k, const std::set<std::string> &wasFixed)
{
  m.SetInitialValues(k.init);
  m.SetInitialErrors(k.err);
  m.SetMinima(k.lo);
  m.SetMaxima(k.hi);
  for (auto &n : wasFixed)
    if (!k.fixed.count(n))
      m.Release(n);
  for (auto &n : k.fixed)
    m.Fix(n);
  m.SetMethod(k.method);
  m.SetMaximising(k.maximise);
  m.SetMaxCalls(k.calls);
  m.SetTolerance(k.tol);
  m.SetUpperContourEdge(k.up);
  m.SetStrategy(k.strategy);
}
void holds(const Minuit &m, const Config &k, const std::string &when)
{
  check(m.GetMinima() == k.lo && m.GetMaxima() == k.hi, "configuration", "limits changed ", when);
  check(m.GetMethod() == k.method && m.GetMaximising() == k.maximise && m.GetMaxCalls() == k.calls && m.GetTolerance() == k.tol && m.GetStrategy() == k.strategy,
        "configuration", "changed ", when);
  check(m.GetUpperContourEdge() == k.up, "configuration", "contour edge ", m.GetUpperContourEdge(), " not ", k.up, " ", when);
}
std::string describe(const Config &k)
{
  std::string s = k.method + (k.maximise ? " up" : " down");
  for (auto &p : k.init)
    s += cat(" ", p.first, "=", p.second, "+-", k.err.at(p.first), k.fixed.count(p.first) ? " fixed" : "", k.lo.count(p.first) ? cat(" in ", k.lo.at(p.first), "..", k.hi.at(p.first)) : "");
  return s;
}
// which parameter the minimiser holds at each place, told apart by their initial values
std::vector<std::string> order(const Config &k, const M2::Record &rec)
{
  check(rec.init.size() == k.init.size() && rec.err.size() == k.init.size(), "parameters", rec.init.size(), " parameters reached the minimiser");
  std::vector<std::string> o;
  std::set<std::string> seen;
  for (double v : rec.init)
  {
    std::string found;
    for (auto &p : k.init)
      if (p.second == v)
        found = p.first;
    if (!seen.insert(found).second || found == "")
      fail("initial-values", cat("the minimiser starts at ", str(rec.init)));
    o.push_back(found);
  }
  return o;
}
// what reached the minimiser is what was asked for
std::vector<std::string> reached(const Config &k)
{
  const M2::Record &rec = M2::last();
  std::vector<std::string> o = order(k, rec);
  for (size_t i = 0; i < o.size(); ++i)
  {
    check(rec.err[i] == k.err.at(o[i]), "initial-errors", rec.err[i], " for ", o[i], " not ", k.err.at(o[i]));
    check(rec.lim[i] == (k.lo.count(o[i]) > 0), "limited", o[i], rec.lim[i] ? " is limited" : " is not limited");
    if (rec.lim[i])
      check(rec.lo[i] == k.lo.at(o[i]) && rec.hi[i] == k.hi.at(o[i]), "limits", rec.lo[i], "..", rec.hi[i], " for ", o[i]);
    check(rec.fixed[i] == (k.fixed.count(o[i]) > 0), "fixed", o[i], rec.fixed[i] ? " is fixed" : " is not fixed");
  }
  check(rec.method == k.method, "method", rec.method, " not ", k.method);
  check(rec.maxcalls == k.calls && rec.tol == k.tol && rec.strategy == k.strategy, "settings", rec.maxcalls, " ", rec.tol, " ", rec.strategy);
  check(rec.up == k.up, "contour-edge", rec.up, " not ", k.up);
  return o;
}
ParameterDict named(const std::vector<std::string> &o, const V &v)
{
  ParameterDict d;
  for (size_t i = 0; i < o.size(); ++i)
    d[o[i]] = v.at(i);
  return d;
}
void result(const FitResult &f, const Config &k, const std::vector<std::string> &o, const std::string &what)
{
  const M2::Record &rec = M2::last();
  check(f.GetBestFit() == named(o, rec.fin), "best-fit", what, " differs from the minimiser's final values");
  check(f.GetExtremeVal() == (k.maximise ? -rec.fval : rec.fval), "extreme", what, " ", f.GetExtremeVal(), " with minimum ", rec.fval);
  check(f.GetValid() == M2::next().ok, "valid", what);
  DenseMatrix m = f.GetCovarianceMatrix();
  size_t n = 0;
  for (bool b : rec.fixed)
    n += !b;
  check(m(V(n, 1.0)).size() == n, "covariance-size", "not ", n, " rows");
  REFUSED("covariance-size", m.GetComponent(n, 0));
  REFUSED("covariance-size", m.GetComponent(0, n));
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
    {
      size_t hi = std::max(i, j), lo = std::min(i, j);
      check(m.GetComponent(i, j) == rec.cov.at(lo + hi * (hi + 1) / 2), "covariance", what, " at ", i, ",", j, ": ", m.GetComponent(i, j));
    }
}
void script(Rng &r)
{
  M2::Script &s = M2::next();
  s.ok = r.coin(0.7);
  s.rounds = int(r.ri(1, 25));
  s.cov.clear();
  for (int i = 0; i < 190; ++i)
    s.cov.push_back(r.uni(-2, 5));
}
void fitAndJudge(Minuit &m, Quad &q, const Config &k)
{
  q.set.clear();
  q.value.clear();
  q.sign = k.maximise ? -1 : 1;
  const FitResult &f = m.Optimise(&q);
  const M2::Record &rec = M2::last();
  auto o = reached(k);
  check(rec.tried.size() == q.value.size() && rec.tried.size() == q.set.size(), "trials", rec.tried.size(), " points tried, ", q.set.size(), " set and ", q.value.size(), " evaluated");
  for (size_t i = 0; i < rec.tried.size(); ++i)
  {
    check(q.set[i] == named(o, rec.tried[i].first), "trial-names", "trial ", i, " at ", str(rec.tried[i].first));
    check(rec.tried[i].second == (k.maximise ? -1 : 1) * q.value[i], "trial-sign", "the minimiser got ", rec.tried[i].second, " where the statistic is ", q.value[i]);
  }
  result(f, k, o, "the result");
  result(m.GetFitResult(), k, o, "the result kept");
  near(f.GetExtremeVal(), q.at(f.GetBestFit()), "extreme-there", 1e-12, 0, "at the best fit");
  for (auto &n : k.fixed)
    check(f.GetBestFit().at(n) == k.init.at(n), "fixed-moved", n);
  for (auto &p : k.lo)
    check(f.GetBestFit().at(p.first) >= p.second && f.GetBestFit().at(p.first) <= k.hi.at(p.first), "left-limits", p.first);
  double start = q.at(k.init);
  check(k.maximise ? f.GetExtremeVal() >= start : f.GetExtremeVal() <= start, "direction", f.GetExtremeVal(), " from ", start);
  holds(m, k, "by the fit");
}
} // namespace

SCENARIO(histories, 8)
{
  std::unique_ptr<Minuit> m(new Minuit);
  std::set<std::string> wasFixed;
  auto names = parameterNames(c.r);
  Quad q = genQuad(c.r, names);
  Config k;
  genValues(c.r, names, k);
  bool first = true, defaults = c.r.coin(0.2); // leave what has defaults alone in the first fit
  for (long fit = c.r.ri(1, 6); fit > 0; --fit)
  {
    script(c.r);
    if (!first && c.r.coin(0.2))
    { // another statistic with other parameters
      names = parameterNames(c.r);
      q = genQuad(c.r, names);
      genValues(c.r, names, k);
      k.lo.clear();
      k.hi.clear();
      k.fixed.clear();
    }
    if (first && defaults)
    {
      m->SetInitialValues(k.init);
      m->SetInitialErrors(k.err);
    }
    else
    {
      if (c.r.coin(0.4))
      {
        genValues(c.r, names, k);
        k.lo.clear();
        k.hi.clear();
      }
      if (c.r.coin(0.6) || first)
        genLimits(c.r, names, k);
      if (c.r.coin(0.6) || first)
        k.fixed = genFixed(c.r, names);
      k.method = c.r.pick(std::vector<std::string>{"Migrad", "Minimize", "Simplex"});
      k.maximise = c.r.coin(0.4);
      k.calls = c.r.coin() ? k.calls : unsigned(c.r.ri(1, 100000));
      k.tol = c.r.coin() ? k.tol : c.r.uni(1e-6, 2);
      k.up = c.r.coin() ? k.up : c.r.coin() ? 1 : c.r.uni(0.1, 6);
      k.strategy = int(c.r.ri(0, 2));
      apply(*m, k, wasFixed);
    }
    LOG << describe(k);
    wasFixed = k.fixed;
    if (!first && c.r.coin(0.25))
    {
      std::unique_ptr<Minuit> n(new Minuit(*m));
      if (c.r.coin())
      {
        Minuit other;
        other.Fix("nobody");
        other.SetMinima(k.init);
        if (c.r.coin())
          other = *m, *n = other;
      }
      if (c.r.coin())
        m = std::move(n);
      c.count("copies");
    }
    fitAndJudge(*m, q, k);
    first = false;
    c.count("fits");
    c.count("points tried", M2::last().tried.size());
    size_t nl = k.lo.size(), nf = k.fixed.size();
    c.count(nl == 0 ? "unlimited" : nl == names.size() ? "all limited" : "some limited");
    c.sig(cat(names.size(), "/", nl, "/", nf, k.method, k.maximise, fit));
  }
}

SCENARIO(refused, 3)
{
  auto names = parameterNames(c.r);
  Quad q = genQuad(c.r, names);
  Config k;
  genValues(c.r, names, k);
  genLimits(c.r, names, k);
  k.fixed = genFixed(c.r, names);
  script(c.r);
  Minuit m;
  apply(m, k, {});
  LOG << describe(k);
  for (int round = 0; round < 3; ++round)
  {
    int runs = M2::last().runs;
    std::string n = c.r.pick(names);
    Config b = k;
    int kind = int(c.r.ri(0, 9));
    LOG << "kind " << kind << " on " << n;
    switch (kind)
    {
    case 0: // limits without a maximum
      b.lo[n] = b.init[n] - 1;
      b.hi.erase(n);
      break;
    case 1:
      b.hi[n] = b.init[n] + 1;
      b.lo.erase(n);
      break;
    case 2: // an empty range
      b.lo[n] = b.hi[n] = b.init[n];
      break;
    case 3:
      b.lo[n] = b.init[n] + 1;
      b.hi[n] = b.init[n] - 1;
      break;
    case 4:
      b.err.erase(n);
      break;
    case 5:
      b.init.erase(n);
      break;
    case 6: // not the statistic's parameters
      b.init["another"] = b.err["another"] = 1;
      break;
    case 7:
      b.init.erase(n), b.err.erase(n), b.lo.erase(n), b.hi.erase(n), b.fixed.erase(n);
      break;
    case 8:
      b.method = c.r.pick(std::vector<std::string>{"migrad", "", "Hesse", "Migrad "});
      break;
    default:
      b.fixed.insert("another");
    }
    apply(m, b, k.fixed);
    q.set.clear();
    q.value.clear();
    q.throwAt = -1;
    REFUSED(cat("refused-", kind), m.Optimise(&q));
    check(M2::last().runs == runs && q.value.empty(), "refused-ran", "kind ", kind);
    // put right, it works as if nothing had happened
    apply(m, k, b.fixed);
    if (c.r.coin(0.3))
    { // the statistic fails in the middle of a fit
      q.throwAt = c.r.ri(0, 2);
      bool thrown = false;
      q.set.clear();
      q.value.clear();
      try
      {
        m.Optimise(&q);
      }
      catch (const ValueError &)
      {
        thrown = true;
      }
      check(thrown, "interruption", "the statistic's error was lost");
      q.throwAt = -1;
      c.count("interrupted");
    }
    fitAndJudge(m, q, k);
    c.sig(cat("refused ", kind, " ", names.size()));
  }
}

SCENARIO(likelihood, 1)
{ // with a real statistic, whose parameters are only known once it is registered
  AxisCollection ac;
  ac.AddAxis(genAxis(c.r, "energy", int(c.r.ri(2, 12))));
  std::vector<std::string> obs{"energy"}, names = parameterNames(c.r);
  if (names.size() > 4)
    names.resize(4);
  BinnedED data("data", ac);
  data.SetObservables(obs);
  BinnedNLLH stat, fresh;
  std::vector<BinnedED> pdfs;
  std::vector<double> sum(ac.GetNBins());
  for (auto &n : names)
  {
    BinnedED p(n, genHist(c.r, ac, true));
    p.SetObservables(obs);
    p.Normalise();
    for (size_t b = 0; b < sum.size(); ++b)
      sum[b] += 100 * p.GetBinContent(b);
    pdfs.push_back(p);
  }
  for (auto &x : sum)
    x = std::floor(x * c.r.uni(0.7, 1.3));
  data.SetBinContents(sum);
  for (auto *s : {&stat, &fresh})
  {
    s->AddPdfs(pdfs);
    s->SetDataDist(data);
  }
  fresh.RegisterFitComponents();
  Config k;
  for (auto &n : names)
    k.init[n] = c.r.uni(50, 150), k.err[n] = c.r.uni(1, 10), k.lo[n] = 1, k.hi[n] = 1000;
  k.fixed = genFixed(c.r, names);
  k.method = c.r.pick(std::vector<std::string>{"Migrad", "Minimize", "Simplex"});
  script(c.r);
  Minuit m;
  apply(m, k, {});
  LOG << describe(k);
  const FitResult &f = m.Optimise(&stat);
  auto o = reached(k);
  result(f, k, o, "the result");
  const M2::Record &rec = M2::last();
  for (auto &t : rec.tried)
  {
    fresh.SetParameters(named(o, t.first));
    near(t.second, fresh.Evaluate(), "likelihood-trial", 1e-12, 0, "at ", str(t.first));
  }
  fresh.SetParameters(f.GetBestFit());
  near(f.GetExtremeVal(), fresh.Evaluate(), "likelihood-extreme", 1e-12, 0, "at the best fit");
  c.count("likelihood fits");
  c.count("points tried", rec.tried.size());
}

SCENARIO(nothing, 1)
{ // never configured
  Minuit m;
  Quad q = genQuad(c.r, parameterNames(c.r));
  REFUSED("unconfigured", m.Optimise(&q));
  check(m.GetMethod() == "Migrad" && m.GetMaxCalls() == 0 && !m.GetMaximising() && m.GetUpperContourEdge() == 0.5, "defaults", m.GetMethod());
}
