// P34: analytic functions and the distributions made of them.
// OXV_NEEDS_ROOT: samples come from Rand
#include "gen.h"
#include <AnalyticED.h>
#include <CompositeED.h>
#include <Function.h>
#include <Gaussian.h>
#include <Heaviside.h>
#include <JumpPDF.h>
#include <ParameterDict.h>
#include <SquareRootScale.h>
#include <VaryingCDF.h>
using namespace oxv;
PLAN("P34", 120000, 3000000,
     "Gaussians of 1..4 dimensions set by every route, at points and over boxes (also cut in two, degenerate, reversed and far out) against the "
     "formula, the error function and a quadrature of their own density; jump and varying conditional forms with linear and "
     "square root dependences over series of conditioning points; distributions on 1..4 of the observables of longer events in any order, copied and reset, "
     "and products nested to depth 4 of analytic and binned factors. Distinct = (object, dimension, configuration).")

namespace
{
typedef std::vector<double> V;
double phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
struct G
{ // plain description
  V mean, sd;
  double operator()(const V &x) const
  {
    double p = 1;
    for (size_t i = 0; i < mean.size(); ++i)
      p *= std::exp(-0.5 * std::pow((x[i] - mean[i]) / sd[i], 2)) / (sd[i] * std::sqrt(2 * M_PI));
    return p;
  }
  double over(const V &a, const V &b) const
  {
    double p = 1;
    for (size_t i = 0; i < mean.size(); ++i)
      p *= phi((b[i] - mean[i]) / sd[i]) - phi((a[i] - mean[i]) / sd[i]);
    return p;
  }
};
G genG(Rng &r, size_t n)
{
  G g;
  for (size_t i = 0; i < n; ++i)
    g.mean.push_back(r.value(-5, 5)), g.sd.push_back(r.coin(0.2) ? 1 : r.uni(0.1, 4));
  return g;
}
V point(Rng &r, const G &g, double spread = 4)
{
  V x;
  for (size_t i = 0; i < g.mean.size(); ++i)
    x.push_back(r.coin(0.1) ? g.mean[i] : g.mean[i] + g.sd[i] * r.uni(-spread, spread));
  return x;
}
// a linear function of the first inputs
struct Lin : Function
{
  std::string name;
  std::vector<std::string> pars;
  V v; // slopes, then offset
  Lin(const std::string &n, const V &s) : name(n), v(s)
  {
    for (size_t i = 0; i < v.size(); ++i)
      pars.push_back(cat(n, "_", i));
  }
  Function *Clone() const { return new Lin(*this); }
  static double value(const V &v, const V &x)
  {
    double y = v.back();
    for (size_t i = 0; i + 1 < v.size(); ++i)
      y += v[i] * x.at(i);
    return y;
  }
  double operator()(const V &x) const { return value(v, x); }
  size_t GetNDims() const { return v.size() - 1; }
  size_t at(const std::string &n) const
  {
    size_t i = pos(pars, n);
    if (i == pars.size())
      throw NotFoundError("Lin: " + n);
    return i;
  }
  void SetParameter(const std::string &n, double x) { v[at(n)] = x; }
  double GetParameter(const std::string &n) const { return v[at(n)]; }
  void SetParameters(const ParameterDict &d)
  {
    for (auto &p : d)
      if (pos(pars, p.first) < pars.size())
        v[at(p.first)] = p.second;
  }
  ParameterDict GetParameters() const
  {
    ParameterDict d;
    for (size_t i = 0; i < v.size(); ++i)
      d[pars[i]] = v[i];
    return d;
  }
  size_t GetParameterCount() const { return v.size(); }
  std::set<std::string> GetParameterNames() const { return std::set<std::string>(pars.begin(), pars.end()); }
  void RenameParameter(const std::string &a, const std::string &b) { pars[at(a)] = b; }
  std::string GetName() const { return name; }
  void SetName(const std::string &n) { name = n; }
};
struct Step : Heaviside
{
  size_t n;
  Step(size_t k) : Heaviside(int(k)), n(k) {}
  Function *Clone() const { return new Step(*this); }
  size_t GetNDims() const { return n; }
  void SetParameter(const std::string &, double) {}
  double GetParameter(const std::string &) const { return 0; }
  void SetParameters(const ParameterDict &) {}
  ParameterDict GetParameters() const { return ParameterDict(); }
  size_t GetParameterCount() const { return 0; }
  std::set<std::string> GetParameterNames() const { return {}; }
  void RenameParameter(const std::string &, const std::string &) {}
  std::string GetName() const { return "step"; }
  void SetName(const std::string &) {}
};
// the set-up reached by any of the routes
std::unique_ptr<Gaussian> make(Rng &r, const G &g)
{
  size_t n = g.mean.size();
  std::unique_ptr<Gaussian> f;
  switch (r.ri(0, 3))
  {
  case 0:
    if (n == 1 && r.coin())
      f.reset(new Gaussian(g.mean[0], g.sd[0], "g"));
    else
      f.reset(new Gaussian(g.mean, g.sd, "g"));
    break;
  case 1:
    f.reset(n == 1 && r.coin() ? new Gaussian : new Gaussian(n, "g"));
    f->SetMeans(g.mean), f->SetStDevs(g.sd);
    break;
  case 2:
    f.reset(new Gaussian(n, "g"));
    for (size_t i = 0; i < n; ++i)
      f->SetMean(i, g.mean[i]), f->SetStDev(i, g.sd[i]);
    break;
  default:
  {
    f.reset(new Gaussian(n, "g"));
    ParameterDict d;
    for (size_t i = 0; i < n; ++i)
      d[cat("means_", i)] = g.mean[i], d[cat("stddevs_", i)] = g.sd[i];
    if (r.coin())
      f->SetParameters(d);
    else
      for (auto &p : d)
        f->SetParameter(p.first, p.second);
  }
  }
  if (r.coin(0.3))
  {
    std::unique_ptr<Gaussian> o(new Gaussian(*f));
    f.swap(o);
  }
  else if (r.coin(0.2))
  {
    std::unique_ptr<Gaussian> o(new Gaussian(n, "other"));
    *o = *f;
    f.swap(o);
  }
  return f;
}
void box(Rng &r, const G &g, V &a, V &b)
{
  a.clear(), b.clear();
  for (size_t i = 0; i < g.mean.size(); ++i)
  {
    double x = g.mean[i] + g.sd[i] * r.uni(-7, 7), y = g.mean[i] + g.sd[i] * r.uni(-7, 7);
    if (r.coin(0.15))
      x = g.mean[i] - 1000 * g.sd[i];
    if (r.coin(0.15))
      y = g.mean[i] + 1000 * g.sd[i];
    a.push_back(std::min(x, y)), b.push_back(std::max(x, y));
  }
}
// 12 point Gauss-Legendre on [-1, 1]
const double glx[6] = {0.1252334085114689, 0.3678314989981802, 0.5873179542866175, 0.7699026741943047, 0.9041172563704749, 0.9815606342467192};
const double glw[6] = {0.2491470458134028, 0.2334925365383548, 0.2031674267230659, 0.1600783285433462, 0.1069393259953184, 0.0471753363865118};
double quad(const std::function<double(const V &)> &f, const V &a, const V &b, V x = V())
{
  size_t d = x.size();
  if (d == a.size())
    return f(x);
  double m = (a[d] + b[d]) / 2, h = (b[d] - a[d]) / 2, s = 0;
  x.push_back(0);
  for (int k = 0; k < 12; ++k)
  {
    x[d] = m + (k % 2 ? -1 : 1) * h * glx[k / 2];
    s += glw[k / 2] * quad(f, a, b, x);
  }
  return s * h;
}

template <class... A>
void within(double got, double want, double tol, const std::string &key, const A &...a)
{
  check(std::fabs(got - want) <= tol, key, "got ", got, " want ", want, " ", a...);
}
const double cutTail = 3e-9; // beyond six standard deviations counts as nothing
} // namespace

SCENARIO(gaussian, 10)
{
  Rng &r = c.r;
  size_t n = size_t(r.few(1, 4, 14));
  G g = genG(r, n);
  auto f = make(r, g);
  LOG << "means " << str(g.mean) << " stdevs " << str(g.sd);
  check(f->GetNDims() == n && f->GetMeans() == g.mean && f->GetStdDevs() == g.sd, "settings", str(f->GetMeans()), str(f->GetStdDevs()));
  double norm = g(g.mean);
  for (int k = 0; k < 5; ++k)
  {
    V x = point(r, g);
    near((*f)(x), g(x), "density", 1e-9, norm * 1e-3, "at ", str(x));
  }
  check((*f)(V(n, 1e8)) == 0 && (*f)(V(n, -1e8)) == 0, "density", "far out");
  for (size_t d = 0; d < n; ++d)
  {
    check(f->GetMean(d) == g.mean[d] && f->GetStDev(d) == g.sd[d], "settings", "dimension ", d);
    double z = r.uni(-8, 8);
    within(f->Cdf(d, g.mean[d] + z * g.sd[d]), phi(z), cutTail, "cdf", z, " standard deviations, dimension ", d);
  }
  if (r.coin(0.2))
  {
    double cut = r.uni(2, 30), z = r.uni(-9, 9);
    f->SetCdfCutOff(cut);
    check(f->GetCdfCutOff() == cut, "settings", "cut off");
    within(f->Cdf(0, g.mean[0] + z * g.sd[0]), phi(z), phi(-cut) + 1e-9, "cdf", z, " standard deviations, cut off at ", cut);
  }
  if (r.coin(0.3))
  {
    REFUSED("refused", (*f)(V(n + 1, 0.0)));
    REFUSED("refused", (*f)(V(n - 1, 0.0)));
    REFUSED("refused", f->Integral(V(n + 1, 0.0), V(n + 1, 1.0)));
    REFUSED("refused", f->Integral(V(n, 0.0), V(n + 1, 1.0)));
    REFUSED("refused", f->Integral(V(n - 1, 0.0), V(n, 1.0)));
    REFUSED("refused", f->GetMean(n));
    REFUSED("refused", f->GetStDev(n));
    REFUSED("refused", f->SetMean(n, 1));
    REFUSED("refused", f->SetStDev(n, 1));
    REFUSED("refused", f->SetMeans(V(n + 1, 1.0)));
    REFUSED("refused", f->SetStDevs(V(n + 1, 1.0)));
    REFUSED("refused", Gaussian(V(n, 0.0), V(n + 1, 1.0), "bad"));
    V sd(g.sd);
    sd[size_t(r.ri(0, long(n) - 1))] = r.coin() ? 0 : -1;
    REFUSED("refused", Gaussian(g.mean, sd, "bad"));
    V x = point(r, g);
    near((*f)(x), g(x), "density", 1e-9, norm * 1e-3, "after refused requests");
  }
  c.count("gaussians");
  c.sig(cat("g", n, str(g.mean), str(g.sd)));
}

SCENARIO(integrals, 10)
{
  Rng &r = c.r;
  size_t n = size_t(r.few(1, 4, 14));
  G g = genG(r, n);
  auto f = make(r, g);
  V a, b;
  box(r, g, a, b);
  LOG << "means " << str(g.mean) << " stdevs " << str(g.sd) << " over " << str(a) << " to " << str(b);
  double in = f->Integral(a, b), tol = double(2 * n) * cutTail;
  within(in, g.over(a, b), tol, "integral");
  // cut in two
  size_t d = size_t(r.ri(0, long(n) - 1));
  V mid(b), from(a);
  mid[d] = from[d] = r.uni(a[d], b[d]);
  within(f->Integral(a, mid) + f->Integral(from, b), in, 1e-12, "integral-additive", "cut at ", mid[d], " in dimension ", d);
  V flat(b);
  flat[d] = a[d];
  within(f->Integral(a, flat), 0, 1e-15, "integral-empty", "over nothing");
  V back(a), forth(b);
  std::swap(back[d], forth[d]);
  within(f->Integral(back, forth), -in, 1e-12, "integral-reversed", "reversed in dimension ", d);
  V lo, hi;
  for (size_t i = 0; i < n; ++i)
    lo.push_back(g.mean[i] - 50 * g.sd[i]), hi.push_back(g.mean[i] + 50 * g.sd[i]);
  within(f->Integral(lo, hi), 1, 1e-12, "normalised", "over everything");
  within(f->Integral(), 1, 0, "normalised");
  if (n <= 2 || (n <= 4 && r.coin(0.1)))
  { // its own density, over a box small enough
    V p = point(r, g, 3), q(p);
    for (size_t i = 0; i < n; ++i)
      q[i] += g.sd[i] * r.uni(0.1, 3);
    within(f->Integral(p, q), quad([&](const V &x) { return (*f)(x); }, p, q), tol + 1e-7, "integral-density", "over ", str(p), " to ", str(q));
  }
  c.count("integrals");
  c.sig(cat("i", n, str(a), str(b)));
}

SCENARIO(samples, 1)
{
  Rng &r = c.r;
  size_t n = size_t(r.few(1, 3, 12));
  G g = genG(r, n);
  auto f = make(r, g);
  JumpPDF j("j", f.get());
  VaryingCDF v("v");
  V at;
  for (size_t i = 0; i < n; ++i)
    at.push_back(r.uni(-10, 10));
  V slopes(n, 0.0);
  slopes[0] = 0.1;
  slopes.push_back(4);
  Lin sd("sd", slopes);
  v.SetKernel(f.get());
  v.SetDependance("stddevs_0", &sd);
  for (int which = 0; which < 3; ++which)
  {
    double N = 3000;
    std::vector<V> in(n, V(4, 0.0));
    for (int k = 0; k < int(N); ++k)
    {
      V s = which == 0 ? f->Sample() : which == 1 ? j.Sample(at) : v.Sample(at);
      check(s.size() == n, "sample", s.size(), " values");
      for (size_t i = 0; i < n; ++i)
      {
        double sg = which == 2 && i == 0 ? Lin::value(slopes, at) : g.sd[i];
        double z = (s[i] - g.mean[i] - (which ? at[i] : 0)) / sg;
        in[i][z < -1 ? 0 : z < 0 ? 1 : z < 1 ? 2 : 3]++;
      }
    }
    const double p[4] = {phi(-1), 0.5 - phi(-1), 0.5 - phi(-1), phi(-1)};
    for (size_t i = 0; i < n; ++i)
      for (int k = 0; k < 4; ++k)
        within(in[i][size_t(k)], N * p[k], 9 * std::sqrt(N * p[k] * (1 - p[k])) + 3, "sample", "dimension ", i, ", quarter ", k, ", form ", which);
  }
  c.count("sample series");
}

SCENARIO(jump, 6)
{
  Rng &r = c.r;
  size_t n = size_t(r.few(1, 4, 14));
  G g = genG(r, n);
  auto f = make(r, g);
  JumpPDF j("jump", f.get());
  G was = g;
  if (r.coin())
  { // it has its own
    f->SetMean(0, 99);
    f.reset();
  }
  JumpPDF k(j);
  std::unique_ptr<ConditionalPDF> cl(j.Clone());
  if (r.coin())
  { // moved on its own
    size_t d = size_t(r.ri(0, long(n) - 1));
    g.mean[d] += 2, g.sd[d] *= 1.5;
    j.SetParameter(cat("means_", d), g.mean[d]);
    j.SetParameter(cat("stddevs_", d), g.sd[d]);
  }
  double norm = g(g.mean), normWas = was(was.mean);
  for (int q = 0; q < 4; ++q)
  {
    V x, at, a, b;
    for (size_t i = 0; i < n; ++i)
    {
      at.push_back(r.value(-10, 10));
      x.push_back(at[i] + g.mean[i] + g.sd[i] * r.uni(-4, 4));
      a.push_back(at[i] + g.mean[i] + g.sd[i] * r.uni(-5, 3));
      b.push_back(a[i] + g.sd[i] * r.uni(0, 6));
    }
    V d(x), da(a), db(b);
    for (size_t i = 0; i < n; ++i)
      d[i] -= at[i], da[i] -= at[i], db[i] -= at[i];
    near(j.ConditionalProbability(x, at), g(d), "jump-density", 1e-8, norm * 1e-3, "at ", str(x), " given ", str(at));
    within(j.Integral(a, b, at), g.over(da, db), double(2 * n) * cutTail + 1e-9, "jump-integral", str(a), " to ", str(b), " given ", str(at));
    near(k.ConditionalProbability(x, at), was(d), "jump-copy", 1e-8, normWas * 1e-3, "a copy");
    near(cl->ConditionalProbability(x, at), was(d), "jump-copy", 1e-8, normWas * 1e-3, "a clone");
    if (r.coin(0.2))
    {
      V shorter(at.begin(), at.end() - 1), longer(at);
      longer.push_back(1);
      REFUSED("jump-refused", j.ConditionalProbability(x, shorter));
      REFUSED("jump-refused", j.ConditionalProbability(x, longer));
      REFUSED("jump-refused", j.Integral(a, b, shorter));
      REFUSED("jump-refused", j.Sample(shorter));
      REFUSED("jump-refused", j.Integral(V(n + 1, 0.0), V(n + 1, 1.0), longer));
      JumpPDF none("none");
      REFUSED("jump-refused", none.ConditionalProbability(x, at));
      REFUSED("jump-refused", none.Integral(a, b, at));
      REFUSED("jump-refused", none.Sample(at));
    }
  }
  c.count("jumps");
  c.sig(cat("j", n, str(g.mean)));
}

// parameters that follow the conditioning point
SCENARIO(varying, 8)
{
  Rng &r = c.r;
  size_t n = size_t(r.few(1, 3, 9));
  G g = genG(r, n);
  auto f = make(r, g);
  struct Dep
  {
    std::string par;
    bool mean, root;
    size_t dim;
    V v;
    std::vector<std::string> names;
  };
  std::vector<Dep> deps;
  std::unique_ptr<VaryingCDF> v(new VaryingCDF("varying"));
  bool conditional = r.coin(0.4), round = r.coin(0.3); // sums and differences without rounding
  if (r.coin(0.2))
  { // replaced
    Gaussian other(n, "other");
    v->SetKernel(&other);
  }
  if (conditional)
  {
    JumpPDF j("kernel", f.get());
    v->SetKernel(&j);
  }
  else
    v->SetKernel(f.get());
  f.reset();
  for (size_t d = 0; d < n; ++d)
    for (int mean = 0; mean < 2; ++mean)
    {
      if (r.coin(0.4))
        continue;
      Dep e{cat(mean ? "means_" : "stddevs_", d), bool(mean), !mean && r.coin(0.4), d, V(), {}};
      if (e.root)
      {
        SquareRootScale s("root");
        e.v = {r.uni(0.5, 3)};
        e.names = {cat("root", d)};
        s.RenameParameter("grad", e.names[0]);
        s.SetGradient(e.v[0]);
        v->SetDependance(e.par, &s);
      }
      else
      {
        for (size_t i = 0; i < n; ++i)
          e.v.push_back(round ? r.ri(mean ? -8 : 0, mean ? 8 : 2) / 8. : mean ? r.uni(-1, 1) : r.uni(0, 0.2));
        if (mean && deps.size() && !deps.back().root && !deps.back().mean && r.coin(0.4)) // changes opposite to the one before
          for (size_t i = 0; i < n; ++i)
            e.v[i] = -deps.back().v[i];
        e.v.push_back(round ? r.ri(mean ? -2 : 3, mean ? 2 : 5) : mean ? r.uni(-2, 2) : r.uni(3, 5)); // stays positive
        Lin l(cat(e.par, "_lin"), e.v);
        e.names = l.pars;
        if (r.coin(0.2))
        { // set twice
          Lin w("w", V(n + 1, 1.0));
          v->SetDependance(e.par, &w);
        }
        v->SetDependance(e.par, &l);
        l.v.assign(n + 1, 77.0);
      }
      deps.push_back(e);
    }
  std::unique_ptr<VaryingCDF> copy;
  std::vector<Dep> copied;
  for (int q = 0; q < 5; ++q)
  {
    if (q == 2 && r.coin())
    {
      copy.reset(r.coin() ? new VaryingCDF(*v) : dynamic_cast<VaryingCDF *>(v->Clone()));
      copied = deps;
    }
    if (q && deps.size() && r.coin(0.4))
    {
      Dep &e = deps[size_t(r.ri(0, long(deps.size()) - 1))];
      e.v.back() += r.uni(0, 0.5);
      v->SetParameter(e.names.back(), e.v.back());
    }
    V at, x, a, b;
    for (size_t i = 0; i < n; ++i)
      at.push_back(round ? double(r.ri(-8, 8)) : r.uni(-8, 8));
    for (auto w : {std::make_pair(v.get(), &deps), std::make_pair(copy.get(), &copied)})
    {
      if (!w.first)
        continue;
      G k = g;
      for (auto &e : *w.second)
        (e.mean ? k.mean : k.sd)[e.dim] = e.root ? e.v[0] * std::sqrt(std::fabs(at[0])) : Lin::value(e.v, at);
      bool ok = true;
      for (double s : k.sd)
        ok &= s > 1e-3;
      if (!ok)
        continue;
      x.clear(), a.clear(), b.clear();
      for (size_t i = 0; i < n; ++i)
      {
        x.push_back(at[i] + k.mean[i] + k.sd[i] * r.uni(-3, 3));
        a.push_back(at[i] + k.mean[i] + k.sd[i] * r.uni(-5, 3));
        b.push_back(a[i] + k.sd[i] * r.uni(0, 6));
      }
      V d(x), da(a), db(b);
      for (size_t i = 0; i < n; ++i)
        d[i] -= at[i], da[i] -= at[i], db[i] -= at[i];
      const char *what = w.first == v.get() ? "the original" : "the copy";
      if (r.coin())
        near(w.first->ConditionalProbability(x, at), k(d), "varying-density", 1e-7, k(k.mean) * 1e-3, what, " at ", str(x), " given ", str(at));
      within(w.first->Integral(a, b, at), k.over(da, db), double(2 * n) * cutTail + 1e-8, "varying-integral", what, " over ", str(a), " to ", str(b), " given ", str(at));
      c.count("varying evaluations");
    }
  }
  if (r.coin(0.1))
  {
    VaryingCDF none("none");
    REFUSED("varying-refused", none.ConditionalProbability(V(1, 0.0), V(1, 0.0)));
    REFUSED("varying-refused", none.Integral(V(1, 0.0), V(1, 0.0), V(1, 0.0)));
    REFUSED("varying-refused", none.Sample(V(1, 0.0)));
  }
  c.sig(cat("v", n, deps.size(), conditional, str(g.mean)));
}

SCENARIO(functions, 3)
{
  Rng &r = c.r;
  SquareRootScale s("s");
  double grad = r.value(-5, 5);
  if (r.coin())
    s.SetGradient(grad);
  else if (r.coin())
    s.SetParameter("grad", grad);
  else
    s.SetParameters({{"grad", grad}});
  check(s.GetGradient() == grad && s.GetParameter("grad") == grad, "root", "gradient ", s.GetGradient());
  for (int k = 0; k < 5; ++k)
  {
    double x = r.coin(0.2) ? double(r.ri(-9, 9)) : r.coin() ? r.uni(-1, 1) : r.uni(-1000, 1000);
    near(s({x}), grad * std::sqrt(std::fabs(x)), "root", 1e-12, 0, "at ", x);
  }
  size_t n = size_t(r.ri(1, 4));
  Step h(n);
  std::vector<int> side(n, 0);
  V at(n, 0.0);
  for (size_t i = 0; i < n; ++i)
    if (r.coin(0.7))
    {
      side[i] = r.coin() ? 1 : -1, at[i] = r.value(-5, 5);
      h.AddConstraint(unsigned(i), at[i], side[i] > 0 ? Heaviside::MAXIMUM : Heaviside::MINIMUM);
    }
  for (int k = 0; k < 6; ++k)
  {
    V x;
    bool in = true;
    for (size_t i = 0; i < n; ++i)
    {
      x.push_back(r.coin(0.1) ? at[i] : r.uni(-6, 6));
      in &= !(side[i] * (x[i] - at[i]) > 0);
    }
    check(h(x) == (in ? 1 : 0), "step", "at ", str(x), " gives ", h(x));
  }
  REFUSED("step-refused", h.AddConstraint(unsigned(n), 0, Heaviside::MAXIMUM));
  REFUSED("step-refused", h.AddConstraint(0, 0, Heaviside::IGNORE));
  REFUSED("step-refused", h(V(n + 1, 0.0)));
  c.count("functions");
}

namespace
{
struct Factor
{
  std::vector<std::string> obs;
  G g;
  std::unique_ptr<Histogram> h;
  double integral = 1;
  double operator()(const std::map<std::string, double> &e) const
  {
    V x;
    for (auto &o : obs)
      x.push_back(e.at(o));
    if (!h)
      return g(x);
    return h->GetBinContent(modelFind(h->GetAxes(), x)) / h->Integral();
  }
};
struct Tree
{
  std::unique_ptr<EventDistribution> d;
  std::vector<std::shared_ptr<Factor>> f; // all the factors
  std::string name;
};
Tree leaf(Rng &r, const std::vector<std::string> &obs, int &id)
{
  Tree t;
  std::shared_ptr<Factor> f(new Factor);
  size_t n = size_t(r.ri(1, std::min<long>(3, long(obs.size()))));
  f->obs = subset(r, obs, n);
  t.name = r.coin(0.15) ? std::string("d0") : cat("d", ++id); // names may be shared
  if (r.coin(0.6))
  {
    f->g = genG(r, n);
    auto g = make(r, f->g);
    AnalyticED *a = new AnalyticED(t.name, g.get());
    a->SetObservables(ObsSet(f->obs));
    t.d.reset(a);
  }
  else
  {
    std::vector<std::string> axes;
    for (size_t i = 0; i < n; ++i)
      axes.push_back(cat("axis", i));
    f->h.reset(new Histogram(genHist(r, genAxes(r, axes, 40), true)));
    f->integral = f->h->Integral();
    BinnedED *b = new BinnedED(t.name, *f->h);
    b->SetObservables(f->obs);
    t.d.reset(b);
  }
  t.f.push_back(f);
  return t;
}
Tree genTree(Rng &r, const std::vector<std::string> &obs, int depth, int &id)
{
  if (!depth || r.coin(0.25))
    return leaf(r, obs, id);
  Tree t;
  if (r.coin(0.6))
  {
    Tree a = genTree(r, obs, depth - 1, id), b = genTree(r, obs, depth - 1, id);
    t.d.reset(new CompositeED(*a.d * *b.d));
    t.name = a.name + "*" + b.name;
    t.f = a.f;
    t.f.insert(t.f.end(), b.f.begin(), b.f.end());
    return t; // the operands go
  }
  std::vector<Tree> v;
  std::vector<EventDistribution *> p;
  for (int k = int(r.ri(1, 3)); k > 0; --k)
    v.push_back(genTree(r, obs, depth - 1, id));
  for (auto &x : v)
  {
    p.push_back(x.d.get());
    t.name += (t.name.empty() ? "" : "*") + x.name;
    t.f.insert(t.f.end(), x.f.begin(), x.f.end());
  }
  t.d.reset(new CompositeED(p));
  return t;
}
} // namespace

SCENARIO(distributions, 10)
{
  Rng &r = c.r;
  std::vector<std::string> names = genNames(r, int(r.few(1, 8, 24)));
  size_t n = size_t(r.few(1, std::min<long>(4, long(names.size())), std::min<long>(12, long(names.size()))));
  std::vector<std::string> obs = subset(r, names, n);
  G g = genG(r, n);
  auto f = make(r, g);
  std::unique_ptr<AnalyticED> d(new AnalyticED("dist", f.get()));
  d->SetObservables(ObsSet(obs));
  if (r.coin())
    f->SetMean(0, 1000), f->SetStDev(0, 1e-3); // it has its own
  check(d->GetNDims() == n && d->GetObservables().GetNames() == obs && d->GetName() == "dist", "distribution-settings", "");
  G now = g;
  std::unique_ptr<AnalyticED> copy;
  for (int k = 0; k < 6; ++k)
  {
    V x(names.size(), 0.0);
    for (auto &v : x)
      v = r.uni(-7, 7);
    for (size_t i = 0; i < n; ++i)
      x[pos(names, obs[i])] = now.mean[i] + now.sd[i] * r.uni(-3, 3);
    Event e = makeEvent(x, &names);
    V y;
    for (auto &o : obs)
      y.push_back(x[pos(names, o)]);
    double norm = now(now.mean);
    near(d->Probability(e), now(y), "distribution", 1e-8, norm * 1e-3, "observables ", str(obs), " of ", str(names));
    near(d->Probability(y), now(y), "distribution", 1e-8, norm * 1e-3, "values alone");
    check(e.GetData() == x, "event", "was modified");
    if (copy)
      near(copy->Probability(e), g(y), "distribution-copy", 1e-8, g(g.mean) * 1e-3, "a copy");
    check(d->Integral() == 1, "distribution-integral", d->Integral());
    switch (r.ri(0, 5))
    {
    case 0:
      d->Normalise();
      break;
    case 1:
      if (!copy)
      {
        copy.reset(r.coin() ? new AnalyticED(*d) : dynamic_cast<AnalyticED *>(d->Clone()));
        check(copy->GetObservables().GetNames() == obs, "distribution-copy", "other observables");
        g = now;
      }
      break;
    case 2:
    {
      size_t i = size_t(r.ri(0, long(n) - 1));
      now.mean[i] += r.uni(-2, 2), now.sd[i] = r.uni(0.3, 3);
      d->SetParameters([&] {
        ParameterDict p = d->GetParameters();
        p[cat("means_", i)] = now.mean[i];
        p[cat("stddevs_", i)] = now.sd[i];
        return p;
      }());
      break;
    }
    case 3:
      r.shuffle(obs);
      d->SetObservables(ObsSet(obs));
      copy.reset();
      break;
    case 4:
      if (n < names.size())
      { // without one of them
        std::vector<std::string> fewer(names);
        V z(x);
        size_t i = pos(names, obs[0]);
        fewer.erase(fewer.begin() + long(i)), z.erase(z.begin() + long(i));
        REFUSED("distribution-refused", d->Probability(makeEvent(z, &fewer)));
        REFUSED("distribution-refused", d->Probability(V(n + 1, 0.0)));
      }
      break;
    default:
      break;
    }
  }
  c.count("distributions");
  c.sig(cat("d", str(names), str(obs)));
}

SCENARIO(products, 10)
{
  Rng &r = c.r;
  std::vector<std::string> names = genNames(r, int(r.few(1, 8, 24)));
  int id = 0;
  Tree t = genTree(r, names, int(r.ri(1, 4)), id);
  if (r.coin(0.3))
  {
    std::unique_ptr<EventDistribution> k(t.d->Clone());
    t.d.swap(k);
  }
  unsigned nd = 0;
  double in = 1;
  for (auto &f : t.f)
    nd += unsigned(f->obs.size()), in *= f->integral;
  check(t.d->GetNDims() == nd, "product-dimensions", t.d->GetNDims(), " of ", nd);
  check(t.d->GetName() == t.name, "product-name", t.d->GetName(), " for ", t.name);
  near(t.d->Integral(), in, "product-integral", 1e-9, 0, "");
  for (int k = 0; k < 4; ++k)
  {
    std::vector<std::string> order(names);
    r.shuffle(order);
    V x;
    std::map<std::string, double> m;
    for (auto &n : order)
      x.push_back(r.uni(-5, 5)), m[n] = x.back();
    double want = 1;
    for (auto &f : t.f)
      want *= (*f)(m);
    near(t.d->Probability(makeEvent(x, &order)), want, "product", 1e-7, 0, t.name, " at ", str(order), " = ", str(x));
    if (k == 2)
    {
      t.d->Normalise();
      near(t.d->Integral(), 1, "product-normalised", 1e-9, 0, "");
    }
  }
  c.count("products");
  c.sig(cat("p", t.name, str(names)));
}
