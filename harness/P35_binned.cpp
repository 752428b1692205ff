// P35: binned distributions look only at their own observables.
#include "gen.h"
#include <ParameterDict.h>
#include <SpectralFitDist.h>
using namespace oxv;
PLAN("P35", 12000, 300000,
     "Histories of 4..30 steps (fills by event or values, contents, scaling, normalising, new observables, bin parameters set one by one, together "
     "and renamed, copies, clones, assignments, projections, slices) on distributions of 1..4 of 1..9 event observables in any order, axes called "
     "like the observables or not, mirrored on a distribution with and one without bin parameters and on a plain array. Events in "
     "any order with extras, values on, beside and beyond every edge. Distinct = (shape, steps, event layout).")

namespace
{
typedef std::vector<double> V;
struct W
{
  std::shared_ptr<BinnedED> e; // the plain one
  std::shared_ptr<SpectralFitDist> s;
  V x;
  AxisCollection ac;
  std::vector<std::string> axes, obs, pars;
  double total() const
  {
    double t = 0;
    for (double v : x)
      t += v;
    return t;
  }
};
std::map<std::string, double> genValues(Rng &r, const W &w, const std::vector<std::string> &all)
{
  std::map<std::string, double> m;
  for (auto &n : all)
  {
    size_t i = pos(w.obs, n);
    m[n] = i < w.obs.size() ? probeValue(r, edges(w.ac.GetAxis(i))) : r.uni(-100, 100);
  }
  return m;
}
V own(const W &w, const std::map<std::string, double> &m)
{
  V v;
  for (auto &o : w.obs)
    v.push_back(m.at(o));
  return v;
}
struct Ev
{
  std::vector<std::string> names;
  V v;
};
Ev layout(Rng &r, const W &w, const std::map<std::string, double> &m)
{
  Ev e;
  for (auto &x : m)
    if (pos(w.obs, x.first) < w.obs.size() || r.coin(0.8))
      e.names.push_back(x.first);
  r.shuffle(e.names);
  for (auto &n : e.names)
    e.v.push_back(m.at(n));
  return e;
}
template <class D>
void probabilities(Case &c, const D &d, const W &w, const std::vector<std::string> &all, const std::string &key)
{
  double t = w.total();
  for (int k = 0; k < 2; ++k)
  {
    auto m = genValues(c.r, w, all);
    V v = own(w, m);
    size_t bin = modelFind(w.ac, v);
    Ev e = layout(c.r, w, m);
    Event ev = makeEvent(e.v, &e.names);
    check(d.FindBin(ev) == bin && d.FindBin(v) == bin, key + "-bin", str(w.obs), " of ", str(e.names), " = ", str(e.v), " in bin ", d.FindBin(ev), " and ", d.FindBin(v), ", not ", bin);
    if (t > 0)
    {
      double want = w.x[bin] / t;
      near(d.Probability(ev), want, key, 1e-9, 1e-3 / double(w.x.size()), str(w.obs), " of ", str(e.names), " = ", str(e.v), " in bin ", bin);
      near(d.Probability(v), want, key, 1e-9, 1e-3 / double(w.x.size()), "values alone");
      near(d.Probability(ev) * d.Integral(), d.GetBinContent(bin), key, 1e-9, 1e-3 * t, "times the integral");
    }
    check(ev.GetData() == e.v, key, "the event was changed");
    c.sig(cat(str(w.obs), str(e.names), w.x.size()));
    c.count("events looked up");
  }
}
template <class D>
void state(const D &d, const W &w, const std::string &key)
{
  double scale = 0;
  for (double v : w.x)
    scale = std::max(scale, std::fabs(v));
  nearv(d.GetBinContents(), w.x, key, 1e-9, scale * 1e-3, "contents");
  check(d.GetObservables() == w.obs, key, "observables ", str(d.GetObservables()), " for ", str(w.obs));
  check(d.GetAxes() == w.ac && d.GetAxes().GetAxisNames() == w.axes, key, "other axes");
  check(d.GetNBins() == w.x.size() && d.GetNDims() == w.axes.size(), key, "other dimensions");
}
void parameters(Case &c, const W &w)
{
  const SpectralFitDist &s = *w.s;
  ParameterDict d = s.GetParameters();
  check(s.GetParameterCount() == w.x.size() && d.size() == w.x.size(), "parameters", s.GetParameterCount(), " parameters, ", w.x.size(), " bins");
  check(s.GetParameterNames() == std::set<std::string>(w.pars.begin(), w.pars.end()), "parameters", "names ", str(s.GetParameterNames()));
  for (size_t i = 0; i < w.x.size(); ++i)
  {
    check(d.count(w.pars[i]) && d[w.pars[i]] == s.GetBinContent(i), "parameters", w.pars[i], " isn't the content of bin ", i);
    check(s.GetParameter(w.pars[i]) == s.GetBinContent(i), "parameters", w.pars[i], " isn't the content of bin ", i);
  }
  c.count("parameters", w.x.size());
}
void projections(Case &c, const BinnedED &d, const W &w, const std::vector<std::string> &all)
{
  Rng &r = c.r;
  Dims dm = dims(w.ac);
  size_t nd = w.axes.size();
  bool slice = nd > 1 && r.coin();
  std::vector<std::string> sub = subset(r, w.axes, size_t(r.ri(1, slice ? long(nd) - 1 : long(nd))));
  W p;
  std::vector<size_t> ix;
  std::map<size_t, size_t> fixed;
  std::map<std::string, size_t> fixedNames;
  if (slice)
  {
    for (auto &n : sub)
    {
      size_t i = pos(w.axes, n);
      fixed[i] = fixedNames[n] = size_t(r.ri(0, long(dm.n[i]) - 1));
    }
    for (size_t i = 0; i < nd; ++i)
      if (!fixed.count(i))
        ix.push_back(i);
  }
  else
    for (auto &n : sub)
      ix.push_back(pos(w.axes, n));
  Dims pd;
  for (size_t i : ix)
  {
    p.axes.push_back(w.axes[i]), p.obs.push_back(w.obs[i]);
    p.ac.AddAxis(w.ac.GetAxis(i));
    pd.n.push_back(dm.n[i]);
  }
  p.x.assign(pd.total(), 0.0);
  for (size_t b = 0; b < w.x.size(); ++b)
  {
    auto u = dm.unpack(b);
    bool in = true;
    for (auto &f : fixed)
      in &= u[f.first] == f.second;
    std::vector<size_t> q;
    for (size_t i : ix)
      q.push_back(u[i]);
    if (in)
      p.x[pd.flat(q)] += w.x[b];
  }
  BinnedED got = slice ? d.GetSlice(fixedNames) : sub.size() == 1 && r.coin() ? d.Marginalise(sub[0]) : d.Marginalise(sub);
  state(got, p, slice ? "slice" : "projection");
  probabilities(c, got, p, all, slice ? "slice-probability" : "projection-probability");
  if (p.axes.size() > 1 && r.coin(0.3))
  { // and again
    std::string n = r.pick(p.axes);
    check(got.Marginalise(n).GetObservables() == std::vector<std::string>(1, p.obs[pos(p.axes, n)]), "projection", "a projection of a projection lost its observable");
  }
  c.count(slice ? "slices" : "projections");
}
} // namespace

SCENARIO(histories, 8)
{
  Rng &r = c.r;
  std::vector<std::string> all = genNames(r, int(r.ri(1, 9)));
  int nd = int(r.ri(1, std::min<long>(4, long(all.size()))));
  W w;
  w.obs = subset(r, all, size_t(nd));
  bool same = r.coin();
  for (int i = 0; i < nd; ++i)
    w.axes.push_back(same ? w.obs[size_t(i)] : cat("axis", i));
  w.ac = genAxes(r, w.axes, 60);
  w.x.assign(w.ac.GetNBins(), 0.0);
  std::string name = r.coin() ? "dist" : "d_bin_1";
  w.s.reset(new SpectralFitDist(name, w.ac));
  if (r.coin())
    w.e.reset(new BinnedED("plain", w.ac));
  else
    w.e.reset(new BinnedED("plain", Histogram(w.ac)));
  for (size_t i = 0; i < w.x.size(); ++i)
    w.pars.push_back(cat(name, "_bin_", i));
  if (r.coin(0.2))
  { // not told yet where to look, or not in every dimension
    std::vector<std::string> fewer(w.obs.begin(), w.obs.end() - 1);
    for (auto d : {w.e.get(), static_cast<BinnedED *>(w.s.get())})
    {
      if (r.coin())
        d->SetObservables(fewer);
      std::vector<std::string> names(all);
      Event ev = makeEvent(V(all.size(), 0.5), &names);
      REFUSED("no-observables", d->Probability(ev));
      REFUSED("no-observables", d->FindBin(ev));
      REFUSED("no-observables", d->Fill(ev));
    }
  }
  w.e->SetObservables(w.obs), w.s->SetObservables(w.obs);
  std::vector<W> worlds{w};
  std::string ops;
  int fresh = 0;
  for (int k = int(r.ri(4, 30)); k > 0; --k)
  {
    W &x = worlds[size_t(r.ri(0, long(worlds.size()) - 1))];
    int op = int(r.ri(0, 15));
    ops += char('a' + op);
    size_t b = size_t(r.ri(0, long(x.x.size()) - 1));
    switch (op)
    {
    case 0:
    case 1:
    case 2:
    {
      auto m = genValues(r, x, all);
      double wt = r.coin() ? 1 : r.uni(0.1, 5);
      if (r.coin(0.7))
      {
        Ev e = layout(r, x, m), f = layout(r, x, m);
        x.e->Fill(makeEvent(e.v, &e.names), wt);
        x.s->Fill(makeEvent(f.v, &f.names), wt);
      }
      else if (x.axes.size() == 1 && r.coin())
        x.e->Fill(own(x, m)[0], wt), x.s->Fill(own(x, m)[0], wt);
      else
        x.e->Fill(own(x, m), wt), x.s->Fill(own(x, m), wt);
      x.x[modelFind(x.ac, own(x, m))] += wt;
      break;
    }
    case 3:
    {
      double v = r.uni(0, 10);
      x.e->SetBinContent(b, v), x.s->SetBinContent(b, v), x.x[b] = v;
      break;
    }
    case 4:
    {
      V v = genContents(r, x.x.size());
      x.e->SetBinContents(v), x.x = v;
      ParameterDict d;
      for (size_t i = 0; i < v.size(); ++i)
        d[x.pars[i]] = v[i];
      if (r.coin())
        d["something else"] = 7;
      x.s->SetParameters(d);
      break;
    }
    case 5:
    case 6:
    {
      double v = r.uni(0, 10);
      x.s->SetParameter(x.pars[b], v), x.e->SetBinContent(b, v), x.x[b] = v;
      break;
    }
    case 7:
    {
      std::string n = cat("p", ++fresh);
      x.s->RenameParameter(x.pars[b], n);
      if (x.pars[b] != n)
      {
        REFUSED("old-name", x.s->SetParameter(x.pars[b], 1));
        REFUSED("old-name", x.s->GetParameter(x.pars[b]));
      }
      x.pars[b] = n;
      break;
    }
    case 8:
      if (x.total() > 0)
      {
        double t = x.total();
        x.e->Normalise(), x.s->Normalise();
        for (auto &v : x.x)
          v /= t;
      }
      break;
    case 9:
    {
      double f = r.uni(0.2, 4);
      x.e->Scale(f), x.s->Scale(f);
      for (auto &v : x.x)
        v *= f;
      break;
    }
    case 10:
    { // looks elsewhere
      x.obs = subset(r, all, x.axes.size());
      x.e->SetObservables(x.obs), x.s->SetObservables(x.obs);
      break;
    }
    case 11:
      if (worlds.size() < 3)
      {
        W y(x);
        if (r.coin())
        {
          y.e.reset(new BinnedED(*x.e)), y.s.reset(new SpectralFitDist(*x.s));
        }
        else if (r.coin())
        {
          y.e.reset(dynamic_cast<BinnedED *>(x.e->Clone())), y.s.reset(dynamic_cast<SpectralFitDist *>(x.s->Clone()));
          check(y.e && y.s, "clone", "of another kind");
        }
        else
        {
          y.e.reset(new BinnedED), y.s.reset(new SpectralFitDist("other", AxisCollection()));
          *y.e = *x.e, *y.s = *x.s;
        }
        worlds.push_back(y);
        continue;
      }
      break;
    case 12:
    {
      x.e->Empty(), x.s->Empty();
      x.x.assign(x.x.size(), 0.0);
      break;
    }
    case 13:
      projections(c, r.coin() ? *x.e : static_cast<BinnedED &>(*x.s), x, all);
      break;
    case 14:
    {
      std::vector<std::string> names(all);
      names.erase(names.begin() + long(pos(all, r.pick(x.obs))));
      Event ev = makeEvent(V(names.size(), 0.5), &names);
      REFUSED("missing-observable", x.e->Probability(ev));
      REFUSED("missing-observable", x.s->FindBin(ev));
      REFUSED("missing-observable", x.s->Fill(ev));
      REFUSED("missing-observable", x.e->Fill(ev, 3));
      REFUSED("wrong-length", x.e->Probability(V(x.axes.size() + 1, 0.0)));
      REFUSED("wrong-length", x.s->Fill(V(x.axes.size() - 1, 0.0)));
      break;
    }
    default:
    {
      REFUSED("no-such-parameter", x.s->SetParameter("nothing", 1));
      REFUSED("no-such-parameter", x.s->GetParameter("nothing"));
      REFUSED("no-such-parameter", x.s->RenameParameter("nothing", "n"));
      if (x.pars.size() > 1)
      {
        ParameterDict d;
        for (auto &n : x.pars)
          d[n] = 5;
        d.erase(x.pars[b]);
        REFUSED("no-such-parameter", x.s->SetParameters(d));
        REFUSED("no-such-parameter", x.s->RenameParameter(x.pars[b], x.pars[b ? 0 : 1]));
      }
    }
    }
    for (auto &y : worlds)
    {
      if (&y != &x && !r.coin(0.3))
        continue;
      state(*y.e, y, "contents");
      state(*y.s, y, "bin-parameters");
      probabilities(c, *y.e, y, all, "probability");
      probabilities(c, *y.s, y, all, "probability");
      if (r.coin(0.3))
        parameters(c, y);
    }
  }
  for (auto &y : worlds)
    parameters(c, y), projections(c, *y.e, y, all);
  c.sig(cat(str(w.obs), w.x.size(), ops));
}

// contents of any sign and size, and integrals close to one
SCENARIO(odd_contents, 1)
{
  Rng &r = c.r;
  AxisCollection ac = genAxes(r, {"a", "b"}, 40);
  SpectralFitDist s("s", ac);
  BinnedED e("e", ac);
  std::vector<std::string> obs{"a", "b"};
  s.SetObservables(obs), e.SetObservables(obs);
  size_t n = ac.GetNBins();
  V x(n, 0.0);
  int mode = int(r.ri(0, 4));
  double sum = 0, mag = 0;
  for (size_t i = 0; i < n; ++i)
  {
    x[i] = mode == 0 ? r.uni(-1, 2) : mode == 1 ? r.uni(0, 1e-9) : mode == 2 ? r.uni(0, 1e12) : mode == 3 ? r.uni(0, 2.0 / double(n)) : double(r.ri(-2, 6));
    sum += x[i];
  }
  if (mode == 3) // almost normalised, or just so
  {
    double target = r.pick<double>({1, 1 + 1e-3, 1 - 1e-3, 1 + 1e-5, 1 + 1e-7, 1 - 1e-9});
    for (auto &v : x)
      v *= target / sum;
  }
  sum = 0;
  for (double v : x)
    sum += v, mag += std::fabs(v);
  ParameterDict d;
  for (size_t i = 0; i < n; ++i)
    d[cat("s_bin_", i)] = x[i];
  if (r.coin())
    s.SetParameters(d);
  else
    for (auto &q : d)
      s.SetParameter(q.first, q.second);
  for (size_t i = 0; i < n; ++i)
    e.SetBinContent(i, x[i]);
  for (size_t i = 0; i < n; ++i)
  {
    check(s.GetParameter(cat("s_bin_", i)) == x[i] && s.GetBinContent(i) == x[i] && e.GetBinContent(i) == x[i], "odd content", "bin ", i, " is ", s.GetBinContent(i), " want ", x[i]);
    check(s.GetParameters().at(cat("s_bin_", i)) == x[i], "odd content", "bin ", i);
  }
  near(s.Integral(), sum, "odd integral", 1e-12, mag);
  if (sum > 0.2 * mag)
    for (size_t i = 0; i < n; ++i)
    {
      V y;
      auto ix = ac.UnpackIndices(i);
      for (size_t k = 0; k < 2; ++k)
        y.push_back(ac.GetAxis(k).GetBinCentre(ix[k]));
      V rev{y[1], y[0]};
      std::vector<std::string> names{"b", "a"};
      Event ev = makeEvent(rev, &names);
      for (BinnedED *b : {static_cast<BinnedED *>(&s), &e})
      {
        near(b->Probability(ev), x[i] / sum, "odd probability", 1e-11, 1e-3 / double(n), "bin ", i);
        check(b->Probability(y) == b->Probability(ev), "odd probability", "event and vector differ");
      }
    }
  c.count("odd contents");
  c.sig(cat("odd", mode, n));
}

// more bins than any small counter holds
DIRECTED(many_bins)
{
  Rng &r = c.r;
  for (int nd : {1, 2})
  {
    AxisCollection ac;
    ac.AddAxis(BinAxis("x", -1, 3, size_t(nd == 1 ? 70007 : 331)));
    if (nd == 2)
      ac.AddAxis(BinAxis("y", 0, 1, 219));
    SpectralFitDist s("spec", ac);
    size_t n = ac.GetNBins();
    check(s.GetNBins() == n && s.GetParameterCount() == n && s.GetParameterNames().size() == n, "many-parameters", s.GetParameterCount(), " parameters, ", n, " bins");
    V want(n, 0.0);
    ParameterDict d;
    for (size_t i = 0; i < n; ++i)
      want[i] = d[cat("spec_bin_", i)] = double(i % 1013) + 0.25;
    s.SetParameters(d);
    check(s.GetBinContents() == want && s.GetParameters() == d, "many-parameters", "set all at once");
    for (int k = 0; k < 30; ++k)
    {
      size_t b = size_t(r.ri(0, long(n) - 1));
      want[b] = r.uni(0, 50);
      s.SetParameter(cat("spec_bin_", b), want[b]);
      check(s.GetBinContent(b) == want[b] && s.GetParameter(cat("spec_bin_", b)) == want[b], "many-parameters", "bin ", b);
    }
    check(s.GetBinContents() == want, "many-parameters", "set one by one");
    c.count("parameters", n);
  }
}
