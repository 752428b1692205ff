// P11: shape and renormalisation systematics scale each bin by their own factor.
#include "sysmodel.h"
using namespace oxv;
PLAN("P11", 36000, 900000,
     "Random 1-4 dimensional axes, shape functions of any subset of observables in any order with random parameters, and "
     "renormalisations; every response element, its application and the refusal of negative shapes are compared with the "
     "function evaluated at the bin centres. Distinct = (systematic, bins per axis, order of observables).")

static void one(Case &c, int kind, bool large = false)
{
  SysModel m;
  m.kind = kind;
  if (large)
    chooseLarge(c, m, 60, 290, c.r.coin());
  else
    chooseDist(c, m);
  chooseTrans(c, m);
  std::unique_ptr<Systematic> s(makeSystematic(kind, "s"));
  setFunction(c, s.get(), m);
  if (c.r.coin())
    s->SetAxes(m.axes), setObs(s.get(), m);
  else
    setObs(s.get(), m), s->SetAxes(m.axes);
  for (int k = 0, n = int(c.r.ri(1, 3)); k < n; ++k)
  {
    setParams(c, s.get(), m);
    LOG << m.describe();
    s->Construct();
    Mat want = m.response();
    sameMat(s->GetResponse(), want, "factor", m.describe());
    BinnedED d("d", genHist(c.r, m.axes));
    d.SetObservables(m.dist);
    double norm = -1;
    BinnedED out = (*s)(d, &norm);
    for (size_t i = 0; i < want.size(); ++i)
      near(out.GetBinContent(i), s->GetResponse().GetComponent(i, i) * d.GetBinContent(i), "scaled", 1e-12, 0, "bin ", i);
    near(norm, sum(out.GetBinContents()), "norm", 1e-9, 0, "");
    c.count("bins scaled", want.size());
    std::vector<size_t> ord;
    for (auto &t : m.trans)
      ord.push_back(pos(m.dist, t));
    c.sig(cat(kind, str(dims(m.axes).n), str(ord)));
  }
}
SCENARIO(shape, 60) { one(c, kShape); }
SCENARIO(renorm, 20) { one(c, kRenorm); }
SCENARIO(large, 2) { one(c, c.r.coin(0.8) ? kShape : kRenorm, true); }

// the function is called with the current parameters, at the centres, and only non-negative values are accepted
SCENARIO(shape_calls, 20)
{
  SysModel m;
  m.kind = kShape;
  chooseDist(c, m, 3, 30);
  chooseTrans(c, m);
  Shape s("s");
  std::set<std::vector<double>> seen;
  double neg = 1e300;
  size_t nd = m.trans.size();
  s.SetShapeFunction(
      [&](const ParameterDict &p, const std::vector<double> &x) {
        check(p.size() == 1 && p.count("only"), "parameters", "function called with ", p.size(), " parameters");
        check(x.size() == nd, "dimensions", "function called with ", x.size(), " values");
        seen.insert(x);
        return x[0] > neg ? -1e-3 : p.at("only");
      },
      {"only"});
  s.SetAxes(m.axes);
  setObs(&s, m);
  s.SetParameter("only", 2.5);
  s.Construct();
  std::set<std::vector<double>> want;
  for (size_t i = 0; i < m.axes.GetNBins(); ++i)
  {
    std::vector<double> x;
    for (auto &t : m.trans)
    {
      size_t ax = pos(m.dist, t);
      x.push_back(m.axes.GetAxis(ax).GetBinCentre(dims(m.axes).unpack(i)[ax]));
    }
    want.insert(x);
    near(s.GetResponse().GetComponent(i, i), 2.5, "value", 1e-12, 0, "bin ", i);
  }
  check(seen == want, "centres", "evaluated at ", seen.size(), " points, expected ", want.size());
  c.count("function calls", seen.size());
  neg = c.r.coin() ? -1e300 : want.begin()->at(0);
  bool any = false;
  for (auto &x : want)
    any = any || x[0] > neg;
  if (any)
    REFUSED("negative shape", s.Construct());
}

// any values at the bins: nothing, everything alike, tiny, huge, all but one
SCENARIO(shape_values, 20)
{
  SysModel m;
  m.kind = kShape;
  chooseDist(c, m, 3, 40);
  chooseTrans(c, m);
  Dims dm = dims(m.axes);
  std::map<std::vector<double>, double> table;
  std::vector<std::vector<double>> at;
  for (size_t i = 0; i < m.axes.GetNBins(); ++i)
  {
    std::vector<double> x;
    for (auto &t : m.trans)
      x.push_back(m.axes.GetAxis(pos(m.dist, t)).GetBinCentre(dm.unpack(i)[pos(m.dist, t)]));
    at.push_back(x);
    table[x] = 0;
  }
  int mode = 0;
  Shape s("s");
  // looked up at the nearest centre: the library may round its centres differently
  s.SetShapeFunction(
      [&](const ParameterDict &p, const std::vector<double> &x) {
        double best = 1e300, v = 0;
        for (auto &e : table)
        {
          double d = 0;
          for (size_t k = 0; k < x.size(); ++k)
            d += std::fabs(e.first[k] - x[k]);
          if (d < best)
            best = d, v = e.second;
        }
        return v * p.at("n");
      },
      {"n"});
  s.SetAxes(m.axes);
  setObs(&s, m);
  for (int k = 0, n = int(c.r.ri(1, 4)); k < n; ++k)
  {
    mode = int(c.r.ri(0, 6));
    double same = c.r.uni(0, 3);
    for (auto &e : table)
      e.second = mode == 0 ? 0 : mode == 1 ? same : mode == 2 ? c.r.uni(0, 1e-12) : mode == 3 ? c.r.uni(0, 1e12) : mode == 4 ? double(c.r.coin()) : mode == 5 ? (c.r.coin(0.2) ? c.r.uni(0, 2) : 0.) : 1.;
    double f = c.r.coin(0.15) ? 0. : c.r.coin() ? 1. : c.r.uni(0, 5);
    s.SetParameter("n", f);
    s.Construct();
    BinnedED d("d", genHist(c.r, m.axes));
    d.SetObservables(m.dist);
    double norm = 0;
    BinnedED out = s(d, &norm);
    for (size_t i = 0; i < at.size(); ++i)
    {
      double w = table[at[i]] * f;
      near(s.GetResponse().GetComponent(i, i), w, "table factor", 1e-12, 0, "bin ", i, " mode ", mode);
      near(out.GetBinContent(i), w * d.GetBinContent(i), "table scaled", 1e-12, 0, "bin ", i, " mode ", mode);
    }
    c.count("tables");
    c.sig(cat("table", mode, f == 0));
  }
}

DIRECTED(refusals)
{
  Shape s("s");
  REFUSED("nothing", s.Construct());
  Renorm r("r");
  REFUSED("no axes", r.Construct());
}
