// P09: scale, shift and scale-function responses equal the exact bin overlap.
#include "sysmodel.h"
using namespace oxv;
PLAN("P09", 12000, 300000,
     "Random 1-4 dimensional axes (uniform, irregular, negative, single-bin), one transformed observable in any position, "
     "random and special parameter values (identity, edge-aligned, tiny, huge, all content lost); every response element, the "
     "column sums and the application to a random distribution are compared with interval overlaps computed from the "
     "edges. Distinct = (systematic, dimensions, bins, observable position, overlap pattern).")

static void one(Case &c, int kind, bool large = false)
{
  SysModel m;
  m.kind = kind;
  m.name = "s";
  if (large)
    chooseLarge(c, m, 50, 130, false);
  else
    chooseDist(c, m);
  chooseTrans(c, m);
  if (large && c.r.coin(0.8))
    for (auto &d : m.dist)
      if (m.axes.GetAxis(pos(m.dist, d)).GetNBins() > 2)
        m.trans = {d};
  std::unique_ptr<Systematic> s(makeSystematic(kind, m.name));
  setFunction(c, s.get(), m);
  if (c.r.coin())
    s->SetAxes(m.axes), setObs(s.get(), m);
  else
    setObs(s.get(), m), s->SetAxes(m.axes);
  for (int k = 0, n = int(c.r.ri(1, 3)); k < n; ++k)
  {
    setParams(c, s.get(), m);
    if (c.r.coin(large ? 0.5 : 0.08))
    { // a very small change, or a very large scale
      double d = std::pow(10, c.r.uni(-9, -3)) * (c.r.coin() ? 1 : -1);
      bool big = large && c.r.coin(0.7);
      if (kind == kScale)
        s->SetParameter("scaleFactor", m.a = big ? c.r.uni(2, 80) : 1 + d);
      else if (kind == kShift)
        s->SetParameter("shift", m.a = d);
      else
        s->SetParameter("a", m.a = big ? 0 : d), s->SetParameter("b", m.b = big ? c.r.uni(2, 80) : 1);
      c.count(big ? "large scales" : "small changes");
    }
    LOG << m.describe();
    s->Construct();
    Mat want = m.response();
    sameMat(s->GetResponse(), want, "overlap", m.describe());
    // conservation and sign, from the reported response alone
    size_t n2 = want.size();
    std::vector<double> e = edges(m.axes.GetAxis(pos(m.dist, m.trans[0])));
    for (size_t j = 0; j < n2; ++j)
    {
      double col = 0;
      for (size_t i = 0; i < n2; ++i)
      {
        double x = s->GetResponse().GetComponent(i, j);
        check(x >= 0, "negative", "element ", i, ",", j, " is ", x);
        col += x;
      }
      check(col <= 1 + 1e-9, "created", "column ", j, " sums to ", col);
      size_t b = dims(m.axes).unpack(j)[pos(m.dist, m.trans[0])];
      double lo = kind == kScale ? e[b] * m.a : kind == kShift ? e[b] + m.a : scaleFn(m.form, m.a, m.b, e[b]);
      double hi = kind == kScale ? e[b + 1] * m.a : kind == kShift ? e[b + 1] + m.a : scaleFn(m.form, m.a, m.b, e[b + 1]);
      if (std::min(lo, hi) >= e.front() && std::max(lo, hi) <= e.back())
      {
        near(col, 1, "lost", 1e-9, 1, "column ", j, " stays inside the range");
        c.count("columns kept inside");
      }
      else
        c.count("columns leaving the range");
    }
    bool id = (kind == kScale && m.a == 1) || (kind == kShift && m.a == 0) || (kind == kScaleFunc && m.form == 0 && m.a == 0 && m.b == 1);
    BinnedED d("d", genHist(c.r, m.axes));
    d.SetObservables(m.dist);
    double norm = -1;
    BinnedED out = (*s)(d, &norm);
    std::vector<double> w = mulv(want, d.GetBinContents());
    nearv(out.GetBinContents(), w, "applied", 1e-9, sum(d.GetBinContents()), "");
    near(norm, sum(w), "norm", 1e-9, sum(d.GetBinContents()), "");
    if (id)
    {
      nearv(out.GetBinContents(), d.GetBinContents(), "identity", 1e-9, 1, "");
      c.count("identity cases");
    }
    c.count("response elements", n2 * n2);
    c.sig(cat(kind, m.form, m.axes.GetNDimensions(), n2, pos(m.dist, m.trans[0]), int(100 * sum(w) / (1 + sum(d.GetBinContents())))));
  }
}
SCENARIO(scale, 9) { one(c, kScale); }
SCENARIO(shift, 9) { one(c, kShift); }
SCENARIO(scale_function, 9) { one(c, kScaleFunc); }

SCENARIO(large, 1) { one(c, int(c.r.ri(kScale, kScaleFunc)), true); }

DIRECTED(refusals)
{
  Scale s("s");
  s.SetAxes(AxisCollection());
  AxisCollection ac;
  ac.AddAxis(BinAxis("x", 0, 1, 3));
  ac.AddAxis(BinAxis("y", 0, 1, 2));
  s.SetDistributionObs(ObsSet(std::vector<std::string>{"x", "y"}));
  s.SetTransformationObs(ObsSet("x"));
  REFUSED("no axes", s.Construct());
  s.SetAxes(ac);
  for (double bad : {0.0, -1.0})
  {
    s.SetScaleFactor(bad);
    REFUSED("scale factor", s.Construct());
  }
  s.SetScaleFactor(1);
  s.SetTransformationObs(ObsSet(std::vector<std::string>{"x", "y"}));
  REFUSED("two observables", s.Construct());
  ScaleFunction f("f");
  f.SetAxes(ac);
  f.SetTransformationObs(ObsSet("x"));
  f.SetDistributionObs(ObsSet(std::vector<std::string>{"x", "y"}));
  REFUSED("no function", f.Construct());
}
