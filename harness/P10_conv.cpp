// P10: convolution responses equal the kernel's probability in each bin.
#include "sysmodel.h"
using namespace oxv;
PLAN("P10", 4500, 112500,
     "Random 1-4 dimensional axes and every kind of list of transformed observables (any subset in any order), asymmetric "
     "per-dimension kernels (plain and conditional) with closed-form integrals and random parameters changed between "
     "constructions; every response element is compared. Distinct = (kernel kind, bins per axis, order of observables).")

static void one(Case &c, int kind, bool large = false)
{
  SysModel m;
  m.kind = kind;
  if (large)
    chooseLarge(c, m, 60, 290, true);
  else
    chooseDist(c, m, 4, 48);
  chooseTrans(c, m);
  if (large) // mostly the short one
    m.trans = {m.dist[m.axes.GetAxis(0).GetNBins() == 2 ? c.r.coin(0.2) : c.r.coin(0.8)]};
  Convolution s("conv");
  setFunction(c, &s, m);
  if (c.r.coin())
    s.SetAxes(m.axes), setObs(&s, m);
  else
    setObs(&s, m), s.SetAxes(m.axes);
  for (int k = 0, n = large ? 1 : int(c.r.ri(1, 3)); k < n; ++k)
  {
    if (k || c.r.coin(0.7))
      setParams(c, &s, m);
    if (k && c.r.coin(0.2))
      setFunction(c, &s, m);
    if (c.r.coin(0.2))
    {
      std::string nn = cat("renamed", k);
      size_t i = size_t(c.r.ri(0, long(m.k.names.size()) - 1));
      s.RenameParameter(m.k.names[i], nn);
      m.k.names[i] = nn;
    }
    LOG << m.describe();
    s.Construct();
    Mat want = m.response();
    sameMat(s.GetResponse(), want, "kernel", m.describe());
    BinnedED d("d", genHist(c.r, m.axes));
    d.SetObservables(m.dist);
    double norm = -1;
    BinnedED out = s(d, &norm);
    std::vector<double> w = mulv(want, d.GetBinContents());
    nearv(out.GetBinContents(), w, "applied", 1e-9, sum(d.GetBinContents()), "");
    near(norm, sum(w), "norm", 1e-9, sum(d.GetBinContents()), "");
    c.count("response elements", want.size() * want.size());
    std::vector<size_t> ord;
    for (auto &t : m.trans)
      ord.push_back(pos(m.dist, t));
    c.count(std::is_sorted(ord.begin(), ord.end()) ? "observables in axis order" : "observables out of axis order");
    c.sig(cat(kind, str(dims(m.axes).n), str(ord)));
  }
}
SCENARIO(plain, 20) { one(c, kConv); }
SCENARIO(conditional, 20) { one(c, kCond); }
SCENARIO(large, 1) { one(c, c.r.coin() ? kConv : kCond, true); }

DIRECTED(refusals)
{
  Convolution s("s");
  REFUSED("nothing set", s.Construct());
  AxisCollection ac;
  ac.AddAxis(BinAxis("x", 0, 1, 3));
  s.SetAxes(ac);
  s.SetTransformationObs(ObsSet("x"));
  s.SetDistributionObs(ObsSet("x"));
  REFUSED("no kernel", s.Construct());
  Convolution t("t");
  KernelPDF k(1);
  t.SetFunction(&k);
  REFUSED("no axes", t.Construct());
}
