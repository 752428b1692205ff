// P12: a systematic's response always reflects its current configuration.
#include "sysmodel.h"
using namespace oxv;
PLAN("P12", 25000, 625000,
     "One systematic of each kind taken through random histories of new axes, observables, functions, kernels, "
     "parameters, overwritten responses, failed constructions and applications; after each construction its response and "
     "its application are compared with the model of its final configuration only and with a fresh object configured "
     "once. Distinct = (systematic, history of operations).")

SCENARIO(histories, 4)
{
  SysModel m;
  m.kind = int(c.r.ri(0, kNKinds - 1));
  m.name = "s";
  chooseDist(c, m, 3, 30);
  chooseTrans(c, m);
  std::unique_ptr<Systematic> s(makeSystematic(m.kind, m.name));
  setFunction(c, s.get(), m);
  s->SetAxes(m.axes);
  setObs(s.get(), m);
  setParams(c, s.get(), m);
  std::string hist = kindName(m.kind);
  for (int k = 0, n = int(c.r.ri(2, 6)); k < n; ++k)
  {
    switch (c.r.ri(0, 7))
    {
    case 0: // entirely new distribution
      chooseDist(c, m, 3, 30);
      chooseTrans(c, m);
      s->SetAxes(m.axes);
      setObs(s.get(), m);
      if (m.kind == kConv || m.kind == kCond)
        setFunction(c, s.get(), m);
      hist += " new";
      break;
    case 1: // other binning, same observables
      m.axes = genAxes(c.r, m.dist, 30);
      s->SetAxes(m.axes);
      hist += " axes";
      break;
    case 2: // other transformed observable(s), same number
    {
      size_t nt = m.trans.size();
      m.trans = subset(c.r, m.dist, nt);
      s->SetTransformationObs(ObsSet(m.trans));
      hist += " trans";
      break;
    }
    case 3: // same axes, the observables now name other axes
      c.r.shuffle(m.dist);
      s->SetDistributionObs(ObsSet(m.dist));
      hist += " dist";
      break;
    case 4:
      setFunction(c, s.get(), m);
      if (m.kind == kScaleFunc)
        setParams(c, s.get(), m);
      hist += " function";
      break;
    case 5: // something else wrote the response
    {
      SparseMatrix x(m.axes.GetNBins(), m.axes.GetNBins());
      for (int q = 0; q < 5; ++q)
        x.SetComponent(size_t(c.r.ri(0, long(m.axes.GetNBins()) - 1)), size_t(c.r.ri(0, long(m.axes.GetNBins()) - 1)), c.r.uni(1, 2));
      s->SetResponse(x);
      sameMat(s->GetResponse(), denseOf(x), "set response", "");
      hist += " response";
      break;
    }
    case 6: // a construction that fails half way must not matter later
      if (m.kind == kScale)
      {
        static_cast<Scale *>(s.get())->SetScaleFactor(-1);
        REFUSED("scale", s->Construct());
        setParams(c, s.get(), m);
      }
      hist += " fail";
      break;
    default:
      setParams(c, s.get(), m);
      hist += " params";
    }
    check(s->GetDistributionObs() == ObsSet(m.dist) && s->GetTransformationObs() == ObsSet(m.trans), "observables", "");
    check(s->GetAxes() == m.axes, "axes", "");
    LOG << hist << " :: " << m.describe();
    if (c.r.coin(0.2))
      continue; // several changes before the next construction
    s->Construct();
    if (c.r.coin(0.3))
      s->Construct();
    Mat want = m.response();
    sameMat(s->GetResponse(), want, "history", hist);
    c.sig(hist);
    c.count("constructions");

    BinnedED d(cat("name", k), genHist(c.r, m.axes));
    std::vector<std::string> obs = m.dist;
    d.SetObservables(obs);
    if (c.r.coin(0.15))
    { // contents of any size
      d.Scale(std::pow(10, c.r.uni(-18, 9)));
      c.count("contents of an unusual size");
    }
    HistSnap snap(d.GetHistogram());
    if (c.r.coin(0.15))
    { // a result all but normalised already
      double t = sum(mulv(want, d.GetBinContents()));
      if (t > 1e-3 * sum(d.GetBinContents()) && t > 1e-30)
      {
        std::vector<double> v = d.GetBinContents();
        double to = 1 + (c.r.coin(0.3) ? 0 : std::pow(10, c.r.uni(-8, -2)) * (c.r.coin() ? 1 : -1));
        for (auto &x : v)
          x *= to / t;
        d.SetBinContents(v);
        snap = HistSnap(d.GetHistogram());
        c.count("all but normalised results");
      }
    }
    double norm = -7;
    const Systematic &cs = *s;
    BinnedED raw = cs(d, &norm);
    std::vector<double> w = mulv(want, d.GetBinContents());
    nearv(raw.GetBinContents(), w, "product", 1e-9, sum(d.GetBinContents()), hist);
    near(norm, sum(w), "norm", 1e-9, sum(d.GetBinContents()), hist);
    snap.same(d.GetHistogram(), "input", "the distribution a systematic was applied to");
    if (sum(w) > 1e-6 * sum(d.GetBinContents()) && sum(w) > 1e-30)
    {
      BinnedED nrm = cs(d);
      double t = sum(w);
      for (auto &x : w)
        x /= t;
      nearv(nrm.GetBinContents(), w, "normalised product", 1e-7, 1, hist);
      check(nrm.GetName() == d.GetName() && nrm.GetObservables() == obs && nrm.GetAxes() == m.axes, "identity of the output", "");
    }
    check(raw.GetName() == d.GetName() && raw.GetObservables() == obs && raw.GetAxes() == m.axes, "identity of the output", "");
    sameMat(s->GetResponse(), want, "response after application", hist);
    c.count("applications");
  }
}

SCENARIO(wrong_size, 1)
{
  SysModel m;
  m.kind = int(c.r.ri(0, kNKinds - 1));
  chooseDist(c, m, 2, 20);
  chooseTrans(c, m);
  std::unique_ptr<Systematic> s(makeSystematic(m.kind, "s"));
  setFunction(c, s.get(), m);
  s->SetAxes(m.axes);
  setObs(s.get(), m);
  setParams(c, s.get(), m);
  s->Construct();
  AxisCollection other;
  other.AddAxis(BinAxis("q", 0, 1, m.axes.GetNBins() + unsigned(c.r.ri(1, 4))));
  BinnedED d("d", genHist(c.r, other));
  HistSnap snap(d.GetHistogram());
  REFUSED("size", (*s)(d));
  double norm = 3;
  REFUSED("size", (*s)(d, &norm));
  snap.same(d.GetHistogram(), "input", "the distribution");
}

// never configured: refused, not undefined
DIRECTED(unconfigured)
{
  AxisCollection ac;
  ac.AddAxis(BinAxis("x", 0, 1, 4));
  BinnedED d("d", ac);
  d.SetBinContents({1, 2, 3, 4});
  for (int k = 0; k < kNKinds; ++k)
  {
    std::unique_ptr<Systematic> s(makeSystematic(k, "s"));
    REFUSED("construct", s->Construct());
    REFUSED("apply", (*s)(d));
    if (k == kRenorm)
    { // a fresh renormalisation leaves everything as it is
      s->SetAxes(ac);
      s->Construct();
      sameMat(s->GetResponse(), {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}, "default renormalisation", "");
    }
    if (k == kConv || k == kCond)
    {
      REFUSED("no kernel", s->SetParameter("a", 1));
      REFUSED("no kernel", s->GetParameter("a"));
      REFUSED("no kernel", s->RenameParameter("a", "b"));
    }
  }
}
