// P15: distribution managers report the normalisation-weighted sum of their pdfs.
#include "sysmodel.h"
#include <BinnedEDManager.h>
#include <BinnedEDShrinker.h>
#include <EDManager.h>
#include <SystematicManager.h>
using namespace oxv;
PLAN("P15", 9000, 225000,
     "Histories of adding pdfs with every normalisation mode, setting normalisations all at once, one by one and by "
     "dictionary, renaming, copying, applying changing systematics, projecting and shrinking, on BinnedEDManager and "
     "EDManager; after every step bin and event probabilities, normalisations and the exposed parameters are compared "
     "with a plain model. Distinct = (modes, history).")

struct Pdf
{
  std::string par, name;
  NormFittingStatus mode;
  double norm;
  std::vector<double> orig, work;
};
// any value: tiny ones, nothing, and below nothing too
static double genNorm(Case &c, int size)
{
  double v = c.r.coin(0.06) ? 0 : c.r.uni(0, 100) * (size == 1 ? 1e-12 : size == 2 ? 1e9 : size == 3 ? std::pow(10, c.r.uni(-20, 5)) : 1);
  return c.r.coin(0.06) ? -v : v;
}
static int genSize(Case &c) { return c.r.coin(0.7) ? 0 : int(c.r.ri(1, 3)); }
static const char *modeName(int m) { return m == FALSE ? "F" : m == DIRECT ? "D" : "I"; }

static std::vector<double> project(const std::vector<double> &v, const Dims &d, const std::vector<size_t> &keep)
{
  Dims n;
  for (size_t k : keep)
    n.n.push_back(d.n[k]);
  std::vector<double> o(n.total(), 0);
  for (size_t i = 0; i < v.size(); ++i)
  {
    std::vector<size_t> ix = d.unpack(i), j;
    for (size_t k : keep)
      j.push_back(ix[k]);
    o[n.flat(j)] += v[i];
  }
  return o;
}

SCENARIO(binned, 6)
{
  int size = genSize(c);
  size_t most = c.r.coin(0.05) ? 40 : 6;
  SysModel m;
  chooseDist(c, m, 3, 40);
  std::vector<std::string> names = m.dist;
  AxisCollection ax = m.axes;
  // every axis carries one extra bin at each end that a shrinker may remove
  bool buffers = c.r.coin(0.5);
  if (buffers)
  {
    AxisCollection b;
    for (size_t i = 0; i < names.size(); ++i)
      b.AddAxis(genAxis(c.r, names[i], int(ax.GetAxis(i).GetNBins()) % 5 + 3));
    ax = m.axes = b;
  }
  std::unique_ptr<BinnedEDManager> man(new BinnedEDManager());
  check(man->GetName() == "norms", "name", "");
  std::vector<Pdf> pdfs;
  int modeChoice = int(c.r.ri(0, 4)); // all of one kind, or mixed
  std::string hist;

  AxisCollection wax = ax; // current axes and observables of the working pdfs
  std::vector<std::string> wobs = names;

  // one systematic for everybody
  m.kind = int(c.r.ri(0, kNKinds - 1));
  m.name = "sys";
  chooseTrans(c, m);
  std::unique_ptr<Systematic> s(makeSystematic(m.kind, m.name));
  setFunction(c, s.get(), m);
  s->SetAxes(ax);
  setObs(s.get(), m);
  setParams(c, s.get(), m);
  SystematicManager sm, none;
  sm.Add(s.get());

  bool withSys = c.r.coin(0.6), falseSet = false;
  bool cycled = false; // the last thing that happened was a full cycle of an evaluation
  auto verify = [&](const std::string &when) {
    Dims d = dims(wax);
    std::set<std::string> want;
    ParameterDict wd;
    for (auto &p : pdfs)
      if (p.mode != FALSE)
        want.insert(p.par), wd[p.par] = p.norm;
    check(man->GetParameterNames() == want && man->GetParameterCount() == want.size(), "parameter names", when, ": ",
          str(man->GetParameterNames()), " want ", str(want));
    check(man->GetParameters() == wd, "parameter values", when);
    for (auto &q : wd)
      check(man->GetParameter(q.first) == q.second, "parameter value", when, ": ", q.first);
    check(man->GetNPdfs() == pdfs.size(), "count", "");
    check(man->GetNDims() == (pdfs.empty() ? 0 : names.size()), "dimensions", man->GetNDims());
    if (pdfs.empty())
      return;
    if (cycled)
    {
      std::vector<double> w;
      for (auto &p : pdfs)
        w.push_back(p.mode == FALSE ? sum(p.work) : p.mode == DIRECT ? p.norm : p.norm * sum(p.work) / sum(p.orig));
      man->ReassertNorms(true);
      if (falseSet) // a value given to a pdf that holds its own stands until it is worked out again
        for (size_t i = 0; i < w.size(); ++i)
          if (pdfs[i].mode == FALSE)
            w[i] = man->GetNormalisations().at(i);
      nearv(man->GetNormalisations(), w, "normalisations", 1e-8, 1, when, " after an evaluation cycle");
    }
    for (int k = 0; k < 6; ++k)
    {
      size_t b = size_t(c.r.ri(0, long(d.total()) - 1));
      double w = 0, scale = 0;
      for (auto &p : pdfs)
        w += (p.mode == FALSE ? 1 : p.norm) * p.work[b], scale += std::fabs((p.mode == FALSE ? 1 : p.norm) * sum(p.work));
      near(man->BinProbability(b), w, "bin probability", 1e-9, scale, when, ": bin ", b);
    }
    // an event with the observables in any order among others
    std::vector<std::string> evn = wobs;
    evn.push_back("other");
    c.r.shuffle(evn);
    std::vector<double> v(evn.size());
    std::vector<double> x;
    for (size_t i = 0; i < wobs.size(); ++i)
      x.push_back(v[pos(evn, wobs[i])] = probeValue(c.r, edges(wax.GetAxis(i))));
    size_t b = modelFind(wax, x);
    double w = 0, scale = 0;
    bool empty = false;
    for (auto &p : pdfs)
    {
      double t = sum(p.work);
      empty = empty || t < 1e-9;
      w += (p.mode == FALSE ? 1 : p.norm) * p.work[b] / t, scale += std::fabs(p.norm);
    }
    if (!empty)
      near(man->Probability(makeEvent(v, &evn)), w, "probability", 1e-8, scale, when, ": bin ", b);
    c.count("states compared");
  };

  for (int k = 0, n = int(c.r.ri(4, 14)); k < n; ++k)
  {
    int op = pdfs.empty() ? 0 : int(c.r.ri(0, 11));
    std::string what;
    switch (op)
    {
    case 0: // one or more pdfs
    case 1:
    {
      if (pdfs.size() + (most > 6 ? 20 : 1) > most)
        continue;
      std::vector<BinnedED> add;
      std::vector<NormFittingStatus> modes;
      for (int q = 0, nq = int(c.r.ri(1, most > 6 ? 20 : 3)); q < nq; ++q)
      {
        Pdf p;
        p.name = p.par = cat("pdf", pdfs.size());
        p.mode = modeChoice == 0 ? DIRECT : modeChoice == 1 ? INDIRECT : modeChoice == 2 ? FALSE : NormFittingStatus(c.r.ri(0, 2));
        p.norm = 0;
        Histogram h = genHist(c.r, ax, true);
        if (p.mode == INDIRECT || c.r.coin(0.3))
          h.Normalise();
        p.orig = p.work = h.GetBinContents();
        BinnedED d(p.name, h);
        d.SetObservables(names);
        pdfs.push_back(p);
        add.push_back(d);
        modes.push_back(p.mode);
        what += cat(" add", modeName(p.mode));
      }
      if (wobs != names || wax != ax)
      { // added to pdfs that have been shrunk or projected: bring all to the same stage
        for (size_t q = 0; q < add.size(); ++q)
          man->AddPdf(add[q], modes[q]);
        man->ApplySystematics(none);
        wobs = names;
        wax = ax;
        for (auto &p : pdfs)
          p.work = p.orig;
      }
      else if (c.r.coin())
        man->AddPdfs(add, &modes);
      else
        for (size_t q = 0; q < add.size(); ++q)
          if (modes[q] == INDIRECT && c.r.coin())
            man->AddPdf(add[q]); // the default
          else
            man->AddPdf(add[q], modes[q]);
      cycled = false;
      break;
    }
    case 2: // all normalisations
    {
      std::vector<double> v;
      for (auto &p : pdfs)
        v.push_back(p.norm = genNorm(c, size));
      man->SetNormalisations(v);
      // those of pdfs without a fittable normalisation stay with the pdf
      what = " setnorms";
      falseSet = true;
      cycled = false;
      REFUSED("wrong number of norms", man->SetNormalisations(std::vector<double>(pdfs.size() + 1, 1)));
      break;
    }
    case 3: // one
    {
      Pdf &p = pdfs[size_t(c.r.ri(0, long(pdfs.size()) - 1))];
      if (p.mode == FALSE)
      {
        REFUSED("not a parameter", man->SetParameter(p.par, 3));
        REFUSED("not a parameter", man->GetParameter(p.par));
      }
      else
        man->SetParameter(p.par, p.norm = genNorm(c, size));
      what = " setone";
      cycled = false;
      break;
    }
    case 4: // by dictionary
    {
      ParameterDict d;
      for (auto &p : pdfs)
        if (p.mode != FALSE)
          d[p.par] = p.norm = genNorm(c, size);
      if (d.size() && c.r.coin(0.3))
      {
        ParameterDict bad = d;
        for (auto &q : bad)
          q.second += 5;
        bad.erase(std::next(bad.begin(), c.r.ri(0, long(bad.size()) - 1)));
        man->SetParameters(d);
        REFUSED("incomplete", man->SetParameters(bad));
      }
      else
        man->SetParameters(d);
      what = " setall";
      cycled = false;
      break;
    }
    case 5:
    {
      Pdf &p = pdfs[size_t(c.r.ri(0, long(pdfs.size()) - 1))];
      if (p.mode == FALSE)
        continue;
      std::string to = cat("norm", k);
      man->RenameParameter(p.par, to);
      p.par = to;
      what = " rename";
      break;
    }
    case 6: // copy, and go on with the copy; the old one is gone or stays behind with other values
    {
      std::unique_ptr<BinnedEDManager> o(new BinnedEDManager(*man));
      if (c.r.coin())
      {
        BinnedEDManager a;
        a.AddPdf(BinnedED("x", ax), FALSE);
        a = *o;
        o.reset(new BinnedEDManager(a));
      }
      falseSet = true;
      std::vector<double> junk(pdfs.size(), 12345);
      man->SetNormalisations(junk);
      man = std::move(o);
      what = " copy";
      cycled = false;
      break;
    }
    case 7:
      man->SetName("other");
      check(man->GetName() == "other", "name", "");
      man->ReassertNorms(c.r.coin());
      man->ReassertNorms();
      cycled = false;
      for (int q = 0; q < 2; ++q)
        man->ReassertNorms(q);
      for (size_t q = 0; q < pdfs.size(); ++q)
        if (pdfs[q].mode != FALSE)
          near(man->GetNormalisations().at(q), pdfs[q].norm, "normalisation", 1e-12, 0, "pdf ", q);
      what = " reassert";
      break;
    default: // the steps of an evaluation
    {
      bool useSys = withSys;
      if (c.r.coin() && useSys)
        setParams(c, s.get(), m);
      for (auto &p : pdfs)
      {
        BinnedED d(p.name, ax);
        if (useSys)
          sm.AddDist(d, "");
      }
      man->ReassertNorms();
      if (useSys)
        sm.Construct(), falseSet = false;
      man->ApplySystematics(useSys ? sm : none);
      Mat r = useSys ? m.response() : Mat();
      bool tiny = false;
      for (auto &p : pdfs)
      {
        p.work = useSys ? mulv(r, p.orig) : p.orig;
        tiny = tiny || sum(p.work) < 1e-6 * sum(p.orig);
      }
      wobs = names;
      wax = ax;
      if (tiny)
      { // pushed out of the range: the ratios of integrals further on have no meaning
        for (size_t i = 0; i < pdfs.size(); ++i)
          if (pdfs[i].mode != FALSE)
            near(man->GetNormalisations().at(i), pdfs[i].mode == DIRECT ? pdfs[i].norm : pdfs[i].norm * sum(pdfs[i].work) / sum(pdfs[i].orig),
                 "normalisation", 1e-8, 1, "of pdf ", i, " pushed out of the range");
        c.count("pushed out of the range");
        return;
      }
      if (names.size() > 1 && c.r.coin(0.4))
      {
        std::vector<std::string> keep = subset(c.r, names, size_t(c.r.ri(1, long(names.size()))));
        std::vector<size_t> kp;
        AxisCollection na;
        for (auto &q : keep)
          kp.push_back(pos(names, q)), na.AddAxis(ax.GetAxis(q));
        man->AssertDimensions(keep);
        for (auto &p : pdfs)
          p.work = project(p.work, dims(ax), kp);
        wobs = keep;
        wax = na;
        what = " project";
      }
      if (buffers && c.r.coin(0.7))
      {
        BinnedEDShrinker sh;
        bool over = c.r.coin();
        sh.SetUsingOverflows(over);
        AxisCollection na;
        Dims od = dims(wax), nd;
        std::vector<long> lo;
        bool any = false;
        for (size_t i = 0; i < wobs.size(); ++i)
        {
          unsigned l = unsigned(c.r.ri(0, 1)), u = unsigned(c.r.ri(0, 1));
          if (c.r.coin(0.8))
            sh.SetBuffer(wobs[i], l, u), any = true;
          else
            l = u = 0;
          std::vector<double> e = edges(wax.GetAxis(i));
          na.AddAxis(axisFromEdges(wobs[i], std::vector<double>(e.begin() + l, e.end() - u)));
          lo.push_back(l);
          nd.n.push_back(na.GetAxis(i).GetNBins());
        }
        BinnedED ref("ref", wax);
        ref.SetObservables(wobs);
        sh.SetBinMap(ref);
        man->ApplyShrink(sh);
        if (c.r.coin(0.3))
          man->ApplyShrink(sh); // once is enough
        bool shrunk = any && na != wax;
        if (shrunk)
          falseSet = false; // worked out again
        for (auto &p : pdfs)
        {
          std::vector<double> o(nd.total(), 0);
          for (size_t i = 0; i < p.work.size(); ++i)
          {
            std::vector<size_t> ix = od.unpack(i);
            bool out = false;
            for (size_t q = 0; q < ix.size(); ++q)
            {
              long j = long(ix[q]) - lo[q];
              out = out || j < 0 || j >= long(nd.n[q]);
              ix[q] = size_t(std::min(std::max(j, 0l), long(nd.n[q]) - 1));
            }
            if (!out || over)
              o[nd.flat(ix)] += p.work[i];
          }
          p.work = o;
          tiny = tiny || sum(p.work) < 1e-6;
          if (p.mode == DIRECT && shrunk)
          {
            double t = sum(p.work);
            for (auto &q : p.work)
              q /= t;
          }
        }
        wax = na;
        what += " shrink";
        if (tiny)
          return; // nothing left in the fit region
      }
      what = (useSys ? cat(" ", kindName(m.kind)) : std::string(" plain")) + what;
      cycled = true;
    }
    }
    hist += what;
    LOG << what;
    verify(hist);
    c.sig(hist);
    c.count("operations");
  }
}

// a distribution that is not a histogram
struct Mock : public EventDistribution
{
  double slope;
  unsigned n;
  std::string name;
  Mock(double s, unsigned n_, const std::string &nm) : slope(s), n(n_), name(nm) {}
  EventDistribution *Clone() const { return new Mock(*this); }
  double Probability(const Event &e) const { return slope * e.GetDatum(0) + 1; }
  double Integral() const { return 1; }
  void Normalise() {}
  unsigned GetNDims() const { return n; }
  std::string GetName() const { return name; }
  void SetName(const std::string &s) { name = s; }
};

SCENARIO(unbinned, 3)
{
  int size = genSize(c);
  std::unique_ptr<EDManager> man(new EDManager());
  struct D
  {
    std::string par;
    double norm, slope;
    bool mock;
    std::vector<double> v;
  };
  std::vector<D> ds;
  std::vector<std::string> names{"x", "y"};
  AxisCollection ax = genAxes(c.r, names, 30);
  std::string hist;
  for (int k = 0, n = int(c.r.ri(3, 12)); k < n; ++k)
  {
    switch (ds.empty() ? 0 : c.r.ri(0, 6))
    {
    case 0:
    case 1:
    {
      D d;
      d.par = cat("d", ds.size());
      d.norm = 0;
      d.slope = c.r.uni(0, 3);
      d.mock = c.r.coin();
      if (d.mock)
      {
        Mock mk(d.slope, 2, d.par);
        man->AddDist(&mk); // the manager keeps its own
      }
      else
      {
        BinnedED b(d.par, genHist(c.r, ax, true));
        b.SetObservables(names);
        d.v = b.GetBinContents();
        man->AddDists(std::vector<EventDistribution *>{&b});
      }
      ds.push_back(d);
      Mock wrong(1, 3, "wrong");
      REFUSED("dimensions", man->AddDist(&wrong));
      hist += " add";
      break;
    }
    case 2:
    {
      std::vector<double> v;
      for (auto &d : ds)
        v.push_back(d.norm = genNorm(c, size));
      man->SetNormalisations(v);
      REFUSED("norms", man->SetNormalisations(std::vector<double>(ds.size() - 1, 3)));
      hist += " norms";
      break;
    }
    case 3:
    {
      D &d = ds[size_t(c.r.ri(0, long(ds.size()) - 1))];
      man->SetParameter(d.par, d.norm = genNorm(c, size));
      hist += " set";
      break;
    }
    case 4:
    {
      ParameterDict p;
      for (auto &d : ds)
        p[d.par] = d.norm = genNorm(c, size);
      man->SetParameters(p);
      hist += " dict";
      break;
    }
    case 5:
    {
      D &d = ds[size_t(c.r.ri(0, long(ds.size()) - 1))];
      std::string to = cat("r", k);
      man->RenameParameter(d.par, to);
      d.par = to;
      hist += " rename";
      break;
    }
    default:
    {
      std::unique_ptr<EDManager> o(new EDManager(*man));
      if (c.r.coin())
      {
        EDManager a;
        Mock mk(1, 3, "mk");
        a.AddDist(&mk);
        a = *o;
        *o = a;
      }
      man->SetNormalisations(std::vector<double>(ds.size(), 777));
      man = std::move(o);
      hist += " copy";
    }
    }
    std::set<std::string> want;
    ParameterDict wd;
    std::vector<double> wn;
    for (auto &d : ds)
      want.insert(d.par), wd[d.par] = d.norm, wn.push_back(d.norm);
    check(man->GetParameterNames() == want && man->GetParameterCount() == want.size() && man->GetParameters() == wd, "parameters", hist);
    check(man->GetNormalisations() == wn, "normalisations", hist);
    check(man->GetNDists() == ds.size() && man->GetNDims() == 2, "count", "");
    for (int q = 0; q < 4; ++q)
    {
      std::vector<double> x{probeValue(c.r, edges(ax.GetAxis(0))), probeValue(c.r, edges(ax.GetAxis(1)))};
      double w = 0, scale = 0;
      for (auto &d : ds)
      {
        double t = d.norm * (d.mock ? d.slope * x[0] + 1 : d.v[modelFind(ax, x)] / sum(d.v));
        w += t;
        scale += std::fabs(t);
      }
      near(man->Probability(makeEvent(x, &names)), w, "probability", 1e-9, scale, hist);
    }
    c.count("states compared");
  }
  c.sig("unbinned" + hist);
}

DIRECTED(refusals)
{
  BinnedEDManager m;
  AxisCollection ax;
  ax.AddAxis(BinAxis("x", 0, 3, 3));
  BinnedED d("d", ax);
  d.SetBinContents({1, 2, 3});
  d.SetObservables({"x"});
  std::vector<NormFittingStatus> two{DIRECT, DIRECT};
  REFUSED("modes", m.AddPdfs({d}, &two));
  check(m.GetNPdfs() == 0 && m.GetParameterCount() == 0, "nothing added", "");
  m.AddPdf(d, DIRECT);
  REFUSED("unknown", m.SetParameter("e", 1));
  REFUSED("unknown", m.GetParameter("e"));
  REFUSED("unknown", m.RenameParameter("e", "f"));
  m.SetParameter("d", 2);
  near(m.BinProbability(1), 4, "probability", 1e-12, 0);
  check(m.GetOriginalPdf(0).GetBinContents() == d.GetBinContents(), "original", "");
}
