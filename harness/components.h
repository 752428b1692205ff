// A generator of fit components of every kind (nested ones too), each with a plain description of its parameters.
#ifndef OXV_COMPONENTS_H
#define OXV_COMPONENTS_H
#include "sysmodel.h"
#include <AnalyticED.h>
#include <BinnedEDManager.h>
#include <EDManager.h>
#include <Event.h>
#include <EventConvolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <Gaussian.h>
#include <JumpPDF.h>
#include <ParameterManager.h>
#include <SpectralFitDist.h>
#include <SquareRootScale.h>
#include <VaryingCDF.h>
#include <deque>
#include <list>

namespace oxv
{
typedef std::vector<double> V;
struct Spec
{
  std::string kind;
  std::function<std::shared_ptr<FitComponent>()> make;
  std::vector<std::string> names; // one per slot; equal names are one parameter
  V start;                        // empty: not specified
  std::vector<bool> strict;       // a dictionary without it must be refused
  enum { kRefuse, kMerge, kNever } onto = kRefuse;
  bool probeRenamed = true;
  std::function<V(FitComponent &)> probe;
  std::function<double(FitComponent &, size_t)> direct;
};

// ---- functions ------------------------------------------------------------------------------------------------
inline void gaussSlots(Spec &s, size_t n, const V &mean, const V &sd)
{
  for (size_t i = 0; i < n; ++i)
    s.names.push_back(cat("means_", i)), s.start.push_back(mean[i]);
  for (size_t i = 0; i < n; ++i)
    s.names.push_back(cat("stddevs_", i)), s.start.push_back(sd[i]);
  s.strict.assign(2 * n, false);
  s.onto = Spec::kMerge;
}
inline Spec genPDF(Case &c, size_t n)
{
  Spec s;
  if (c.r.coin(0.7))
  {
    V mean, sd;
    for (size_t i = 0; i < n; ++i)
      mean.push_back(c.r.uni(-1, 1)), sd.push_back(c.r.uni(0.3, 2));
    s.kind = cat("Gaussian", n);
    s.make = [=] { return std::make_shared<Gaussian>(mean, sd, "g"); };
    gaussSlots(s, n, mean, sd);
    s.direct = [n](FitComponent &f, size_t i) {
      Gaussian &g = dynamic_cast<Gaussian &>(f);
      double a = i < n ? g.GetMean(i) : g.GetStDev(i - n), b = i < n ? g.GetMeans().at(i) : g.GetStdDevs().at(i - n);
      return a == b ? a : NAN;
    };
  }
  else
  {
    s.kind = cat("Kernel", n);
    s.make = [=] { return std::make_shared<KernelPDF>(n); };
    KernelPars k(n);
    s.names = k.names, s.start = k.v, s.strict.assign(2 * n, true), s.onto = Spec::kNever;
  }
  s.probe = [n](FitComponent &f) {
    PDF &p = dynamic_cast<PDF &>(f);
    return V{p(V(n, 0.3)), p.Integral(V(n, -0.5), V(n, 0.8))};
  };
  return s;
}
inline std::shared_ptr<PDF> asPDF(const Spec &s) { return std::dynamic_pointer_cast<PDF>(s.make()); }

inline Spec genFunction(Case &c, size_t n)
{
  Spec s;
  if (c.r.coin(0.75))
  {
    s.kind = "SquareRootScale";
    std::string as = c.r.coin() ? "" : c.r.pick<std::string>({"q", "r", "grad2"});
    s.make = [=] {
      auto f = std::make_shared<SquareRootScale>("f");
      if (as.size())
        f->RenameParameter("grad", as);
      return f;
    };
    s.names = {as.size() ? as : "grad"}, s.start = {1}, s.strict = {true};
    s.direct = [](FitComponent &f, size_t) { return dynamic_cast<SquareRootScale &>(f).GetGradient(); };
    s.probe = [](FitComponent &f) { return V{dynamic_cast<Function &>(f)(V(1, 2.5)), dynamic_cast<Function &>(f)(V(1, 0.4))}; };
    (void)n;
    return s;
  }
  s = genPDF(c, n);
  return s;
}
inline std::shared_ptr<Function> asFunction(const Spec &s) { return std::dynamic_pointer_cast<Function>(s.make()); }

inline Spec genCond(Case &c, size_t n)
{
  Spec s;
  int k = int(c.r.ri(0, 3));
  if (k == 0)
  {
    s.kind = cat("Cond", n);
    s.make = [=] { return std::make_shared<KernelCond>(n); };
    KernelPars p(n);
    s.names = p.names, s.start = p.v, s.strict.assign(2 * n, true), s.onto = Spec::kNever;
  }
  else if (k == 1)
  {
    Spec b = genPDF(c, n);
    s = b;
    s.kind = "Jump(" + b.kind + ")";
    s.make = [=] { return std::make_shared<JumpPDF>("j", asPDF(b).get()); };
    s.direct = nullptr;
  }
  else
  {
    // a Gaussian kernel, up to three of whose parameters follow functions of the point
    size_t nf = size_t(c.r.ri(1, 3));
    std::vector<Spec> fs;
    std::vector<std::string> deps;
    std::vector<std::string> all;
    for (size_t i = 0; i < n; ++i)
      all.push_back(cat("stddevs_", i)), all.push_back(cat("means_", i));
    std::vector<std::string> chosen = subset(c.r, all, std::min(nf, all.size()));
    std::sort(chosen.begin(), chosen.end()); // the library keeps them sorted
    s.onto = Spec::kMerge;
    s.kind = cat("VaryingCDF", n, "(");
    for (auto &x : chosen)
    {
      Spec f = genFunction(c, n);
      fs.push_back(f), deps.push_back(x);
      s.kind += f.kind + ",";
      for (size_t i = 0; i < f.names.size(); ++i)
        s.names.push_back(f.names[i]), s.strict.push_back(f.strict[i]);
      if (f.onto == Spec::kNever)
        s.onto = Spec::kNever;
    }
    s.kind += ")";
    bool jump = c.r.coin();
    s.make = [=] {
      auto v = std::make_shared<VaryingCDF>("v");
      Gaussian g(n, "g");
      JumpPDF j("j", &g);
      if (jump)
        v->SetKernel(static_cast<ConditionalPDF *>(&j));
      else
        v->SetKernel(static_cast<PDF *>(&g));
      for (size_t i = 0; i < fs.size(); ++i)
        v->SetDependance(deps[i], asFunction(fs[i]).get());
      return v;
    };
  }
  s.probe = [n](FitComponent &f) {
    ConditionalPDF &p = dynamic_cast<ConditionalPDF &>(f);
    return V{p.ConditionalProbability(V(n, 0.3), V(n, 0.7)), p.Integral(V(n, -0.5), V(n, 0.8), V(n, 0.4))};
  };
  return s;
}
inline std::shared_ptr<ConditionalPDF> asCond(const Spec &s) { return std::dynamic_pointer_cast<ConditionalPDF>(s.make()); }

// ---- the rest -------------------------------------------------------------------------------------------------
struct ManagerComp : public FitComponent // a ParameterManager with parameters held in every kind of container
{
  double a = 0.5, b = 1.5;
  V v;
  std::list<double> l;
  std::deque<double> q;
  ParameterManager m;
  ManagerComp(size_t nv, size_t nl, size_t nq) : v(nv, 2), l(nl, 3), q(nq, 4)
  {
    m.AddDouble(a, "a");
    m.AddContainer<V>(v, "v");
    m.AddContainer<std::list<double>>(l, "l");
    std::vector<std::string> n;
    for (size_t i = 0; i < nq; ++i)
      n.push_back(cat("q", i * 7 % 10));
    m.AddContainer<std::deque<double>>(q, n);
    m.AddDouble(b, "b");
  }
  void SetParameter(const std::string &n, double x) { m.SetParameter(n, x); }
  double GetParameter(const std::string &n) const { return m.GetParameter(n); }
  void SetParameters(const ParameterDict &d) { m.SetParameters(d); }
  ParameterDict GetParameters() const { return m.GetParameters(); }
  size_t GetParameterCount() const { return m.GetParameterCount(); }
  std::set<std::string> GetParameterNames() const { return m.GetParameterNames(); }
  void RenameParameter(const std::string &o, const std::string &n) { m.RenameParameter(o, n); }
  std::string GetName() const { return name; }
  void SetName(const std::string &n) { name = n; }
  std::string name;
};

inline Spec generate(Case &c)
{
  Spec s;
  int k = int(c.r.ri(0, 15));
  if (k <= 1)
    return genPDF(c, size_t(c.r.ri(1, 3)));
  if (k == 2)
    return genFunction(c, 1);
  if (k <= 4)
    return genCond(c, size_t(c.r.ri(1, 2)));
  if (k == 5)
  {
    size_t n = size_t(c.r.ri(1, 3));
    s = genPDF(c, n);
    Spec b = s;
    s.kind = "AnalyticED(" + b.kind + ")";
    s.make = [=] { return std::make_shared<AnalyticED>("ed", asPDF(b).get()); };
    s.direct = nullptr;
    s.probe = [n](FitComponent &f) { return V{dynamic_cast<AnalyticED &>(f).Probability(V(n, 0.4))}; };
    return s;
  }
  if (k == 6)
  {
    Spec b = c.r.coin() ? genPDF(c, 1) : genCond(c, 1);
    s = b;
    s.kind = "EventConvolution(" + b.kind + ")";
    s.make = [=] {
      auto e = std::make_shared<EventConvolution>("ec");
      auto f = b.make();
      if (PDF *p = dynamic_cast<PDF *>(f.get()))
        e->SetPDF(p);
      else
        e->SetConditionalPDF(dynamic_cast<ConditionalPDF *>(f.get()));
      return e;
    };
    s.direct = nullptr, s.probe = nullptr;
    return s;
  }
  if (k <= 8) // systematics
  {
    SysModel m;
    m.kind = int(c.r.ri(0, kRenorm));
    chooseDist(c, m, 2, 12);
    chooseTrans(c, m);
    chooseFunction(c, m);
    s.kind = kindName(m.kind);
    Spec b;
    if (m.kind == kConv || m.kind == kCond)
    {
      b = m.kind == kConv ? genPDF(c, m.trans.size()) : genCond(c, m.trans.size());
      s = b;
      s.kind = "Convolution(" + b.kind + ")";
      s.direct = nullptr;
    }
    else if (m.kind == kScale)
      s.names = {"scaleFactor"}, s.start = {1}, s.direct = [](FitComponent &f, size_t) { return dynamic_cast<Scale &>(f).GetScaleFactor(); };
    else if (m.kind == kShift)
      s.names = {"shift"}, s.direct = [](FitComponent &f, size_t) { return dynamic_cast<Shift &>(f).GetShift(); };
    else if (m.kind == kScaleFunc || m.kind == kShape)
      s.names = {"a", "b"}, s.start = {0, 0}, s.probeRenamed = false;
    if (s.strict.empty())
      s.strict.assign(s.names.size(), true);
    s.make = [m, b] {
      std::shared_ptr<Systematic> y(makeSystematic(m.kind, "sys"));
      y->SetAxes(m.axes);
      setObs(y.get(), m);
      if (m.kind == kConv)
        static_cast<Convolution *>(y.get())->SetFunction(asPDF(b).get());
      else if (m.kind == kCond)
        static_cast<Convolution *>(y.get())->SetConditionalPDF(asCond(b).get());
      else
        applyFunction(y.get(), m);
      return y;
    };
    size_t nb = m.axes.GetNBins();
    s.probe = [nb](FitComponent &f) {
      Systematic &y = dynamic_cast<Systematic &>(f);
      y.Construct();
      V o;
      for (size_t i = 0; i < nb; ++i)
        for (size_t j = 0; j < nb; ++j)
          o.push_back(y.GetResponse().GetComponent(i, j));
      return o;
    };
    return s;
  }
  if (k == 9)
  {
    auto probe = [](FitComponent &f) {
      EventSystematic &e = dynamic_cast<EventSystematic &>(f);
      e.SetInObservables({"x", "y"});
      e.SetOutObservables({"x"});
      Event ev(V{1.25, 0.5});
      std::vector<std::string> names{"x", "y"};
      ev.SetObservableNames(&names);
      Event o = e(ev);
      return V{o.GetDatum(0), o.GetDatum(1)};
    };
    s.strict = {true}, s.probe = probe;
    int w = int(c.r.ri(0, 2));
    if (w == 0)
    {
      s.kind = "EventScale", s.names = {"scale"}, s.start = {1};
      s.make = [] { return std::make_shared<EventScale>("e"); };
      s.direct = [](FitComponent &f, size_t) { return dynamic_cast<EventScale &>(f).GetScale(); };
    }
    else if (w == 1)
    {
      s.kind = "EventShift", s.names = {"shift"}, s.start = {0};
      s.make = [] { return std::make_shared<EventShift>("e"); };
      s.direct = [](FitComponent &f, size_t) { return dynamic_cast<EventShift &>(f).GetShift(); };
    }
    else
    {
      s.kind = "EventReconvolution", s.names = {"correction"}, s.start = {1};
      s.make = [] { return std::make_shared<EventReconvolution>("e"); };
      s.direct = [](FitComponent &f, size_t) { return dynamic_cast<EventReconvolution &>(f).GetCorrection(); };
    }
    return s;
  }
  if (k == 10)
  {
    auto names = genNames(c.r, int(c.r.ri(1, 2)));
    AxisCollection ax = genAxes(c.r, names, 12);
    if (c.r.coin(0.03))
    {
      ax = AxisCollection();
      ax.AddAxis(BinAxis(names[0], 0, 1, size_t(c.r.ri(100, 300))));
      names.resize(1);
    }
    s.kind = "SpectralFitDist";
    for (size_t i = 0; i < ax.GetNBins(); ++i)
      s.names.push_back(cat("sp_bin_", i)), s.start.push_back(0);
    s.strict.assign(s.names.size(), true);
    s.make = [=] {
      auto d = std::make_shared<SpectralFitDist>("sp", ax);
      d->SetObservables(names);
      return d;
    };
    s.direct = [](FitComponent &f, size_t i) { return dynamic_cast<SpectralFitDist &>(f).GetBinContent(i); };
    size_t nb = ax.GetNBins();
    s.probe = [nb](FitComponent &f) {
      SpectralFitDist &d = dynamic_cast<SpectralFitDist &>(f);
      V o = d.GetBinContents();
      o.push_back(d.Integral());
      return o;
    };
    return s;
  }
  if (k == 11)
  {
    size_t n = size_t(c.r.ri(1, 5));
    V norms;
    for (size_t i = 0; i < n; ++i)
      s.names.push_back(cat("d", i * 3 % 7)), norms.push_back(c.r.uni(0, 10));
    s.kind = "EDManager", s.strict.assign(n, true);
    std::vector<std::string> names = s.names;
    s.make = [=] {
      auto m = std::make_shared<EDManager>();
      for (size_t i = 0; i < n; ++i)
      {
        Gaussian g(double(i), 1 + 0.3 * i, "g");
        AnalyticED e(names[i], &g);
        e.SetObservables(std::vector<std::string>{"x"});
        m->AddDist(&e);
      }
      return m;
    };
    s.direct = [](FitComponent &f, size_t i) { return dynamic_cast<EDManager &>(f).GetNormalisations().at(i); };
    s.probe = [](FitComponent &f) {
      Event ev(V{1.25});
      std::vector<std::string> nm{"x"};
      ev.SetObservableNames(&nm);
      return V{dynamic_cast<EDManager &>(f).Probability(ev)};
    };
    return s;
  }
  if (k <= 13)
  {
    size_t n = size_t(c.r.ri(1, 5));
    std::vector<NormFittingStatus> modes;
    std::vector<V> cont;
    std::vector<std::string> names;
    AxisCollection ax;
    ax.AddAxis(genAxis(c.r, "x", 4));
    int all = int(c.r.ri(0, 3));
    for (size_t i = 0; i < n; ++i)
    {
      names.push_back(cat("d", i * 3 % 7));
      modes.push_back(all == 0 ? DIRECT : all == 1 ? INDIRECT : c.r.coin(0.2) ? FALSE : c.r.coin() ? DIRECT : INDIRECT);
      V v;
      for (size_t b = 0; b < ax.GetNBins(); ++b)
        v.push_back(c.r.uni(0.1, 1));
      cont.push_back(v);
      if (modes[i] != FALSE)
        s.names.push_back(names[i]);
    }
    s.kind = "BinnedEDManager";
    s.strict.assign(s.names.size(), true);
    s.make = [=] {
      auto m = std::make_shared<BinnedEDManager>();
      for (size_t i = 0; i < n; ++i)
      {
        BinnedED d(names[i], ax);
        d.SetObservables(std::vector<std::string>{"x"});
        for (size_t b = 0; b < cont[i].size(); ++b)
          d.SetBinContent(b, cont[i][b]);
        m->AddPdf(d, modes[i]);
      }
      return m;
    };
    size_t nb = ax.GetNBins();
    s.probe = [nb](FitComponent &f) {
      V o;
      for (size_t b = 0; b < nb; ++b)
        o.push_back(dynamic_cast<BinnedEDManager &>(f).BinProbability(b));
      return o;
    };
    if (std::count(modes.begin(), modes.end(), DIRECT) == long(n))
      s.direct = [](FitComponent &f, size_t i) { return dynamic_cast<BinnedEDManager &>(f).GetNormalisations().at(i); };
    return s;
  }
  size_t nv = size_t(c.r.coin(0.01) ? c.r.ri(90, 250) : c.r.ri(0, 12)), nl = size_t(c.r.ri(0, 4)), nq = size_t(c.r.ri(0, 5));
  s.kind = "ParameterManager";
  s.names = {"a"}, s.start = {0.5};
  for (size_t i = 0; i < nv; ++i)
    s.names.push_back(cat("v_", i)), s.start.push_back(2);
  for (size_t i = 0; i < nl; ++i)
    s.names.push_back(cat("l_", i)), s.start.push_back(3);
  for (size_t i = 0; i < nq; ++i)
    s.names.push_back(cat("q", i * 7 % 10)), s.start.push_back(4);
  s.names.push_back("b"), s.start.push_back(1.5);
  s.strict.assign(s.names.size(), true);
  s.make = [=] { return std::make_shared<ManagerComp>(nv, nl, nq); };
  s.direct = [=](FitComponent &f, size_t i) {
    ManagerComp &m = dynamic_cast<ManagerComp &>(f);
    if (i == 0)
      return m.a;
    if (i <= nv)
      return m.v[i - 1];
    if (i <= nv + nl)
      return *std::next(m.l.begin(), long(i - nv - 1));
    return i <= nv + nl + nq ? m.q[i - nv - nl - 1] : m.b;
  };
  return s;
}

inline double genValue(Case &c, bool wild)
{
  if (!wild)
    return c.r.coin(0.2) ? 0.25 * c.r.ri(1, 12) : c.r.uni(0.2, 3);
  return c.r.coin(0.2) ? 0 : c.r.coin(0.2) ? c.r.uni(-1e9, 1e9) : c.r.coin(0.2) ? std::pow(10, c.r.uni(-300, 300)) : c.r.gaus();
}
} // namespace oxv
#endif
