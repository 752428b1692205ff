// P22: copies, clones and assignments are independent and leave no memory errors.
// OXV_NEEDS_ROOT: Gaussian and what is built on it are only compiled in there
#include "sysmodel.h"
#include <AnalyticED.h>
#include <AutoCorrelationCalc.h>
#include <BinnedEDGenerator.h>
#include <BinnedEDManager.h>
#include <BinnedEDShrinker.h>
#include <BoolCut.h>
#include <BoxCut.h>
#include <ComponentManager.h>
#include <CompositeED.h>
#include <ConstraintManager.h>
#include <CountingResult.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <DataSetGenerator.h>
#include <DenseMatrix.h>
#include <EDManager.h>
#include <EventConvolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <FitResult.h>
#include <Gaussian.h>
#include <GridSearch.h>
#include <JumpPDF.h>
#include <LineCut.h>
#include <MetropolisSampler.h>
#include <SparseMatrix.h>
#include <SpectralFitDist.h>
#include <SquareRootScale.h>
#include <SystematicManager.h>
#include <VaryingCDF.h>
using namespace oxv;
PLAN("P22", 48000, 1200000,
     "Histories over a pool of objects of one type (every copyable type of the library, differently shaped): construct, "
     "copy, clone, assign, self-assign, mutate and destroy in any order. Every object carries the list of mutations it "
     "inherited; after each step every object's whole observable behaviour must equal that of an object built afresh "
     "with the same mutations. AddressSanitizer watches the memory and the heap must return to where it was. "
     "Distinct = (type, history).")

struct Print
{
  std::vector<double> v;
  std::string s;
  void add(double x) { v.push_back(x); }
  void add(const std::vector<double> &x)
  {
    add(double(x.size()));
    v.insert(v.end(), x.begin(), x.end());
  }
  void add(const std::string &x) { s += x + "|"; }
  void add(const std::vector<std::string> &x) { s += str(x) + "|"; }
  void add(const std::set<std::string> &x) { s += str(x) + "|"; }
  void add(const ParameterDict &d)
  {
    for (auto &p : d)
      add(p.first), add(p.second);
  }
  void add(const AxisCollection &a)
  {
    add(double(a.GetNDimensions()));
    add(double(a.GetNBins()));
    for (size_t i = 0; i < a.GetNDimensions(); ++i)
    {
      const BinAxis &x = a.GetAxis(i);
      add(x);
    }
    for (size_t b = 0; b < a.GetNBins(); b += 3)
      for (size_t i : a.UnpackIndices(b))
        add(double(i));
  }
  void add(const BinAxis &x)
  {
    add(x.GetName()), add(x.GetLatexName());
    add(x.GetBinLowEdges()), add(x.GetBinHighEdges()), add(x.GetBinCentres());
    add(double(x.FindBin(0.7)));
  }
  void add(const Histogram &h)
  {
    add(h.GetAxes()), add(h.GetBinContents()), add(h.Integral()), add(double(h.GetNDims()));
  }
  void add(const FitComponent &f)
  {
    add(f.GetParameterNames()), add(f.GetParameters()), add(double(f.GetParameterCount()));
    for (auto &n : f.GetParameterNames())
      add(f.GetParameter(n));
  }
};

struct AnyType
{
  std::string name;
  bool canAssign = true, canClone = false;
  virtual ~AnyType() {}
  virtual std::shared_ptr<void> make(Rng r) const = 0;
  virtual std::shared_ptr<void> copy(const void *) const = 0;
  virtual std::shared_ptr<void> clone(const void *) const = 0;
  virtual void assign(void *, const void *) const = 0;
  virtual void mutate(void *, Rng r) const = 0;
  virtual void print(void *, Print &) const = 0;
};
template <class T>
struct TypeOf : AnyType
{
  std::function<T *(Rng &)> mk;
  std::function<void(T &, Rng &)> mu;
  std::function<void(T &, Print &)> pr;
  std::function<T *(const T &)> cl;
  std::shared_ptr<void> make(Rng r) const { return std::shared_ptr<T>(mk(r)); }
  std::shared_ptr<void> copy(const void *o) const { return std::make_shared<T>(*static_cast<const T *>(o)); }
  std::shared_ptr<void> clone(const void *o) const { return std::shared_ptr<T>(cl(*static_cast<const T *>(o))); }
  void assign(void *d, const void *s) const
  {
    T &r = (*static_cast<T *>(d) = *static_cast<const T *>(s));
    check(&r == d, "assign-returns", name, ": assignment returns another object");
  }
  void mutate(void *o, Rng r) const
  {
    if (mu)
      mu(*static_cast<T *>(o), r);
  }
  void print(void *o, Print &p) const { pr(*static_cast<T *>(o), p); }
};
static std::vector<std::shared_ptr<AnyType>> gTypes;
template <class T>
static TypeOf<T> &type(const std::string &n, std::function<T *(Rng &)> mk, std::function<void(T &, Rng &)> mu, std::function<void(T &, Print &)> pr)
{
  auto t = std::make_shared<TypeOf<T>>();
  t->name = n, t->mk = mk, t->mu = mu, t->pr = pr;
  gTypes.push_back(t);
  return *t;
}
template <class T, class B>
static void clonable(TypeOf<T> &t)
{
  t.canClone = true;
  t.cl = [](const T &o) {
    B *b = static_cast<const B &>(o).Clone();
    T *d = dynamic_cast<T *>(b);
    if (!d)
    {
      delete b;
      fail("clone-type", "the clone is not of the cloned object's type");
    }
    return d;
  };
}

static AxisCollection someAxes(Rng &r, int maxDims, int maxBins)
{
  return genAxes(r, genNames(r, int(r.ri(1, maxDims))), maxBins);
}
static AxisCollection xyAxes(Rng &r)
{
  AxisCollection a;
  a.AddAxis(genAxis(r, "x", int(r.ri(1, 5))));
  if (r.coin())
    a.AddAxis(genAxis(r, "y", int(r.ri(1, 3))));
  return a;
}
static std::vector<double> some(Rng &r, size_t n, double lo = -2, double hi = 2)
{
  std::vector<double> v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(r.uni(lo, hi));
  return v;
}
static void setSome(FitComponent &f, Rng &r)
{
  std::set<std::string> s = f.GetParameterNames();
  std::vector<std::string> n(s.begin(), s.end());
  if (n.empty())
    return;
  int k = int(r.ri(0, 3));
  if (k == 0)
  {
    ParameterDict d;
    for (auto &x : n)
      d[x] = r.uni(0.3, 2);
    f.SetParameters(d);
  }
  else if (k <= 2)
    f.SetParameter(r.pick(n), r.uni(0.3, 2));
  else
  {
    std::string to = cat("r", r.ri(0, 1000));
    if (!s.count(to))
      f.RenameParameter(r.pick(n), to);
  }
}
static Gaussian someGauss(Rng &r, size_t n) { return Gaussian(some(r, n), some(r, n, 0.3, 2), "g"); }
static Event someEvent()
{
  static const std::vector<std::string> names{"x", "y", "z"};
  Event e(std::vector<double>{0.4, -0.3, 1.2});
  e.SetObservableNames(&names);
  return e;
}
static BinnedED someBinned(Rng &r, const std::string &n)
{
  AxisCollection a = xyAxes(r);
  BinnedED d(n, a);
  std::vector<std::string> o{"x", "y"};
  o.resize(a.GetNDimensions());
  d.SetObservables(o);
  d.SetBinContents(some(r, a.GetNBins(), 0.1, 3));
  return d;
}
static void printBinned(BinnedED &d, Print &p)
{
  p.add(d.GetHistogram()), p.add(d.GetObservables()), p.add(static_cast<EventDistribution &>(d).GetName());
  p.add(d.Probability(someEvent()));
}
static void mutateBinned(BinnedED &d, Rng &r)
{
  int k = int(r.ri(0, 6));
  if (k == 0)
    d.Fill(some(r, d.GetNDims(), -6, 6), r.uni(0.1, 2));
  else if (k == 1)
    d.Scale(r.uni(0.5, 2));
  else if (k == 2)
    d.SetBinContents(some(r, d.GetNBins(), 0.1, 3));
  else if (k == 3)
    d.SetBinContent(size_t(r.ri(0, long(d.GetNBins()) - 1)), r.uni(0.1, 9));
  else if (k == 4)
  {
    std::vector<std::string> o{"z", "y", "x"};
    r.shuffle(o);
    o.resize(d.GetNDims());
    d.SetObservables(o);
  }
  else if (k == 5)
    d.Add(d, 0.5);
  else
    static_cast<EventDistribution &>(d).SetName(cat("nm", r.ri(0, 1000)));
}

template <class S>
static void systematicType(const std::string &n, int kind)
{
  type<S>(
      n,
      [kind, n](Rng &r) {
        std::unique_ptr<S> s(dynamic_cast<S *>(makeSystematic(kind, n)));
        if (r.coin(0.9))
        {
          Case c;
          c.r = r;
          SysModel m;
          m.kind = kind;
          chooseDist(c, m, 2, 10);
          chooseTrans(c, m);
          s->SetAxes(m.axes);
          setObs(s.get(), m);
          chooseFunction(c, m);
          applyFunction(s.get(), m);
          setParams(c, s.get(), m);
        }
        return s.release();
      },
      [kind](S &s, Rng &r) {
        Case c;
        c.r = r;
        int k = int(r.ri(0, 3));
        if (k == 0 && s.GetAxes().GetNBins() && s.GetAxes().GetNDimensions() && s.GetResponse().GetNRows() == s.GetAxes().GetNBins())
          s.Construct();
        else if (k == 1)
        {
          SysModel m;
          m.kind = kind;
          chooseDist(c, m, 2, 10);
          chooseTrans(c, m);
          s.SetAxes(m.axes);
          setObs(&s, m);
          chooseFunction(c, m);
          applyFunction(&s, m);
          setParams(c, &s, m);
        }
        else if (k == 2)
          s.SetName(cat("nm", r.ri(0, 99)));
        else if (s.GetAxes().GetNDimensions() && kind != kRenorm)
          s.SetParameter(*s.GetParameterNames().begin(), r.uni(0.3, 2));
      },
      [](S &s, Print &p) {
        p.add(s.GetName()), p.add(s.GetTransformationObs().GetNames()), p.add(s.GetDistributionObs().GetNames());
        if (!s.GetAxes().GetNDimensions())
          return;
        p.add(s.GetAxes());
        p.add(static_cast<FitComponent &>(s));
        const SparseMatrix &m = s.GetResponse();
        p.add(double(m.GetNRows()));
        for (size_t i = 0; i < m.GetNRows(); ++i)
          for (size_t j = 0; j < m.GetNCols(); ++j)
            p.add(m.GetComponent(i, j));
        // what it would do; on a copy of the printed object, which is not to change here
        S t(s);
        t.Construct();
        BinnedED d("d", s.GetAxes());
        d.SetObservables(s.GetDistributionObs().GetNames());
        for (size_t b = 0; b < d.GetNBins(); ++b)
          d.SetBinContent(b, 1 + b % 3);
        double norm = 0;
        BinnedED o = t(d, &norm);
        p.add(o.GetBinContents()), p.add(norm);
      });
}

template <class S>
static TypeOf<S> &eventSystematicType(const std::string &n)
{
  return type<S>(
      n, [n](Rng &) { return new S(n); },
      [](S &s, Rng &r) {
        int k = int(r.ri(0, 3));
        if (k == 0)
          s.SetOutObservables({r.pick<std::string>({"x", "y", "z"})});
        else if (k == 1)
          s.SetInObservables(subset(r, std::vector<std::string>{"x", "y", "z"}, size_t(r.ri(1, 3))));
        else if (k == 2)
          s.SetName(cat("nm", r.ri(0, 99)));
        else
          setSome(s, r);
      },
      [n](S &s, Print &p) {
        p.add(s.GetName()), p.add(static_cast<FitComponent &>(s)), p.add(s.GetInObservables()), p.add(s.GetOutObservables());
        if (s.GetOutObservables().size() && (n != "EventReconvolution" || s.GetInObservables().size()))
          p.add(s(someEvent()).GetData());
      });
}

static EDManager *newEDManager(Rng &) { return new EDManager(); }

static void setupTypes()
{
  if (gTypes.size())
    return;
  // ---- histograms
  type<BinAxis>("BinAxis", [](Rng &r) { return new BinAxis(genAxis(r, cat("a", r.ri(0, 9)), int(r.ri(1, 12)))); }, nullptr,
                [](BinAxis &a, Print &p) { p.add(a); });
  type<AxisCollection>(
      "AxisCollection", [](Rng &r) { return r.coin(0.1) ? new AxisCollection() : new AxisCollection(someAxes(r, 4, 60)); },
      [](AxisCollection &a, Rng &r) {
        if (a.GetNBins() < 200)
          a.AddAxis(genAxis(r, cat("new", a.GetNDimensions()), int(r.ri(1, 3))));
      },
      [](AxisCollection &a, Print &p) { p.add(a), p.add(a.GetAxisNames()); });
  type<Histogram>(
      "Histogram", [](Rng &r) {
        if (r.coin(0.1))
          return new Histogram();
        Histogram *h = new Histogram(someAxes(r, 3, 40));
        h->SetBinContents(some(r, h->GetNBins()));
        return h; },
      [](Histogram &h, Rng &r) {
        int k = int(r.ri(0, 4));
        if (!h.GetNDims() || k == 0)
          h.SetAxes(someAxes(r, 3, 40));
        else if (k == 1)
          h.Fill(some(r, h.GetNDims(), -6, 6), r.uni());
        else if (k == 2)
          h.SetBinContent(size_t(r.ri(0, long(h.GetNBins()) - 1)), r.uni());
        else if (k == 3)
          h.Scale(r.uni(0.5, 2));
        else
          h.Empty();
      },
      [](Histogram &h, Print &p) {
        p.add(double(h.GetNDims()));
        if (h.GetNDims())
          p.add(h), p.add(double(h.FindBin(std::vector<double>(h.GetNDims(), 0.3))));
      });
  // ---- matrices
  type<DenseMatrix>(
      "DenseMatrix", [](Rng &r) { return new DenseMatrix(size_t(r.coin(0.1) ? r.ri(30, 300) : r.ri(3, 6)), 3); }, [](DenseMatrix &m, Rng &r) {
        if (r.coin(0.2))
          m.SetZeros();
        else
          m.SetComponent(size_t(r.ri(0, 2)), size_t(r.ri(0, 2)), r.uni()); },
      [](DenseMatrix &m, Print &p) { p.add(m(std::vector<double>{1, 2, 5})), p.add(m.GetComponent(1, 2)); });
  type<SparseMatrix>(
      "SparseMatrix", [](Rng &r) { return new SparseMatrix(size_t(r.coin(0.1) ? r.ri(30, 300) : r.ri(3, 6)), 3); }, [](SparseMatrix &m, Rng &r) {
        if (r.coin(0.2))
          m.Scale(r.uni());
        else if (r.coin(0.2))
          m.SetZeros();
        else
          m.SetComponent(size_t(r.ri(0, 2)), size_t(r.ri(0, 2)), r.uni()); },
      [](SparseMatrix &m, Print &p) { p.add(m(std::vector<double>{1, 2, 5})), p.add(m.GetComponent(1, 2)), p.add(double(m.GetNRows())); });
  // ---- data
  type<ObsSet>(
      "ObsSet", [](Rng &r) { return r.coin(0.2) ? new ObsSet() : new ObsSet(genNames(r, int(r.coin(0.1) ? r.ri(6, 40) : r.ri(1, 5)))); },
      [](ObsSet &o, Rng &r) { o.SetNames(genNames(r, int(r.coin(0.1) ? r.ri(6, 40) : r.ri(1, 5)))); },
      [](ObsSet &o, Print &p) {
        p.add(o.GetNames()), p.add(double(o.GetNObservables()));
        for (auto &n : o.GetNames())
          p.add(double(o.GetIndex(n)));
      });
  type<Event>(
      "Event", [](Rng &r) {
        static const std::vector<std::string> names[] = {{}, {"a"}, {"a", "b"}, {"a", "b", "c"}};
        size_t n = size_t(r.ri(1, 3));
        Event *e = new Event(some(r, n));
        e->SetObservableNames(&names[n]);
        return e; },
      [](Event &e, Rng &r) {
        if (r.coin())
          e.SetDatum("a", r.uni());
        else
          e.SetDatum(size_t(r.ri(0, long(e.GetNObservables()) - 1)), r.uni());
      },
      [](Event &e, Print &p) { p.add(e.GetData()), p.add(e.GetObservableNames()), p.add(e.GetDatum("a")), p.add(e.ToObsSet(ObsSet(e.GetObservableNames()))), p.add(double(e.GetDataMap().size())); });
  type<OXSXDataSet>(
      "OXSXDataSet", [](Rng &r) {
        OXSXDataSet *d = new OXSXDataSet();
        d->SetObservableNames(genNames(r, int(r.coin(0.1) ? r.ri(4, 30) : r.ri(1, 3))));
        return d; },
      [](OXSXDataSet &d, Rng &r) {
        if (r.coin(0.2))
        {
          std::vector<std::string> n = d.GetObservableNames();
          r.shuffle(n);
          d.SetObservableNames(n);
        }
        else if (r.coin(0.2))
          d = d + d;
        else
          d.AddEntry(Event(some(r, d.GetObservableNames().size())));
      },
      [](OXSXDataSet &d, Print &p) {
        p.add(double(d.GetNEntries())), p.add(d.GetObservableNames());
        for (size_t i = 0; i < d.GetNEntries(); ++i)
        {
          Event e = d.GetEntry(i);
          p.add(e.GetData()), p.add(e.GetObservableNames()), p.add(e.GetDatum(d.GetObservableNames().at(0)));
        }
      });
  // ---- cuts
  clonable<BoxCut, Cut>(type<BoxCut>(
      "BoxCut", [](Rng &r) { return new BoxCut(cat("c", r.ri(0, 9)), r.pick<std::string>({"x", "y", "z"}), r.uni(-2, 0), r.uni(0, 2)); },
      [](BoxCut &b, Rng &r) {
        if (r.coin())
          b.SetLowerLimit(r.uni(-2, 2));
        else
          b.SetUpperLimit(r.uni(-2, 2));
      },
      [](BoxCut &b, Print &p) { p.add(b.GetName()), p.add(b.GetLowerLimit()), p.add(b.GetUpperLimit()), p.add(b.PassesCut(someEvent())); }));
  clonable<LineCut, Cut>(type<LineCut>(
      "LineCut", [](Rng &r) { return new LineCut(cat("c", r.ri(0, 9)), r.pick<std::string>({"x", "y", "z"}), r.uni(-2, 2), r.coin() ? "upper" : "lower"); },
      [](LineCut &b, Rng &r) {
        if (r.coin())
          b.SetCutValue(r.uni(-2, 2));
        else
          b.SetSidedness(r.coin() ? "upper" : "lower");
      },
      [](LineCut &b, Print &p) { p.add(b.GetName()), p.add(b.GetCutValue()), p.add(b.GetSidedness()), p.add(b.PassesCut(someEvent())); }));
  clonable<BoolCut, Cut>(type<BoolCut>(
      "BoolCut", [](Rng &r) { return new BoolCut(cat("c", r.ri(0, 9)), r.pick<std::string>({"x", "y", "z"}), r.coin() ? 0.4 : 1); }, nullptr,
      [](BoolCut &b, Print &p) { p.add(b.GetName()), p.add(b.PassesCut(someEvent())); }));
  type<CutCollection>(
      "CutCollection", [](Rng &) { return new CutCollection(); },
      [](CutCollection &cc, Rng &r) {
        int k = int(r.ri(0, 2));
        std::string n = cat("c", r.ri(0, 99)), o = r.pick<std::string>({"x", "y", "z"});
        if (k == 0)
          cc.AddCut(BoxCut(n, o, r.uni(-5, 0), r.uni(0, 5)));
        else if (k == 1)
          cc.AddCut(BoolCut(n, o, r.coin() ? 0.4 : 1));
        else
          cc.AddCut(LineCut(n, o, r.uni(-2, 2), r.coin() ? "upper" : "lower"));
      },
      [](CutCollection &cc, Print &p) {
        p.add(cc.GetCutNames()), p.add(cc.PassesCuts(someEvent()));
        CutLog log(cc.GetCutNames());
        cc.PassesCuts(someEvent(), log);
        for (int i : log.GetCutCounts())
          p.add(i);
      });
  type<CutLog>(
      "CutLog", [](Rng &r) { return r.coin(0.2) ? new CutLog() : new CutLog(genNames(r, int(r.coin(0.1) ? r.ri(5, 40) : r.ri(1, 4)))); },
      [](CutLog &l, Rng &r) {
        size_t n = l.GetCutNames().size();
        if (n && r.coin(0.6))
          l.LogCut(size_t(r.ri(0, long(n) - 1)));
        else if (r.coin(0.7))
          l.LogPass();
        else
          l.CalculateMeta();
      },
      [](CutLog &l, Print &p) {
        p.add(l.GetCutNames()), p.add(l.GetCutPercentages()), p.add(l.GetRemainderPercentages());
        for (int i : l.GetCutCounts())
          p.add(i);
        for (int i : l.GetRemainderCounts())
          p.add(i);
        CutLog t(l);
        t.CalculateMeta();
        p.add(t.GetRemainderPercentages());
      });
  // ---- functions
  clonable<Gaussian, Function>(type<Gaussian>(
      "Gaussian", [](Rng &r) { return new Gaussian(someGauss(r, size_t(r.coin(0.1) ? r.ri(4, 12) : r.ri(1, 3)))); },
      [](Gaussian &g, Rng &r) {
        int k = int(r.ri(0, 4));
        if (k == 0)
          g.SetMeans(some(r, g.GetNDims()));
        else if (k == 1)
          g.SetStDev(size_t(r.ri(0, long(g.GetNDims()) - 1)), r.uni(0.3, 2));
        else if (k == 2)
          g.SetCdfCutOff(r.uni(0.5, 6));
        else
          setSome(g, r);
      },
      [](Gaussian &g, Print &p) {
        p.add(static_cast<FitComponent &>(g)), p.add(g.GetMeans()), p.add(g.GetStdDevs()), p.add(g.GetMeanNames()), p.add(g.GetStDevNames());
        p.add(g.GetCdfCutOff()), p.add(double(g.GetNDims()));
        p.add(g(std::vector<double>(g.GetNDims(), 0.2))), p.add(g.Integral(std::vector<double>(g.GetNDims(), -2), std::vector<double>(g.GetNDims(), 1.2)));
      }));
  clonable<SquareRootScale, Function>(type<SquareRootScale>(
      "SquareRootScale", [](Rng &) { return new SquareRootScale("s"); },
      [](SquareRootScale &g, Rng &r) {
        if (r.coin(0.3))
          g.SetName(cat("n", r.ri(0, 9)));
        else
          setSome(g, r);
      },
      [](SquareRootScale &g, Print &p) { p.add(static_cast<FitComponent &>(g)), p.add(g.GetGradient()), p.add(g.GetName()), p.add(g(std::vector<double>(1, 2.))); }));
  clonable<JumpPDF, ConditionalPDF>(type<JumpPDF>(
      "JumpPDF", [](Rng &r) {
        if (r.coin(0.1))
          return new JumpPDF("empty");
        Gaussian g = someGauss(r, 1);
        KernelPDF k(1);
        return r.coin(0.6) ? new JumpPDF("j", &g) : new JumpPDF("j", &k); },
      [](JumpPDF &g, Rng &r) {
        if (r.coin(0.3) || g.GetName() == "empty")
          return;
        setSome(g, r);
      },
      [](JumpPDF &g, Print &p) {
        p.add(g.GetName());
        if (g.GetName() == "empty")
          return;
        p.add(static_cast<FitComponent &>(g));
        p.add(g.ConditionalProbability({0.3}, {0.1})), p.add(g.Integral({-1}, {0.5}, {0.2}));
      }));
  clonable<VaryingCDF, ConditionalPDF>(type<VaryingCDF>(
      "VaryingCDF", [](Rng &r) {
        VaryingCDF *v = new VaryingCDF("v");
        if (r.coin(0.8))
        {
          Gaussian g = someGauss(r, 1);
          v->SetKernel(static_cast<PDF *>(&g));
          v->SetName("k");
        }
        return v; },
      [](VaryingCDF &v, Rng &r) {
        int k = int(r.ri(0, 4));
        if (k == 0)
        {
          Gaussian g = someGauss(r, 1);
          JumpPDF j("j", &g);
          if (r.coin())
            v.SetKernel(static_cast<PDF *>(&g));
          else
            v.SetKernel(static_cast<ConditionalPDF *>(&j));
          v.SetName("k");
        }
        else if (k <= 2)
        {
          SquareRootScale s("s");
          s.SetGradient(r.uni(0.3, 2));
          if (r.coin())
            s.RenameParameter("grad", cat("g", r.ri(0, 9)));
          v.SetDependance(r.coin() ? "stddevs_0" : "means_0", &s);
        }
        else if (v.GetParameterCount())
          setSome(v, r);
      },
      [](VaryingCDF &v, Print &p) {
        p.add(v.GetName()), p.add(static_cast<FitComponent &>(v));
        p.add(v.SetupParameters({0.7}));
        if (v.GetName() != "k")
          return;
        // the kernel holds the parameters of the last point: give it those of a given one first
        VaryingCDF w(v);
        p.add(w.ConditionalProbability({0.3}, {0.1})), p.add(w.Integral({-1}, {0.5}, {0.2}));
      }));
  // ---- distributions
  clonable<BinnedED, EventDistribution>(type<BinnedED>("BinnedED", [](Rng &r) { return new BinnedED(someBinned(r, "d")); }, mutateBinned, printBinned));
  clonable<SpectralFitDist, EventDistribution>(type<SpectralFitDist>(
      "SpectralFitDist", [](Rng &r) {
        AxisCollection a = xyAxes(r);
        SpectralFitDist *d = new SpectralFitDist("sp", a);
        std::vector<std::string> o{"x", "y"};
        o.resize(a.GetNDimensions());
        d->SetObservables(o);
        d->SetBinContents(some(r, a.GetNBins(), 0.1, 3));
        return d; },
      [](SpectralFitDist &d, Rng &r) {
        if (r.coin())
          setSome(d, r);
        else
          mutateBinned(d, r);
      },
      [](SpectralFitDist &d, Print &p) { printBinned(d, p), p.add(static_cast<FitComponent &>(d)); }));
  clonable<AnalyticED, EventDistribution>(type<AnalyticED>(
      "AnalyticED", [](Rng &r) {
        size_t n = size_t(r.ri(1, 3));
        Gaussian g = someGauss(r, n);
        AnalyticED *d = new AnalyticED("an", &g);
        std::vector<std::string> o{"x", "y", "z"};
        r.shuffle(o);
        o.resize(n);
        d->SetObservables(o);
        return d; },
      [](AnalyticED &d, Rng &r) {
        int k = int(r.ri(0, 3));
        if (k == 0)
          d.SetName(cat("n", r.ri(0, 9)));
        else if (k == 1)
        {
          std::vector<std::string> o{"x", "y", "z"};
          r.shuffle(o);
          o.resize(d.GetNDims());
          d.SetObservables(o);
        }
        else
          setSome(d, r);
      },
      [](AnalyticED &d, Print &p) {
        p.add(static_cast<EventDistribution &>(d).GetName()), p.add(d.GetObservables().GetNames()), p.add(double(d.GetNDims())), p.add(d.Integral());
        p.add(static_cast<FitComponent &>(d)), p.add(d.Probability(someEvent()));
      }));
  clonable<CompositeED, EventDistribution>(type<CompositeED>(
      "CompositeED", [](Rng &r) {
        std::vector<std::unique_ptr<EventDistribution>> own;
        std::vector<EventDistribution *> v;
        int n = int(r.coin(0.15) ? r.ri(5, 20) : r.ri(2, 4));
        for (int i = 0; i < n; ++i)
        {
          if (r.coin())
            own.emplace_back(new BinnedED(someBinned(r, cat("b", i))));
          else
          {
            Gaussian g = someGauss(r, 1);
            AnalyticED *a = new AnalyticED(cat("a", i), &g);
            a->SetObservables(ObsSet(r.pick<std::string>({"x", "y", "z"})));
            own.emplace_back(a);
          }
          v.push_back(own.back().get());
        }
        if (r.coin(0.3)) // nested
        {
          CompositeED inner = *v[0] * *v[1];
          return new CompositeED(inner * *v.back());
        }
        return n == 2 ? new CompositeED(v[0], v[1]) : new CompositeED(v); },
      [](CompositeED &d, Rng &r) {
        if (r.coin(0.7))
          d.SetName(cat("n", r.ri(0, 99)));
        else
          d.Normalise();
      },
      [](CompositeED &d, Print &p) {
        p.add(d.GetName()), p.add(d.Integral()), p.add(double(d.GetNDims())), p.add(d.Probability(someEvent()));
      }));
  // ---- systematics
  systematicType<Scale>("Scale", kScale);
  systematicType<Shift>("Shift", kShift);
  systematicType<ScaleFunction>("ScaleFunction", kScaleFunc);
  systematicType<Shape>("Shape", kShape);
  systematicType<Renorm>("Renorm", kRenorm);
  systematicType<Convolution>("Convolution", kConv);
  systematicType<Convolution>("ConvolutionC", kCond);
  eventSystematicType<EventScale>("EventScale");
  eventSystematicType<EventShift>("EventShift");
  eventSystematicType<EventReconvolution>("EventReconvolution");
  {
    TypeOf<EventConvolution> &t = type<EventConvolution>(
        "EventConvolution", [](Rng &) { return new EventConvolution("e"); },
        [](EventConvolution &s, Rng &r) {
          if (s.GetName() == "e" || r.coin(0.3))
          {
            KernelPDF f(1);
            f.p.v[0] = r.uni();
            KernelCond g(1);
            if (r.coin())
              s.SetPDF(&f);
            else
              s.SetConditionalPDF(&g);
            s.SetName(cat("k", r.ri(0, 99)));
            s.SetInObservables({"x"});
            s.SetOutObservables({"x"});
          }
          else if (r.coin(0.3))
          {
            std::string o = r.pick<std::string>({"x", "y", "z"});
            s.SetInObservables({o});
            s.SetOutObservables({o});
          }
          else
            setSome(s, r);
        },
        [](EventConvolution &s, Print &p) {
          p.add(s.GetName()), p.add(s.GetInObservables()), p.add(s.GetOutObservables());
          if (s.GetName() == "e")
            return;
          p.add(static_cast<FitComponent &>(s)), p.add(s(someEvent()).GetData());
        });
    (void)t;
  }
  // ---- managers
  type<BinnedEDManager>(
      "BinnedEDManager", [](Rng &) { return new BinnedEDManager(); },
      [](BinnedEDManager &m, Rng &r) {
        int k = int(r.ri(0, 4));
        if (!m.GetNPdfs() || k == 0)
        {
          // all on the same axes
          Rng q(7);
          BinnedED d("d" + cat(m.GetNPdfs()), AxisCollection());
          AxisCollection a;
          a.AddAxis(BinAxis("x", -1, 1, 4));
          d = BinnedED("d" + cat(m.GetNPdfs()), a);
          d.SetObservables(std::vector<std::string>{"x"});
          d.SetBinContents(some(r, 4, 0.1, 2));
          m.AddPdf(d, r.coin(0.2) ? FALSE : r.coin() ? DIRECT : INDIRECT);
        }
        else if (k == 1)
          m.SetNormalisations(some(r, m.GetNPdfs(), 0, 10));
        else if (k == 2)
        {
          BinnedEDShrinker s;
          s.SetBuffer("x", unsigned(r.ri(0, 1)), unsigned(r.ri(0, 1)));
          s.SetBinMap(m.GetOriginalPdf(0));
          SystematicManager none;
          m.ApplySystematics(none);
          m.ApplyShrink(s);
        }
        else if (m.GetParameterCount())
          setSome(m, r);
      },
      [](BinnedEDManager &m, Print &p) {
        p.add(static_cast<FitComponent &>(m)), p.add(m.GetName()), p.add(double(m.GetNPdfs())), p.add(double(m.GetNDims()));
        if (!m.GetNPdfs())
          return;
        // the reported normalisations follow the parameters at the next evaluation
        p.add(m.Probability(someEvent())), p.add(m.GetNormalisations());
        p.add(m.BinProbability(0)), p.add(m.BinProbability(1));
        for (size_t i = 0; i < m.GetNPdfs(); ++i)
          p.add(m.GetOriginalPdf(i).GetHistogram()), p.add(m.GetOriginalPdf(i).GetName());
      });
  type<EDManager>(
      "EDManager", newEDManager,
      [](EDManager &m, Rng &r) {
        int k = int(r.ri(0, 3));
        if (!m.GetNDists() || k == 0)
        {
          std::string n = "d" + cat(m.GetNDists());
          if (r.coin())
          {
            Gaussian g = someGauss(r, 1);
            AnalyticED a(n, &g);
            a.SetObservables(ObsSet(r.pick<std::string>({"x", "y", "z"})));
            m.AddDist(&a);
          }
          else
          {
            AxisCollection a;
            a.AddAxis(BinAxis("x", -1, 1, 4));
            BinnedED d(n, a);
            d.SetObservables(std::vector<std::string>{"x"});
            d.SetBinContents(some(r, 4, 0.1, 2));
            m.AddDist(&d);
          }
        }
        else if (k == 1)
          m.SetNormalisations(some(r, m.GetNDists(), 0, 10));
        else
          setSome(m, r);
      },
      [](EDManager &m, Print &p) {
        p.add(static_cast<FitComponent &>(m)), p.add(m.GetName()), p.add(double(m.GetNDists())), p.add(double(m.GetNDims()));
        p.add(m.GetNormalisations());
        if (m.GetNDists())
          p.add(m.Probability(someEvent()));
      });
  type<BinnedEDShrinker>(
      "BinnedEDShrinker", [](Rng &) { return new BinnedEDShrinker(); },
      [](BinnedEDShrinker &s, Rng &r) {
        if (r.coin(0.6))
          s.SetBuffer(r.coin() ? "x" : "y", unsigned(r.ri(0, 2)), unsigned(r.ri(0, 2)));
        else
          s.SetUsingOverflows(r.coin());
      },
      [](BinnedEDShrinker &s, Print &p) {
        for (auto &b : s.GetBuffers())
          p.add(b.first), p.add(b.second.first), p.add(b.second.second);
        p.add(s.GetUsingOverflows());
        AxisCollection a;
        a.AddAxis(BinAxis("x", 0, 1, 6)), a.AddAxis(BinAxis("y", 0, 1, 5));
        BinnedED d("d", a);
        d.SetObservables({"x", "y"});
        for (size_t i = 0; i < 30; ++i)
          d.SetBinContent(i, double(i * i % 11));
        BinnedEDShrinker t(s);
        t.SetBinMap(d);
        p.add(t.ShrinkDist(d).GetHistogram());
      });
  type<ConstraintManager>(
      "ConstraintManager", [](Rng &) { return new ConstraintManager(); },
      [](ConstraintManager &m, Rng &r) {
        int k = int(r.ri(0, 6));
        std::string n = r.pick<std::string>({"a", "b"}), o = r.pick<std::string>({"c", "d"}), q = r.pick<std::string>({"e", "f"});
        if (k == 0)
          m.SetConstraint(n, r.uni(), r.uni(0.1, 2));
        else if (k == 1)
          m.SetConstraint(n, r.uni(), r.uni(0.1, 2), r.uni(0.1, 2));
        else if (k == 2)
          m.SetConstraint("c", r.uni(), r.uni(0.1, 2), "d", r.uni(), r.uni(0.1, 2), r.uni(-0.9, 0.9));
        else if (k == 3)
          m.SetConstraint(n, o, r.uni(), r.uni(0.1, 2));
        else if (k == 4)
          m.SetFracConstraint(n, q, r.uni(), r.uni(0.1, 2));
        else if (k == 5)
        {
          AxisCollection a;
          a.AddAxis(BinAxis("e", -3, 6, 4)), a.AddAxis(BinAxis("f", -3, 6, 3));
          Histogram h(a);
          h.SetBinContents(some(r, 12));
          m.SetConstraint("label", h);
        }
        else
        {
          double w = r.uni();
          m.SetConstraint(ParameterDict{{n, 0.}, {q, 1.}}, [=](const ParameterDict &d) { return w * d.at(n) + d.at(q); }, r.uni(), r.uni(0.2, 2));
        }
      },
      [](ConstraintManager &m, Print &p) {
        for (double s : {0.7, 1.3})
          p.add(m.Evaluate(ParameterDict{{"a", s * 0.7}, {"b", s * 1.1}, {"c", s * 0.3}, {"d", s * -0.5}, {"e", s * 0.6}, {"f", s * 1.2}}));
      });
  type<EventSystematicManager>(
      "EventSystematicManager", [](Rng &) { return new EventSystematicManager(); },
      [](EventSystematicManager &m, Rng &r) {
        static std::vector<std::unique_ptr<EventShift>> shifts;
        static EventScale scale("e");
        if (shifts.empty())
          for (int i = 0; i < 3; ++i)
          {
            shifts.emplace_back(new EventShift("s"));
            shifts.back()->SetShift(0.5 + i);
            shifts.back()->SetOutObservables({i == 1 ? "y" : "x"});
            scale.SetScale(1.7);
            scale.SetOutObservables({"x"});
          }
        if (r.coin(0.1))
          m.Clear();
        else if (r.coin(0.3))
          m.Add(&scale);
        else
          m.Add(shifts[size_t(r.ri(0, 2))].get());
      },
      [](EventSystematicManager &m, Print &p) { p.add(double(m.GetNSystematics())), p.add(m.ApplySystematics(someEvent()).GetData()); });
  type<SystematicManager>(
      "SystematicManager", [](Rng &) { return new SystematicManager(); },
      [](SystematicManager &m, Rng &r) {
        static std::vector<std::unique_ptr<Systematic>> sys;
        if (sys.empty())
          for (int i = 0; i < 12; ++i)
          {
            AxisCollection a;
            a.AddAxis(BinAxis("x", -1, 1, 4));
            Systematic *s = i % 2 ? static_cast<Systematic *>(new Shift(cat("s", i))) : static_cast<Systematic *>(new Scale(cat("s", i)));
            s->SetAxes(a);
            s->SetTransformationObs(ObsSet("x"));
            s->SetDistributionObs(ObsSet("x"));
            s->SetParameter(i % 2 ? "shift" : "scaleFactor", i % 2 ? 0.1 * i : 0.9 + 0.05 * i);
            sys.emplace_back(s);
          }
        if (r.coin(0.7))
        {
          Systematic *s = sys[size_t(r.ri(0, 11))].get();
          for (auto &g : m.GetSystematicsGroup())
            for (Systematic *o : g.second)
              if (o == s)
                return;
          m.Add(s, r.pick<std::string>({"", "g1", "g2"}));
        }
        else
        {
          // a distribution joins the groups there are
          AxisCollection a;
          a.AddAxis(BinAxis("x", -1, 1, 4));
          BinnedED d(cat("d", r.ri(0, 2)), a);
          std::vector<std::string> g;
          for (auto &x : m.GetGroupNames())
            if (x.size() && r.coin())
              g.push_back(x);
          m.AddDist(d, g);
        }
      },
      [](SystematicManager &m, Print &p) {
        p.add(m.GetGroupNames()), p.add(double(m.GetNSystematics())), p.add(double(m.GetNGroups()));
        for (auto &g : m.GetGroupNames())
          p.add(m.GetSystematicsNamesInGroup(g));
        if (!m.GetNSystematics())
          return;
        SystematicManager t(m);
        t.Construct();
        std::vector<BinnedED> in, out;
        for (int i = 0; i < 3; ++i)
        {
          AxisCollection a;
          a.AddAxis(BinAxis("x", -1, 1, 4));
          BinnedED d(cat("d", i), a);
          d.SetObservables(std::vector<std::string>{"x"});
          d.SetBinContents({1, 2, 3, 4});
          in.push_back(d), out.push_back(d);
        }
        t.DistortEDs(in, out);
        for (auto &d : out)
          p.add(d.GetBinContents());
      });
  type<ComponentManager>(
      "ComponentManager", [](Rng &) { return new ComponentManager(); },
      [](ComponentManager &m, Rng &r) {
        static std::vector<std::unique_ptr<EventShift>> comp;
        if (comp.empty())
          for (int i = 0; i < 5; ++i)
          {
            comp.emplace_back(new EventShift("s"));
            comp.back()->RenameParameter("shift", cat("s", i));
          }
        if (r.coin(0.1))
          m.Clear();
        else
          m.AddComponent(comp[size_t(r.ri(0, 4))].get());
      },
      [](ComponentManager &m, Print &p) { p.add(double(m.GetComponentCount())), p.add(m.GetParameters()), p.add(m.GetParameterNames()), p.add(m.GetTotalParameterCount()); });
  // ---- results and tools
  type<FitResult>(
      "FitResult", [](Rng &) { return new FitResult(); },
      [](FitResult &f, Rng &r) {
        int k = int(r.ri(0, 8));
        if (k == 0)
          f.SetBestFit(ParameterDict{{cat("p", r.ri(0, 3)), r.uni()}, {"q", r.uni()}});
        else if (k == 1)
        {
          Histogram h(someAxes(r, 2, 10));
          h.SetBinContents(some(r, h.GetNBins()));
          f.SetStatSpace(h);
          f.SetExtremeVal(-1);
        }
        else if (k == 2)
          f.SetStatSample({some(r, size_t(r.ri(1, 4))), some(r, 2)});
        else if (k == 3)
          f.SetValid(r.coin());
        else if (k == 4)
          f.SetPrintPrecision(size_t(r.ri(1, 9)));
        else if (k == 5 || k == 6)
        {
          HistMap m;
          for (int i = 0, n = int(r.ri(1, 6)); i < n; ++i)
          {
            Histogram h(someAxes(r, 1, 5));
            h.SetBinContents(some(r, h.GetNBins()));
            m[cat("h", i)] = h;
          }
          if (k == 5)
            f.Set1DProjections(m);
          else
            f.Set2DProjections(m);
        }
        else if (k == 7)
        {
          DenseMatrix m(2, 2);
          m.SetComponent(0, 1, r.uni());
          f.SetCovarianceMatrix(m);
        }
        else
          f.SetExtremeVal(r.uni());
      },
      [](FitResult &f, Print &p) {
        p.add(f.GetBestFit()), p.add(f.GetValid()), p.add(double(f.GetPrintPrecision())), p.add(f.GetExtremeVal());
        for (auto &v : f.GetStatSample())
          p.add(v);
        for (auto &m : {f.Get1DProjections(), f.Get2DProjections()})
          for (auto &h : m)
            p.add(h.first), p.add(h.second);
        try
        {
          p.add(f.GetStatSpace());
        }
        catch (const OXSXException &)
        {
          p.add(std::string("no stat space"));
        }
        // the first line carries the time
        std::string s = f.AsString();
        size_t at = s.find("Best Fit");
        p.add(at == std::string::npos ? std::string() : s.substr(at));
      });
  type<CountingResult>(
      "CountingResult", [](Rng &) { return new CountingResult(); },
      [](CountingResult &f, Rng &r) {
        int k = int(r.ri(0, 3));
        CutLog l({"c"});
        l.LogCut(0), l.LogPass();
        l.CalculateMeta();
        if (k == 0)
          f.AddBackground(r.uni(), cat("b", r.ri(0, 9)), r.uni(), l);
        else if (k == 1)
          f.SetSignal(r.uni(), "sig", l);
        else if (k == 2)
          f.SetDataLog(l);
        else
          f.SetObservedCounts(int(r.ri(0, 99)));
      },
      [](CountingResult &f, Print &p) {
        p.add(f.GetObservedCounts()), p.add(f.GetExpectedCounts()), p.add(f.GetSignalEfficiency()), p.add(f.GetExpectedRates()), p.add(f.GetExpectedRateErrors());
      });
  type<BinnedEDGenerator>(
      "BinnedEDGenerator", [](Rng &) { return new BinnedEDGenerator(); },
      [](BinnedEDGenerator &g, Rng &r) {
        if (r.coin())
          g.SetRates(some(r, size_t(r.ri(1, 3))));
        else
          g.SetPdfs({someBinned(r, "a"), someBinned(r, "b")});
      },
      [](BinnedEDGenerator &g, Print &p) {
        p.add(g.GetRates());
        std::vector<BinnedED> pdfs = g.GetPdfs();
        for (BinnedED &d : pdfs)
          p.add(d.GetHistogram());
      });
  type<DataSetGenerator>(
      "DataSetGenerator", [](Rng &) { return new DataSetGenerator(); },
      [](DataSetGenerator &g, Rng &r) {
        int k = int(r.ri(0, 2));
        static std::unique_ptr<OXSXDataSet> d;
        if (!d)
        {
          d.reset(new OXSXDataSet());
          d->SetObservableNames({"x", "y", "z"});
          for (int i = 0; i < 5; ++i)
            d->AddEntry(Event({double(i), 1, 2}));
        }
        if (k == 0)
          g.AddDataSet(d.get(), r.uni(1, 3), true);
        else if (k == 1)
          g.AddCut(BoxCut(cat("c", r.ri(0, 9)), "x", r.uni(-1, 2), r.uni(2, 6)));
        else
          g.Reset();
      },
      [](DataSetGenerator &g, Print &p) {
        p.add(double(g.GetBootstrap().size())), p.add(double(g.GetSequentialFlags().size()));
        if (!g.GetSequentialFlags().size())
          return;
        DataSetGenerator t(g);
        t.Reset();
        p.add(double(t.AllValidEvents().GetNEntries()));
      });
  type<AutoCorrelationCalc>(
      "AutoCorrelationCalc", [](Rng &r) { return new AutoCorrelationCalc(size_t(r.ri(2, 6))); },
      [](AutoCorrelationCalc &a, Rng &r) {
        if (r.coin(0.1))
          a.Clear();
        else
          for (int i = 0; i < 5; ++i)
            a.Fill(r.uni());
      },
      [](AutoCorrelationCalc &a, Print &p) { p.add(a.Mean()), p.add(a.Var()), p.add(double(a.Get().size())); });
  type<GridSearch>(
      "GridSearch", [](Rng &) { return new GridSearch(); },
      [](GridSearch &g, Rng &r) {
        ParameterDict d{{"a", r.uni()}, {cat("b", r.ri(0, 4)), r.uni()}};
        int k = int(r.ri(0, 3));
        if (k == 0)
          g.SetMinima(d);
        else if (k == 1)
          g.SetMaxima(d);
        else if (k == 2)
          g.SetStepSizes(d);
        else
          g.SetMaximising(r.coin());
      },
      [](GridSearch &g, Print &p) { p.add(g.GetMinima()), p.add(g.GetMaxima()), p.add(g.GetStepSizes()), p.add(g.GetMaximising()); });
  type<MetropolisSampler>(
      "MetropolisSampler", [](Rng &) { return new MetropolisSampler(); },
      [](MetropolisSampler &g, Rng &r) { g.SetSigmas(ParameterDict{{"a", r.uni()}, {cat("b", r.ri(0, 4)), r.uni()}}); },
      [](MetropolisSampler &g, Print &p) { p.add(g.GetSigmas()); });
}

struct Obj
{
  std::shared_ptr<void> p;
  uint64_t genesis;
  std::vector<uint64_t> mutations;
  std::shared_ptr<Print> want;
};

static void compare(const AnyType &t, void *p, const Print &want, const std::string &what, size_t i)
{
  Print got;
  t.print(p, got);
  check(got.s == want.s, "text", t.name, " ", i, " after ", what, ": ", got.s.substr(0, 400), " want ", want.s.substr(0, 400));
  nearv(got.v, want.v, "value", 1e-12, 0, t.name, " ", i, " after ", what, " is not what a fresh object with its history is");
}

static std::string history(Case &c, Rng r, const AnyType &t, bool logging)
{
  std::vector<Obj> pool;
  std::string hist;
  auto expected = [&](const Obj &o) {
    std::shared_ptr<void> f = t.make(Rng(o.genesis));
    for (uint64_t m : o.mutations)
      t.mutate(f.get(), Rng(m));
    auto p = std::make_shared<Print>();
    t.print(f.get(), *p);
    return p;
  };
  auto create = [&]() {
    Obj o;
    o.genesis = r.next();
    o.p = t.make(Rng(o.genesis));
    int n = int(r.coin(0.05) ? r.ri(10, 50) : r.ri(0, 3)); // sometimes it has grown large
    for (int i = 0; i < n; ++i)
    {
      o.mutations.push_back(r.next());
      t.mutate(o.p.get(), Rng(o.mutations.back()));
    }
    o.want = expected(o);
    pool.push_back(o);
  };
  create();
  int steps = int(r.ri(3, c.thorough ? 18 : 9));
  for (int st = 0; st < steps; ++st)
  {
    if (pool.empty())
      create();
    size_t i = size_t(r.ri(0, long(pool.size()) - 1)), j = size_t(r.ri(0, long(pool.size()) - 1));
    int op = int(r.ri(0, 9));
    std::string what;
    if (op == 0 && pool.size() < 5)
    {
      what = "create";
      create();
      hist += 'n';
    }
    else if (op <= 2 && pool.size() < 5)
    {
      what = cat("copy of ", i);
      Obj o = pool[i];
      o.p = t.copy(pool[i].p.get());
      pool.push_back(o);
      hist += 'c';
    }
    else if (op == 3 && t.canClone && pool.size() < 5)
    {
      what = cat("clone of ", i);
      Obj o = pool[i];
      o.p = t.clone(pool[i].p.get());
      pool.push_back(o);
      hist += 'k';
    }
    else if (op <= 5)
    {
      what = cat("assignment of ", j, " to ", i);
      t.assign(pool[i].p.get(), pool[j].p.get());
      std::shared_ptr<void> keep = pool[i].p;
      Obj o = pool[j];
      o.p = keep;
      pool[i] = o;
      hist += i == j ? 's' : 'a';
    }
    else if (op <= 8)
    {
      what = cat("mutation of ", i);
      pool[i].mutations.push_back(r.next());
      t.mutate(pool[i].p.get(), Rng(pool[i].mutations.back()));
      pool[i].want = expected(pool[i]);
      hist += 'm';
    }
    else
    {
      what = cat("destruction of ", i);
      pool.erase(pool.begin() + long(i));
      hist += 'd';
    }
    if (logging)
      LOG << t.name << ": " << what;
    for (size_t k = 0; k < pool.size(); ++k)
      compare(t, pool[k].p.get(), *pool[k].want, what, k);
  }
  return hist;
}

SCENARIO(copies, 1)
{
  setupTypes();
  const AnyType &t = *gTypes[c.index % gTypes.size()];
  LOG << t.name << ": create";
  Rng r = c.r;
  std::string hist = history(c, r, t, true);
  // once more, the heap now being warm: nothing may be left
  size_t before = allocatedBytes();
  {
    std::string again = history(c, r, t, false);
    check(again == hist, "deterministic", t.name, ": the same history went differently");
  }
  size_t after = allocatedBytes();
  check(after <= before, "leak", t.name, ": ", after - before, " bytes are left after the history ", hist);
  c.count("type " + t.name);
  c.sig(t.name + hist);
}
