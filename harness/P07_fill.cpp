// P07: filling a distribution uses every data-set entry exactly once.
#include "gen.h"
#include "oxv.h"
#include <BoolCut.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <DistFiller.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <LineCut.h>
using namespace oxv;
PLAN("P07", 60000, 1500000,
     "Random data sets (0-80 entries, 1-6 observables), distributions over a subset of them in any order, 0-4 event "
     "systematics in any order, 0-4 cuts, all or a prefix of the entries, with and without a cut log, filled once or "
     "repeatedly; a recording data set counts each entry's reads and contents are recomputed from the table. "
     "Distinct = numbers of entries, passes, systematics and cuts.")

// serves a table and records which entries were asked for
class Recorder : public DataSet
{
public:
  std::vector<std::string> names;
  std::vector<std::vector<double>> rows;
  mutable std::vector<int> asked;
  Event GetEntry(size_t i) const override
  {
    if (i >= rows.size())
      throw NotFoundError("Recorder");
    ++asked[i];
    return makeEvent(rows[i], &names);
  }
  unsigned GetNEntries() const override { return unsigned(rows.size()); }
  unsigned GetNObservables() const override { return unsigned(names.size()); }
  std::vector<std::string> GetObservableNames() const override { return names; }
};

struct Sys
{
  int kind;
  double p;
  size_t in, out;
};

SCENARIO(fill, 1)
{
  int no = int(c.r.few(1, 6, 24));
  Recorder d;
  d.names = genNames(c.r, no);
  int nd = int(c.r.few(1, std::min(no, 3), std::min(no, 8)));
  std::vector<std::string> obs = subset(c.r, d.names, nd);
  AxisCollection ac = genAxes(c.r, obs, 60);
  int ne = int(c.r.few(0, 80, 600, 0.01));
  std::vector<std::vector<double>> es(no);
  for (int k = 0; k < no; ++k)
  {
    size_t a = pos(obs, d.names[k]);
    es[k] = a < obs.size() ? edges(ac.GetAxis(a)) : std::vector<double>({0, 1, 2});
  }
  for (int i = 0; i < ne; ++i)
  {
    std::vector<double> v;
    for (int k = 0; k < no; ++k)
      v.push_back(probeValue(c.r, es[k]));
    d.rows.push_back(v);
  }
  d.asked.assign(ne, 0);
  Recorder alt;
  alt.names = d.names;
  c.r.shuffle(alt.names);
  if (c.r.coin())
    alt.names.insert(alt.names.begin() + c.r.ri(0, no), "spectator");
  for (auto &row : d.rows)
  {
    std::vector<double> v;
    for (auto &n : alt.names)
      v.push_back(n == "spectator" ? c.r.uni(-9, 9) : row[pos(d.names, n)]);
    alt.rows.push_back(v);
  }
  alt.asked.assign(ne, 0);
  std::vector<Sys> ms;
  std::vector<std::unique_ptr<EventSystematic>> own;
  EventSystematicManager man;
  for (int s = 0, n = int(c.r.few(0, 4, 14)); s < n; ++s)
  {
    Sys y{int(c.r.ri(0, 2)), 0, size_t(c.r.ri(0, no - 1)), size_t(c.r.ri(0, no - 1))};
    std::vector<std::string> out(1, d.names[y.out]);
    if (y.kind == 0)
    {
      y.p = c.r.uni(0.5, 2);
      EventScale *e = new EventScale("s");
      e->SetScale(y.p);
      e->SetOutObservables(out);
      e->SetInObservables(out);
      own.emplace_back(e);
    }
    else if (y.kind == 1)
    {
      y.p = c.r.uni(-2, 2);
      EventShift *e = new EventShift("s");
      e->SetShift(y.p);
      e->SetOutObservables(out);
      e->SetInObservables(out);
      own.emplace_back(e);
    }
    else
    {
      y.p = c.r.uni(0, 2);
      EventReconvolution *e = new EventReconvolution("s");
      e->SetCorrection(y.p);
      e->SetOutObservables(out);
      e->SetInObservables(std::vector<std::string>(1, d.names[y.in]));
      own.emplace_back(e);
    }
    ms.push_back(y);
    man.Add(own.back().get());
    LOG << "sys " << y.kind << " " << y.p << " " << d.names[y.in] << "->" << d.names[y.out];
  }
  check(man.GetNSystematics() == ms.size() && man.GetSystematics().size() == ms.size(), "systematics", "");
  struct K
  {
    int kind;
    size_t obs;
    double a, b;
  };
  std::vector<K> mc;
  CutCollection cuts;
  for (int k = 0, n = int(c.r.few(0, 4, 20)); k < n; ++k)
  {
    K x{int(c.r.ri(0, 2)), size_t(c.r.ri(0, no - 1)), 0, 0};
    double lo = es[x.obs].front(), hi = es[x.obs].back();
    x.a = c.r.uni(lo - 0.5 * (hi - lo), hi);
    x.b = x.a + c.r.uni(0.3, 1.5) * (hi - lo);
    std::string n2 = cat("c", k);
    if (x.kind == 0)
      cuts.AddCut(BoxCut(n2, d.names[x.obs], x.a, x.b));
    else if (x.kind == 1)
      cuts.AddCut(LineCut(n2, d.names[x.obs], x.a, "lower"));
    else
      cuts.AddCut(LineCut(n2, d.names[x.obs], x.b, "upper"));
    mc.push_back(x);
  }
  BinnedED ed("pdf", ac);
  ed.SetObservables(obs);
  std::vector<double> want(ed.GetNBins(), 0.0);
  if (c.r.coin(0.3))
  {
    want = genContents(c.r, want.size());
    ed.SetBinContents(want);
  }
  CutLog log(cuts.GetCutNames());
  std::vector<int> counts(mc.size(), 0), asked(ne, 0), altAsked(ne, 0);
  int logged = 0, passed = 0;
  for (int rep = 0, R = int(c.r.ri(1, 3)); rep < R; ++rep)
  {
    int n = -1;
    bool useLog = c.r.coin();
    if (c.r.coin(0.5))
      n = int(c.r.ri(0, ne));
    int use = n < 0 ? ne : n;
    // the same entries in a data set with its columns in another order
    bool other = c.r.coin(0.3);
    const Recorder &from = other ? alt : d;
    if (n < 0 && c.r.coin())
      n = -int(c.r.ri(1, 50));
    bool useSys = !ms.empty() || c.r.coin();
    LOG << "fill " << n << (useLog ? " logged" : "");
    if (useLog)
      DistFiller::FillDist(ed, from, cuts, log, useSys ? man : EventSystematicManager(), n);
    else if (mc.empty() && ms.empty() && n < 0 && c.r.coin())
      DistFiller::FillDist(ed, from);
    else
      DistFiller::FillDist(ed, from, cuts, man, n);
    for (int i = 0; i < use; ++i)
    {
      ++(other ? altAsked : asked)[i];
      std::vector<double> v = d.rows[i];
      for (auto &y : ms)
      {
        if (y.kind == 0)
          v[y.out] *= y.p;
        else if (y.kind == 1)
          v[y.out] += y.p;
        else
          v[y.out] = v[y.in] + y.p * (v[y.out] - v[y.in]);
      }
      int first = -1;
      for (size_t k = 0; k < mc.size() && first < 0; ++k)
      {
        double x = v[mc[k].obs];
        bool ok = mc[k].kind == 0 ? (x > mc[k].a && x < mc[k].b) : mc[k].kind == 1 ? x > mc[k].a : x < mc[k].b;
        if (!ok)
          first = int(k);
      }
      if (useLog)
      {
        ++logged;
        if (first >= 0)
          ++counts[first];
      }
      if (first < 0)
      {
        std::vector<double> q;
        for (auto &o : obs)
          q.push_back(v[pos(d.names, o)]);
        want[modelFind(ac, q)] += 1;
        ++passed;
      }
    }
    check(alt.asked == altAsked, "read once", "reads ", str(alt.asked), " want ", str(altAsked));
    check(d.asked == asked, "read once", "reads ", str(d.asked), " want ", str(asked));
    nearv(ed.GetBinContents(), want, "contents", 1e-12, 1, "");
    check(log.GetCutCounts() == counts, "log", str(log.GetCutCounts()), " want ", str(counts));
    log.CalculateMeta();
    if (!mc.empty() && logged)
    {
      int rem = logged;
      for (int x : counts)
        rem -= x;
      check(log.GetRemainderCounts().back() == rem, "log total", log.GetRemainderCounts().back(), " want ", rem);
    }
    c.count("entries processed", use);
    c.count("entries passing", passed);
  }
  if (ne)
  {
    std::vector<double> before = ed.GetBinContents();
    try
    {
      DistFiller::FillDist(ed, d, cuts, man, ne + 1);
      fail("too many", "entries beyond the end accepted");
    }
    catch (const OXSXException &)
    {
    }
  }
  c.sig(cat(ne, ",", passed, ",", ms.size(), ",", mc.size(), ",", nd));
}

// more entries than any small block or counter holds
DIRECTED(many)
{
  OXSXDataSet d;
  d.SetObservableNames({"x", "y"});
  unsigned n = 270001;
  d.Reserve(n);
  std::vector<double> all(7, 0), cut(7, 0), half(7, 0);
  int lost = 0;
  for (unsigned i = 0; i < n; ++i)
  {
    double y = i % 11;
    d.AddEntry(Event({double((i * 5) % 7), y}));
    ++all[(i * 5) % 7];
    if (i < 140003)
      ++half[(i * 5) % 7];
    y > 2.5 ? ++cut[(i * 5) % 7] : ++lost;
  }
  AxisCollection ac;
  ac.AddAxis(BinAxis("x", -0.5, 6.5, 7));
  CutCollection cuts;
  cuts.AddCut(LineCut("late", "y", 2.5, "lower"));
  CutLog log(cuts.GetCutNames());
  BinnedED a("a", ac), b("b", ac), p("p", ac), q("q", ac);
  for (BinnedED *x : {&a, &b, &p, &q})
    x->SetObservables(std::vector<std::string>(1, "x"));
  DistFiller::FillDist(a, d);
  nearv(a.GetBinContents(), all, "large data set", 1e-12, 1, "");
  DistFiller::FillDist(b, d, cuts, log);
  nearv(b.GetBinContents(), cut, "large data set with cuts", 1e-12, 1, "");
  log.CalculateMeta();
  check(log.GetCutCounts() == std::vector<int>(1, lost) && log.GetRemainderCounts().back() == int(n) - lost, "large data set log", "");
  DistFiller::FillDist(p, d, CutCollection(), EventSystematicManager(), 140003);
  nearv(p.GetBinContents(), half, "part of a large data set", 1e-12, 1, "");
  DistFiller::FillDist(q, d, cuts, EventSystematicManager());
  nearv(q.GetBinContents(), cut, "large data set with cuts", 1e-12, 1, "no log");
}
