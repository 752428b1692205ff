// P17: a test statistic is a function of its current parameters only.
#include "nllhmodel.h"
#include <StatisticSum.h>
using namespace oxv;
PLAN("P17", 10500, 262500,
     "Random binned fits (every normalisation mode, systematic kind, buffer and constraint) and sums of them are driven "
     "through histories of evaluations at revisited points, registrations, reads, refused settings, repeated data and "
     "evaluations that end in an exception; every value is compared with the first one seen at that point, with a freshly "
     "built statistic and with the reference. Distinct = (shape, history).")

static std::string tryEvaluate(TestStatistic &s, double &v)
{
  try
  {
    v = s.Evaluate();
    return "";
  }
  catch (const std::exception &e)
  {
    v = 0;
    return "refused";
  }
}

// the values seen by the components themselves
static void componentsHold(const NllhModel &m, Fit &f, const ParameterDict &p, const std::string &when)
{
  for (size_t i = 0; i < f.sys.size(); ++i)
    if (m.sys[i].kind != kRenorm)
      for (auto &q : f.sys[i]->GetParameters())
        if (p.count(q.first))
          check(q.second == p.at(q.first), "component value", when, ": ", q.first, " is ", q.second, " in its systematic, set to ",
                p.at(q.first));
}

static ParameterDict oneChanged(Case &c, const NllhModel &m, const ParameterDict &p)
{
  ParameterDict q = p, r = nllhPoint(c, m);
  if (p.empty())
    return q;
  auto it = q.begin();
  std::advance(it, c.r.ri(0, long(q.size()) - 1));
  it->second = r.at(it->first);
  return q;
}

static void same(double a, double b, double scale, const std::string &key, const std::string &when)
{
  near(a, b, key, 1e-10, scale, when);
}

SCENARIO(histories, 5)
{
  bool events = c.r.coin(0.3);
  NllhModel m = genNllh(c, events, 24);
  Fit f;
  setUp(c, m, f);
  check(f.stat.GetSignalCutEfficiency() == 1 && !f.stat.GetDebugMode(), "defaults", "");
  if (c.r.coin(0.2)) // noted down, and nothing else
  {
    double e = c.r.uni(0, 1);
    f.stat.SetSignalCutEfficiency(e);
    check(f.stat.GetSignalCutEfficiency() == e, "efficiency", "");
  }
  bool cut = events && c.r.coin();
  if (cut)
    setCut(c, f);
  if (events)
    setEvents(c, m, f, cut);
  else
    f.stat.SetDataDist(dataDist(m, m.data));
  LOG << describe(m);
  f.stat.RegisterFitComponents();
  std::vector<ParameterDict> pts;
  for (int k = 0; k < 4; ++k)
    pts.push_back(k && c.r.coin() ? oneChanged(c, m, pts.back()) : nllhPoint(c, m));
  struct Seen
  {
    bool is = false;
    std::string how;
    double v, scale;
  };
  std::vector<Seen> seen(pts.size());
  std::string hist;
  size_t at = 0;
  bool placed = false, canBB = m.bb;
  auto forget = [&] { seen.assign(pts.size(), Seen()); };
  for (int step = 0, n = int(c.r.ri(6, 16)); step < n; ++step)
  {
    int op = int(c.r.ri(0, 12));
    if (op > 9 && c.r.coin(0.5)) // the rarer ones
      op = int(c.r.ri(5, 9));
    hist += cat(op, placed ? int(at) : -1, " ");
    std::string when = cat("step ", step, " op ", op, " point ", at);
    switch (op)
    {
    case 0:
      f.stat.RegisterFitComponents();
      break;
    case 1:
      f.stat.GetNormalisations();
      f.stat.GetParameters();
      f.stat.GetParameterNames();
      f.stat.GetDataDist();
      break;
    case 2: // refused: nothing may change
      if (pts[0].size())
      {
        ParameterDict less = pts[size_t(c.r.ri(0, long(pts.size()) - 1))];
        auto it = less.begin();
        std::advance(it, c.r.ri(0, long(less.size()) - 1));
        less.erase(it);
        if (less.empty())
          less["another name altogether"] = 1;
        ParameterDict before = f.stat.GetParameters();
        REFUSED("missing", f.stat.SetParameters(less));
        check(f.stat.GetParameters() == before, "refused setting changed something", when);
      }
      break;
    case 3: // the same data once more
      if (!events)
        f.stat.SetDataDist(dataDist(m, m.data));
      else
        f.stat.SetDataSet(f.ds.get());
      break;
    case 4: // set without evaluating
    {
      ParameterDict p = nllhPoint(c, m);
      f.stat.SetParameters(p);
      check(f.stat.GetParameters() == p, "read back", when);
      placed = false;
      break;
    }
    case 10: // somebody else sets a component; the parameters are set again before the next evaluation
    {
      if (f.sys.size() && c.r.coin())
      {
        size_t i = size_t(c.r.ri(0, long(f.sys.size()) - 1));
        SysModel w = m.sys[i];
        if (w.kind == kRenorm) // its factor is no parameter
          break;
        setParams(c, f.sys[i].get(), w);
      }
      else
      {
        std::vector<double> v = f.stat.GetNormalisations();
        for (size_t i = 0; i < v.size() && i < m.pdfs.size(); ++i)
          if (m.pdfs[i].mode != FALSE)
            v[i] = c.r.uni(0, 200);
        f.stat.SetNormalisations(v);
      }
      if (pts[at].size() && placed)
      {
        f.stat.SetParameters(pts[at]);
        check(f.stat.GetParameters() == pts[at], "read back", when);
      }
      c.count("components set from outside");
      break;
    }
    case 11: // another constraint, or another setting of it
    {
      std::vector<std::string> alone;
      for (auto &q : pts[at])
      {
        bool pair = false;
        for (auto &k : m.cons)
          pair = pair || (k.type == 2 && (k.p == q.first || k.q == q.first));
        if (!pair)
          alone.push_back(q.first);
      }
      if (alone.empty())
        break;
      ConModel k;
      k.type = 0;
      k.p = c.r.pick(alone);
      k.m = c.r.uni(-1, 100);
      k.s = c.r.uni(0.5, 20);
      k.m2 = k.s2 = k.rho = 0;
      std::vector<ConModel> keep;
      for (auto &o : m.cons)
        if (o.type > 1 || o.p != k.p)
          keep.push_back(o);
      keep.push_back(k);
      m.cons = keep;
      f.stat.SetConstraint(k.p, k.m, k.s);
      forget();
      c.count("constraints between evaluations");
      break;
    }
    case 12: // other data, or with and without the simulation's uncertainty
      if (canBB && c.r.coin())
        f.stat.SetBarlowBeeston(m.bb = !m.bb);
      else if (!events)
      {
        m.data = genData(c, m);
        f.stat.SetDataDist(dataDist(m, m.data));
      }
      else if (c.r.coin())
        setEvents(c, m, f, cut);
      else // the same set, grown meanwhile, given once more
      {
        moreEvents(c, m, f, cut, 40);
        f.stat.SetDataSet(f.ds.get());
        c.count("sets grown");
      }
      forget();
      c.count("settings between evaluations");
      break;
    default:
    {
      if (!placed || c.r.coin(0.7))
      {
        at = size_t(c.r.ri(0, long(pts.size()) - 1));
        f.stat.SetParameters(pts[at]);
        placed = true;
      }
      check(f.stat.GetParameters() == pts[at], "read back", when);
      componentsHold(m, f, pts[at], when);
      double v;
      std::string how = tryEvaluate(f.stat, v);
      check(f.stat.GetParameters() == pts[at], "evaluation changed a parameter", when, " ", str(f.stat.GetParameters()));
      Seen &s = seen[at];
      if (!s.is)
      {
        double want = m.evaluate(pts[at]);
        if (m.zero)
          c.count("empty bins");
        else
          near(v, want, "value", 1e-8, m.scale, when);
        // a statistic that never saw anything else
        Fit g;
        NllhModel w = m;
        setUp(c, w, g);
        if (cut)
          setCut(c, g);
        if (events)
          g.stat.SetDataSet(f.ds.get());
        else
          g.stat.SetDataDist(dataDist(m, m.data));
        g.stat.RegisterFitComponents();
        g.stat.SetParameters(pts[at]);
        double fv;
        std::string fh = tryEvaluate(g.stat, fv);
        s = Seen{true, how, v, m.zero ? 1 : m.scale};
        if (!m.zero)
        {
          check(fh == how, "outcome of a fresh statistic", when);
          same(v, fv, s.scale, "fresh statistic", when);
        }
      }
      else
      {
        check(how == s.how, "outcome on return", when, ": ", how, " after ", s.how);
        if (!std::isnan(v) || !std::isnan(s.v))
          same(v, s.v, s.scale, "value on return", when);
        c.count("returns");
      }
      c.count("evaluations");
    }
    }
  }
  LOG << hist;
  c.sig(hist);
}

// one parameter moves: only the term it enters moves
SCENARIO(one_parameter, 2)
{
  NllhModel m = genNllh(c, false, 24);
  Fit f;
  setUp(c, m, f);
  f.stat.SetDataDist(dataDist(m, m.data));
  LOG << describe(m);
  f.stat.RegisterFitComponents();
  ParameterDict p = nllhPoint(c, m);
  if (p.empty())
    return;
  f.stat.SetParameters(p);
  double v0;
  tryEvaluate(f.stat, v0);
  std::vector<double> n0 = f.stat.GetNormalisations();
  for (auto &x : p)
  {
    ParameterDict q = p;
    q[x.first] = nllhPoint(c, m).at(x.first);
    f.stat.SetParameters(q);
    ParameterDict got = f.stat.GetParameters();
    check(got == q, "read back", x.first, ": ", str(got), " want ", str(q));
    componentsHold(m, f, q, x.first);
    double want = m.evaluate(q), v;
    std::string how = tryEvaluate(f.stat, v);
    if (!m.zero)
      near(v, want, "value", 1e-8, m.scale, "after moving ", x.first);
    c.sig(cat(x.first, m.sys.size(), m.pdfs.size(), m.cons.size()));
  }
  f.stat.SetParameters(p);
  double v1;
  tryEvaluate(f.stat, v1);
  m.evaluate(p);
  if (!m.zero)
  {
    same(v1, v0, m.scale, "value on return", "at the end");
    nearv(f.stat.GetNormalisations(), n0, "norms on return", 1e-10, 1e-6);
  }
}

// sums of fits that share parameters
SCENARIO(sums, 2)
{
  std::vector<NllhModel> ms;
  std::vector<std::unique_ptr<Fit>> fs;
  StatisticSum sum;
  for (int k = 0, n = int(c.r.ri(2, 3)); k < n; ++k)
  {
    ms.push_back(genNllh(c, false, 12));
    fs.emplace_back(new Fit);
    setUp(c, ms.back(), *fs.back());
    fs.back()->stat.SetDataDist(dataDist(ms.back(), ms.back().data));
    sum.AddStat(fs.back()->stat);
  }
  sum.RegisterFitComponents();
  std::vector<ParameterDict> pts;
  std::vector<double> first;
  std::vector<std::string> firstHow;
  auto evaluate = [&](const ParameterDict &p, double &want, double &scale) {
    want = 0, scale = 1;
    bool z = false;
    for (auto &m : ms)
    {
      want += m.evaluate(p);
      z = z || m.zero;
      scale += m.scale;
    }
    return !z;
  };
  for (int k = 0; k < 3; ++k)
  {
    ParameterDict p;
    for (auto &m : ms)
    {
      ParameterDict q = nllhPoint(c, m);
      p.insert(q.begin(), q.end());
    }
    pts.push_back(p);
    sum.SetParameters(p);
    check(sum.GetParameters() == p, "read back", str(sum.GetParameters()), " want ", str(p));
    double want, scale, v;
    bool ok = evaluate(p, want, scale);
    std::string how = tryEvaluate(sum, v);
    if (ok)
      near(v, want, "value", 1e-8, scale, "sum");
    first.push_back(v);
    firstHow.push_back(how);
  }
  for (int k = 0; k < 5; ++k)
  {
    size_t i = size_t(c.r.ri(0, 2));
    if (c.r.coin(0.3))
      sum.RegisterFitComponents();
    sum.SetParameters(pts[i]);
    double want, scale, v;
    bool ok = evaluate(pts[i], want, scale);
    std::string how = tryEvaluate(sum, v);
    check(how == firstHow[i], "outcome on return", how);
    if (ok)
      same(v, first[i], scale, "value on return", "sum");
    c.sig(cat(i, k, ms.size(), pts[i].size()));
  }
}
