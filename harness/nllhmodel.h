// A random binned fit and a straight-line reference evaluation of its likelihood.
#ifndef OXV_NLLHMODEL_H
#define OXV_NLLHMODEL_H
#include "sysmodel.h"
#include <BinnedEDManager.h>
#include <BinnedNLLH.h>
#include <BoxCut.h>
#include <SystematicManager.h>

namespace oxv
{
struct PdfModel
{
  std::string name;
  NormFittingStatus mode;
  std::vector<double> orig;
  int gen = 1;
  std::vector<std::string> groups;
};
struct ConModel
{
  int type; // 0 quadratic, 1 asymmetric, 2 pair, 3 ratio, 4 fraction, 5 function
  std::string p, q;
  double m, s, m2, s2, rho;
  double value(const ParameterDict &d) const
  {
    double x = d.at(p), y = q.size() ? d.at(q) : 0;
    switch (type)
    {
    case 0:
      return (x - m) * (x - m) / (2 * s * s);
    case 1: // s above the mean, s2 below
    {
      double w = x >= m ? s : s2;
      return (x - m) * (x - m) / (2 * w * w);
    }
    case 2:
    {
      double u = (x - m) / s, v = (y - m2) / s2;
      return (u * u / 2 - rho * u * v + v * v / 2) / (1 - rho * rho);
    }
    case 3:
    {
      if (std::fabs(y) < 1e-8)
        y = 1e-8;
      return (x / y - m) * (x / y - m) / (2 * s * s);
    }
    case 4:
    {
      double f = (x - y) / (x + y);
      return (f - m) * (f - m) / (2 * s * s);
    }
    default:
      return (x * 2 + y - m) * (x * 2 + y - m) / (2 * s * s);
    }
  }
};

struct NllhModel
{
  std::vector<std::string> names, obs; // of the pdfs and of the data
  AxisCollection axes;
  std::map<std::string, std::pair<unsigned, unsigned>> buffers;
  bool over = false, bb = false;
  std::vector<PdfModel> pdfs;
  std::vector<SysModel> sys;
  std::map<std::string, std::vector<size_t>> groups; // "" holds the global ones
  std::vector<ConModel> cons;
  std::vector<double> data; // binned in the data's observables, not shrunk

  // what the last evaluation found
  mutable bool zero = false;
  mutable double scale = 0;
  mutable std::vector<double> norms;

  AxisCollection dataAxes() const
  {
    AxisCollection a;
    for (auto &o : obs)
      a.AddAxis(axes.GetAxis(o));
    return a;
  }
  // fold the contents over the data axes into the fit region
  std::vector<double> shrink(const std::vector<double> &v, bool &changed) const
  {
    Dims od = dims(dataAxes()), nd;
    std::vector<long> lo;
    changed = false;
    for (size_t i = 0; i < obs.size(); ++i)
    {
      auto it = buffers.find(obs[i]);
      std::pair<unsigned, unsigned> b = it == buffers.end() ? std::pair<unsigned, unsigned>(0, 0) : it->second;
      nd.n.push_back(od.n[i] - b.first - b.second);
      lo.push_back(b.first);
      changed = changed || b.first || b.second;
    }
    std::vector<double> o(nd.total(), 0);
    for (size_t i = 0; i < v.size(); ++i)
    {
      std::vector<size_t> ix = od.unpack(i);
      bool out = false;
      for (size_t q = 0; q < ix.size(); ++q)
      {
        long j = long(ix[q]) - lo[q];
        out = out || j < 0 || j >= long(nd.n[q]);
        ix[q] = size_t(std::min(std::max(j, 0l), long(nd.n[q]) - 1));
      }
      if (!out || over)
        o[nd.flat(ix)] += v[i];
    }
    return o;
  }
  double evaluate(const ParameterDict &p) const
  {
    std::vector<Mat> resp;
    for (auto m : sys)
    {
      takeValues(p, m);
      resp.push_back(m.response());
    }
    Dims fd = dims(axes), dd = dims(dataAxes());
    std::vector<std::vector<double>> work;
    norms.clear();
    std::vector<double> w;
    bool changed, tail = false;
    for (auto &q : pdfs)
    {
      std::vector<double> x = q.orig;
      std::vector<std::string> order{""};
      order.insert(order.end(), q.groups.begin(), q.groups.end());
      for (auto &g : order)
        if (groups.count(g))
          for (size_t i : groups.at(g))
            x = mulv(resp[i], x);
      if (obs != names)
      {
        std::vector<double> y(dd.total(), 0);
        for (size_t i = 0; i < x.size(); ++i)
        {
          std::vector<size_t> ix = fd.unpack(i), j;
          for (auto &o : obs)
            j.push_back(ix[pos(names, o)]);
          y[dd.flat(j)] += x[i];
        }
        x = y;
      }
      x = shrink(x, changed);
      double t = sum(x);
      if (q.mode == DIRECT && !(std::fabs(t) > 1e-7 * std::fabs(sum(q.orig))))
        tail = true; // scaled back up from rounding
      if (q.mode == DIRECT && changed)
        for (auto &v : x)
          v /= t;
      work.push_back(x);
      w.push_back(q.mode == FALSE ? 1 : p.at(q.name));
      norms.push_back(q.mode == FALSE ? t : q.mode == DIRECT ? p.at(q.name) : p.at(q.name) * t / sum(q.orig));
    }
    std::vector<double> n = shrink(data, changed);
    double total = 0;
    zero = false;
    scale = 1;
    double all = 0;
    for (size_t k = 0; k < pdfs.size(); ++k)
      all += w[k] * sum(work[k]);
    for (size_t b = 0; b < n.size(); ++b)
    {
      double mu = 0;
      for (size_t k = 0; k < pdfs.size(); ++k)
        mu += w[k] * work[k][b];
      if (tail || !(mu > 1e-9 * all) || all < 1e-60) // far down a tail only rounding is left
      {
        zero = true;
        return 0;
      }
      double e = mu, pen = 0;
      if (bb)
      { // bin-by-bin simulation uncertainty, profiled: beta^2 + (mu s - 1) beta - n s = 0
        double s = 0;
        for (size_t k = 0; k < pdfs.size(); ++k)
          s += norms[k] / (double(pdfs[k].gen) * mu * mu);
        double h = mu * s - 1, disc = std::sqrt(h * h + 4 * n[b] * s);
        double beta = h > 0 ? (n[b] ? 2 * n[b] * s / (h + disc) : 0) : (disc - h) / 2;
        e = beta * mu;
        pen = (beta - 1) * (beta - 1) / (2 * s);
      }
      double l = n[b] ? n[b] * std::log(e) : 0;
      total += e - l + pen;
      scale += std::fabs(e) + std::fabs(l) + pen;
    }
    for (auto &k : cons)
    {
      double v = k.value(p);
      total += v;
      scale += std::fabs(v);
    }
    return total;
  }
  std::set<std::string> parameterNames() const
  {
    std::set<std::string> s;
    for (auto &p : pdfs)
      if (p.mode != FALSE)
        s.insert(p.name);
    for (auto m : sys)
    {
      if (m.kind == kScale)
        s.insert(m.pre + "scaleFactor");
      else if (m.kind == kShift)
        s.insert(m.pre + "shift");
      else if (m.kind == kScaleFunc || m.kind == kShape)
        s.insert(m.pre + "a"), s.insert(m.pre + "b");
      else if (m.kind != kRenorm)
        s.insert(m.k.names.begin(), m.k.names.end());
    }
    return s;
  }
};

// moderate values, so that bins seldom run empty
inline ParameterDict nllhPoint(Case &c, const NllhModel &m)
{
  ParameterDict d;
  double all = c.r.coin(0.06) ? std::pow(10, c.r.uni(-6, 6)) : 1; // very many or hardly any events expected
  for (auto &p : m.pdfs)
    if (p.mode != FALSE)
      d[p.name] = all * (c.r.coin(0.04) ? std::pow(10, c.r.uni(-6, 7)) : c.r.coin(0.1) ? double(c.r.ri(1, 1000)) : c.r.uni(0.5, 200));
  for (auto s : m.sys)
    if (s.kind != kRenorm)
    {
      ParameterDict v = genValues(c, s);
      if (s.kind == kScale)
        v.begin()->second = c.r.coin(0.2) ? 1 : c.r.uni(0.7, 1.6);
      if (s.kind == kShift)
        v.begin()->second = c.r.coin(0.2) ? 0 : c.r.uni(-0.5, 0.5);
      if (s.kind == kScaleFunc)
        v[s.pre + "a"] = c.r.uni(-0.3, 0.3), v[s.pre + "b"] = c.r.uni(0.8, 1.5);
      d.insert(v.begin(), v.end());
    }
  return d;
}

inline std::vector<double> genData(Case &c, const NllhModel &m)
{
  std::vector<double> v(dims(m.dataAxes()).total());
  int kind = int(c.r.ri(0, 2));
  if (c.r.coin(0.07))
  { // very many events
    for (auto &x : v)
      x = double(c.r.ri(0, 10000000));
    return v;
  }
  double w = c.r.coin(0.06) ? std::pow(10, c.r.uni(-6, 6)) : 1; // weighted
  for (auto &x : v)
    x = w * (c.r.coin(0.2) ? 0 : kind == 0 ? double(c.r.ri(0, 20)) : kind == 1 ? double(c.r.ri(0, 1)) : c.r.uni(0, 30));
  return v;
}

// the data observables are all of the pdfs' when the data come as events
inline NllhModel genNllh(Case &c, bool events, int maxBins = 36)
{
  NllhModel m;
  SysModel t;
  chooseDist(c, t, 3, maxBins);
  m.names = t.dist;
  m.axes = t.axes;
  m.obs = m.names;
  if (!events && c.r.coin(0.5))
    m.obs = subset(c.r, m.names, size_t(c.r.ri(1, long(m.names.size()))));
  if (c.r.coin(0.6))
    for (auto &o : m.obs)
      if (c.r.coin(0.7))
      {
        unsigned n = unsigned(m.axes.GetAxis(o).GetNBins());
        unsigned l = unsigned(c.r.ri(0, std::min<long>(2, n - 1)));
        m.buffers[o] = {l, unsigned(c.r.ri(0, std::min<long>(2, n - 1 - l)))};
      }
  m.over = c.r.coin();
  m.bb = c.r.coin(0.3);
  std::vector<std::string> gn = genNames(c.r, int(c.r.few(0, 3, 9)), "g_");
  for (int k = 0, n = c.r.coin(0.3) ? 0 : int(c.r.few(1, 4, 10, 0.02)); k < n; ++k)
  {
    SysModel s;
    s.kind = int(c.r.ri(0, kNKinds - 1));
    s.name = cat("s", k);
    s.pre = cat("s", k, "_");
    if (k && c.r.coin(0.07)) // its parameters are those of an earlier one
      s.pre = m.sys[size_t(c.r.ri(0, k - 1))].pre;
    s.dist = m.names;
    s.axes = m.axes;
    chooseTrans(c, s);
    chooseFunction(c, s);
    if (s.kind == kRenorm)
      s.a = c.r.uni(0.2, 3);
    m.groups[gn.empty() || c.r.coin(0.3) ? "" : c.r.pick(gn)].push_back(m.sys.size());
    m.sys.push_back(s);
  }
  // a group of systematics that other groups hold too, for components that use none of those
  std::string shared;
  std::set<std::string> sharing;
  if (c.r.coin(0.25))
  {
    std::vector<size_t> v;
    for (auto &g : m.groups)
      if (g.first != "")
        for (size_t i : g.second)
          if (c.r.coin())
            v.push_back(i), sharing.insert(g.first);
    if (v.size())
    {
      c.r.shuffle(v);
      shared = c.r.coin() ? "a_shared" : "z_shared";
      m.groups[shared] = v;
    }
  }
  int modes = int(c.r.ri(0, 4));
  for (int k = 0, n = int(c.r.coin(0.07) ? c.r.ri(5, 9) : c.r.ri(1, 4)); k < n; ++k)
  {
    PdfModel p;
    p.name = cat("pdf", k);
    p.mode = modes == 0 ? DIRECT : modes == 1 ? INDIRECT : modes == 2 ? FALSE : NormFittingStatus(c.r.ri(0, 2));
    Histogram h = genHist(c.r, m.axes, k == 0 || c.r.coin());
    if (h.Integral() <= 0 || (p.mode == INDIRECT && m.bb) || c.r.coin(0.5))
    {
      h.AddPadding(0.1);
      h.Normalise();
    }
    p.orig = h.GetBinContents();
    p.gen = int(c.r.coin(0.2) ? c.r.ri(1, 3) : c.r.ri(10, 100000));
    for (auto &g : gn)
      if (m.groups.count(g) && c.r.coin())
        p.groups.push_back(g);
    bool alone = shared.size() > 0;
    for (auto &g : p.groups)
      alone = alone && !sharing.count(g);
    if (alone && c.r.coin(0.7))
      p.groups.push_back(shared);
    c.r.shuffle(p.groups);
    m.pdfs.push_back(p);
  }
  m.data = genData(c, m);
  std::set<std::string> ps = m.parameterNames();
  std::vector<std::string> pn(ps.begin(), ps.end());
  if (pn.size())
    for (int k = 0, n = int(c.r.few(0, 4, 20)); k < n; ++k)
    {
      ConModel q;
      q.type = int(c.r.ri(0, 5));
      q.p = c.r.pick(pn);
      if (q.type >= 2)
        q.q = c.r.pick(pn);
      q.m = c.r.uni(-1, 100);
      q.m2 = c.r.uni(-1, 100);
      q.s = c.r.uni(0.5, 20);
      q.s2 = c.r.uni(0.5, 20);
      q.rho = c.r.uni(-0.9, 0.9);
      bool clash = q.p == q.q;
      for (auto &o : m.cons)
      {
        bool share = o.p == q.p || (q.q.size() && o.p == q.q) || (o.q.size() && (o.q == q.p || o.q == q.q));
        // kinds that would replace each other or be refused
        clash = clash || (o.type <= 2 && q.type <= 2 && share) || (o.type == q.type && o.p == q.p && o.q == q.q);
        clash = clash || (o.type == 5 && q.type == 5);
      }
      if (!clash)
        m.cons.push_back(q);
    }
  return m;
}

struct Fit
{
  std::vector<std::unique_ptr<Systematic>> sys;
  std::unique_ptr<OXSXDataSet> ds;
  std::vector<std::string> evNames;
  BinnedNLLH stat;
};

inline BinnedED dataDist(const NllhModel &m, const std::vector<double> &v)
{
  BinnedED d("data", m.dataAxes());
  d.SetObservables(m.obs);
  d.SetBinContents(v);
  return d;
}

inline BinnedED modelPdf(const NllhModel &m, const PdfModel &p)
{
  BinnedED d(p.name, m.axes);
  d.SetObservables(m.names);
  d.SetBinContents(p.orig);
  return d;
}

// buffers and constraints
inline void setUpRest(Case &c, const NllhModel &m, Fit &f)
{
  for (auto &b : m.buffers)
  {
    f.stat.SetBuffer(b.first, b.second.first, b.second.second);
    check(f.stat.GetBuffer(b.first) == b.second, "buffer", "");
  }
  f.stat.SetBufferAsOverflow(m.over);
  check(f.stat.GetBufferAsOverflow() == m.over, "overflow flag", "");
  for (auto &k : m.cons)
    switch (k.type)
    {
    case 0:
      f.stat.SetConstraint(k.p, k.m, k.s);
      break;
    case 1:
      f.stat.SetConstraint(k.p, k.m, k.s2, k.s); // low, high
      break;
    case 2:
      f.stat.SetConstraint(k.p, k.m, k.s, k.q, k.m2, k.s2, k.rho);
      break;
    case 3:
      f.stat.SetConstraint(k.p, k.q, k.m, k.s);
      break;
    case 4:
      f.stat.GetConstraintManager().SetFracConstraint(k.p, k.q, k.m, k.s);
      break;
    default:
    {
      std::string p = k.p, q = k.q;
      ParameterDict d;
      d[p] = 0;
      f.stat.SetConstraint(d, [p, q](const ParameterDict &x) { return 2 * x.at(p) + (q.size() ? x.at(q) : 0); }, k.m, k.s);
    }
    }  if (c.r.coin(0.15))
  {
    ConstraintManager copy = f.stat.GetConstraintManager();
    f.stat.GetConstraintManager() = ConstraintManager();
    f.stat.SetConstraintManager(copy);
  }
}

// everything but the data, through any of the interfaces
inline void setUp(Case &c, const NllhModel &m, Fit &f)
{
  std::map<size_t, std::vector<std::string>> where;
  for (auto &s : m.sys)
  {
    std::unique_ptr<Systematic> p(makeSystematic(s.kind, s.name));
    applyFunction(p.get(), s);
    p->SetAxes(s.axes);
    setObs(p.get(), s);
    prefixNames(p.get(), s);
    if (s.kind == kRenorm)
      static_cast<Renorm *>(p.get())->SetScaleFactor(s.a);
    f.sys.push_back(std::move(p));
  }
  if (!m.bb && c.r.coin(0.12))
  { // everything set up in managers of its own first, which are gone afterwards
    SystematicManager sm;
    BinnedEDManager pm;
    for (auto &q : m.groups)
      for (size_t i : q.second)
        sm.Add(f.sys[i].get(), q.first);
    for (auto &p : m.pdfs)
    {
      BinnedED d = modelPdf(m, p);
      pm.AddPdf(d, p.mode);
      if (p.groups.size())
        sm.AddDist(d, p.groups);
      else
        sm.AddDist(d, "");
    }
    if (c.r.coin(0.4) && m.pdfs.size())
    { // they replace others, often of the same number
      BinnedEDManager other;
      for (size_t i = 0; i < m.pdfs.size() + size_t(c.r.coin(0.3)); ++i)
      {
        const auto &p = m.pdfs[std::min(i, m.pdfs.size() - 1)];
        BinnedED d = modelPdf(m, p);
        d.Scale(c.r.uni(0.1, 3));
        if (i >= m.pdfs.size() || c.r.coin(0.3))
          d.SetName(cat("other", i));
        other.AddPdf(d, c.r.coin() ? p.mode : INDIRECT);
      }
      f.stat.SetPdfManager(other);
      SystematicManager others;
      if (f.sys.size() && c.r.coin())
        others.Add(f.sys[0].get(), "others");
      f.stat.SetSystematicManager(others);
    }
    if (c.r.coin())
      f.stat.SetSystematicManager(sm), f.stat.SetPdfManager(pm);
    else
      f.stat.SetPdfManager(pm), f.stat.SetSystematicManager(sm);
    const TestStatistic &read = f.stat;
    check(read.GetSystematicManager().GetNSystematics() == sm.GetNSystematics() && read.GetSystematicManager().GetGroupNames() == sm.GetGroupNames(), "systematic manager", "");
    c.count("fits set up through managers");
    setUpRest(c, m, f);
    return;
  }
  // members of a group are added in order, groups interleaved by any order of groups
  if (c.r.coin())
  {
    std::vector<Systematic *> v;
    std::vector<std::string> g;
    for (auto &q : m.groups)
      for (size_t i : q.second)
        g.push_back(q.first);
    c.r.shuffle(g);
    std::map<std::string, size_t> next;
    for (auto &q : g)
      v.push_back(f.sys[m.groups.at(q)[next[q]++]].get());
    f.stat.AddSystematics(v, g);
  }
  else
  {
    for (auto &q : m.groups)
      if (q.first != "")
        for (size_t i : q.second)
          f.stat.AddSystematic(f.sys[i].get(), q.first);
    std::vector<Systematic *> v;
    if (m.groups.count(""))
      for (size_t i : m.groups.at(""))
        v.push_back(f.sys[i].get());
    f.stat.AddSystematics(v);
  }
  std::vector<BinnedED> pd;
  std::vector<std::vector<std::string>> gr;
  std::vector<int> gens;
  std::vector<NormFittingStatus> modes;
  bool anyGroup = false, allInd = true;
  for (auto &p : m.pdfs)
  {
    pd.push_back(modelPdf(m, p));
    gr.push_back(p.groups);
    gens.push_back(p.gen);
    modes.push_back(p.mode);
    anyGroup = anyGroup || p.groups.size();
    allInd = allInd && p.mode == INDIRECT;
  }
  if (m.bb && c.r.coin())
    f.stat.SetBarlowBeeston(true);
  const std::vector<NormFittingStatus> *pm = allInd && c.r.coin() ? nullptr : &modes;
  bool together = c.r.coin();
  if (m.bb || c.r.coin(0.2))
  {
    if (together && anyGroup)
      f.stat.AddPdfs(pd, gr, gens, pm);
    else if (together)
      f.stat.AddPdfs(pd, gens, pm);
    else
      for (size_t k = 0; k < pd.size(); ++k)
        if (gr[k].size())
          f.stat.AddPdf(pd[k], gr[k], gens[k], modes[k]);
        else
          f.stat.AddPdf(pd[k], gens[k], modes[k]);
  }
  else if (together && anyGroup)
    f.stat.AddPdfs(pd, gr, pm);
  else if (together)
    f.stat.AddPdfs(pd, pm);
  else
    for (size_t k = 0; k < pd.size(); ++k)
      if (gr[k].size())
        f.stat.AddPdf(pd[k], gr[k], modes[k]);
      else
        f.stat.AddPdf(pd[k], modes[k]);
  if (m.bb)
    f.stat.SetBarlowBeeston(true);
  setUpRest(c, m, f);
}

// more events, counted in the model's data when the cut (if any) keeps them
inline void moreEvents(Case &c, NllhModel &m, Fit &f, bool withCut, long most)
{
  size_t tag = pos(f.evNames, std::string("tag"));
  for (int k = 0, n = int(c.r.ri(0, most)); k < n; ++k)
  {
    std::vector<double> v(f.evNames.size()), x;
    for (auto &o : m.names)
      x.push_back(v[pos(f.evNames, o)] = probeValue(c.r, edges(m.axes.GetAxis(o))));
    v[tag] = c.r.uni(0, 1);
    f.ds->AddEntry(Event(v));
    if (!withCut || v[tag] < 0.5)
      m.data[modelFind(m.axes, x)] += 1;
  }
}
// events whose binning (after the cut) is the model's data
inline void setEvents(Case &c, NllhModel &m, Fit &f, bool withCut)
{
  f.evNames = m.names;
  f.evNames.push_back("tag");
  c.r.shuffle(f.evNames);
  f.ds.reset(new OXSXDataSet());
  f.ds->SetObservableNames(f.evNames);
  m.data.assign(dims(m.axes).total(), 0);
  moreEvents(c, m, f, withCut, 60);
  f.stat.SetDataSet(f.ds.get());
}
inline void setCut(Case &c, Fit &f)
{
  if (c.r.coin())
    f.stat.AddCut(BoxCut("tagcut", "tag", -1, 0.5));
  else
  {
    CutCollection cuts;
    cuts.AddCut(BoxCut("tagcut", "tag", -1, 0.5));
    f.stat.SetCuts(cuts);
  }
  check(f.stat.GetCuts().GetCutNames() == std::vector<std::string>(1, "tagcut"), "cuts", "");
}
// what the statistic noted down about them, once it has binned the events
inline void checkCutLog(const NllhModel &, const Fit &f, bool cut)
{
  CutLog log = f.stat.GetSignalCutLog();
  int gone = 0;
  if (cut)
    for (size_t k = 0; k < f.ds->GetNEntries(); ++k)
      gone += f.ds->GetEntry(k).GetDatum("tag") >= 0.5;
  check(log.GetCutNames().size() == size_t(cut) && log.GetCutCounts() == std::vector<int>(size_t(cut), gone), "cut log", str(log.GetCutCounts()), " want ", gone);
}
inline std::string describe(const NllhModel &m)
{
  std::string s = cat("names ", str(m.names), " obs ", str(m.obs), " over ", m.over, " bb ", m.bb, " data ", str(m.data));
  for (auto &b : m.buffers)
    s += cat("\n buffer ", b.first, " ", b.second.first, ",", b.second.second);
  for (auto &p : m.pdfs)
    s += cat("\n pdf ", p.name, " mode ", int(p.mode), " gen ", p.gen, " groups ", str(p.groups), " ", str(p.orig));
  for (auto &g : m.groups)
    s += cat("\n group ", g.first, " ", str(g.second));
  for (auto &y : m.sys)
    s += "\n sys " + y.describe();
  for (auto &k : m.cons)
    s += cat("\n constraint ", k.type, " ", k.p, " ", k.q, " ", k.m, " ", k.s, " ", k.m2, " ", k.s2, " ", k.rho);
  return s;
}
inline std::string str(const ParameterDict &d)
{
  std::string s;
  for (auto &p : d)
    s += cat(p.first, "=", p.second, " ");
  return s;
}
} // namespace oxv
#endif
