// P38: a whole analysis gives the same answer however it is put together.
#include "nllhmodel.h"
#include <GridSearch.h>
#include <StatisticSum.h>
using namespace oxv;
PLAN("P38", 20000, 500000,
     "Random binned analyses (as for P16) built twice, the second time rearranged: components, constraints, axes and "
     "observables in another order, everything renamed consistently, other units, an observable more that is marginalised "
     "away, a component split in two or a unit systematic added, global systematics given as a group, the data as shuffled "
     "or concatenated event sets instead of a distribution, cut events left out beforehand, and the fit region in two "
     "parts summed. Likelihoods at corresponding points and the best points of grid searches must agree. Distinct = (set of "
     "rearrangements, shape of the fit).")

struct Ev
{
  std::map<std::string, double> v;
  double tag;
};
struct Whole
{
  NllhModel m;
  std::vector<Ev> events;
  bool asEvents = false, cut = false;
};
// old parameter -> its names in the new analysis with factors; and new parameters with fixed values
struct Link
{
  std::map<std::string, std::vector<std::pair<std::string, double>>> to;
  ParameterDict fixed;
  ParameterDict operator()(const ParameterDict &p) const
  {
    ParameterDict o = fixed;
    for (auto &q : p)
      for (auto &t : to.at(q.first))
        o[t.first] = q.second * t.second;
    return o;
  }
  void rename(const std::string &a, const std::string &b)
  {
    for (auto &t : to)
      for (auto &q : t.second)
        if (q.first == a)
          q.first = b;
    if (fixed.count(a))
    {
      double x = fixed[a];
      fixed.erase(a);
      fixed[b] = x;
    }
  }
  void scale(const std::string &a, double f)
  {
    for (auto &t : to)
      for (auto &q : t.second)
        if (q.first == a)
          q.second *= f;
    if (fixed.count(a))
      fixed[a] *= f;
  }
};

static BinAxis axisOf(const std::string &n, const std::vector<double> &e)
{
  return BinAxis(n, std::vector<double>(e.begin(), e.end() - 1), std::vector<double>(e.begin() + 1, e.end()), "");
}
static AxisCollection collect(const std::vector<std::string> &n, const AxisCollection &from)
{
  AxisCollection a;
  for (auto &q : n)
    a.AddAxis(from.GetAxis(q));
  return a;
}
static std::vector<double> reorder(const std::vector<double> &v, const std::vector<std::string> &from, const AxisCollection &fa,
                                   const std::vector<std::string> &to, const AxisCollection &ta)
{
  Dims df = dims(fa), dt = dims(ta);
  std::vector<double> o(dt.total(), 0);
  for (size_t i = 0; i < v.size(); ++i)
  {
    std::vector<size_t> ix = df.unpack(i), j;
    for (auto &n : to)
      j.push_back(ix[pos(from, n)]);
    o[dt.flat(j)] = v[i];
  }
  return o;
}
static void everySys(NllhModel &m)
{
  for (auto &s : m.sys)
    s.dist = m.names, s.axes = m.axes;
}

static void orderAxes(Case &c, Whole &w)
{
  NllhModel &m = w.m;
  std::vector<std::string> n = m.names;
  c.r.shuffle(n);
  AxisCollection a = collect(n, m.axes);
  for (auto &p : m.pdfs)
    p.orig = reorder(p.orig, m.names, m.axes, n, a);
  bool all = m.obs.size() == m.names.size();
  std::vector<std::string> o = all && w.events.size() ? n : m.obs; // events are binned as the pdfs are
  if (o == m.obs)
    c.r.shuffle(o);
  m.data = reorder(m.data, m.obs, collect(m.obs, m.axes), o, collect(o, m.axes));
  m.obs = o;
  m.names = n;
  m.axes = a;
  everySys(m);
}

static void orderComponents(Case &c, Whole &w)
{
  c.r.shuffle(w.m.pdfs);
  c.r.shuffle(w.m.cons);
}

static void rename(Case &c, Whole &w, Link &l)
{
  NllhModel &m = w.m;
  std::vector<std::string> fresh;
  for (int i = 0; i < 60; ++i)
    fresh.push_back(cat(char('a' + c.r.ri(0, 25)), char('a' + c.r.ri(0, 25)), i));
  auto next = [&] {
    std::string s = fresh.back();
    fresh.pop_back();
    return s;
  };
  std::map<std::string, std::string> to;
  auto change = [&](const std::string &a, const std::string &b) {
    to[a] = b;
  };
  for (auto &p : m.pdfs)
  {
    std::string n = next();
    change(p.name, n);
    p.name = n;
  }
  std::map<std::string, std::string> pres;
  for (auto &s : m.sys)
  {
    if (!pres.count(s.pre))
      pres[s.pre] = next() + "_";
    std::string pre = pres[s.pre];
    for (std::string q : {"scaleFactor", "shift", "a", "b"})
      change(s.pre + q, pre + q);
    for (auto &n : s.k.names)
      if (n.compare(0, s.pre.size(), s.pre) == 0)
      {
        std::string b = pre + n.substr(s.pre.size());
        change(n, b);
        n = b;
      }
    s.pre = pre;
    s.name = next();
  }
  std::map<std::string, std::string> g;
  std::map<std::string, std::vector<size_t>> groups;
  for (auto &q : m.groups)
  {
    g[q.first] = q.first == "" ? "" : next();
    groups[g[q.first]] = q.second;
  }
  m.groups = groups;
  for (auto &p : m.pdfs)
    for (auto &q : p.groups)
      q = g.at(q);
  for (auto &k : m.cons)
  {
    k.p = to.at(k.p);
    if (k.q.size())
      k.q = to.at(k.q);
  }
  Link was = l;
  for (auto &t : l.to)
    for (auto &q : t.second)
      q.first = to.at(q.first);
  l.fixed.clear();
  for (auto &f : was.fixed)
    l.fixed[to.at(f.first)] = f.second;
  // the observables
  std::map<std::string, std::string> on;
  AxisCollection a;
  for (auto &n : m.names)
  {
    on[n] = next();
    const BinAxis &x = m.axes.GetAxis(n);
    a.AddAxis(axisOf(on[n], edges(x)));
  }
  m.axes = a;
  std::map<std::string, std::pair<unsigned, unsigned>> b;
  for (auto &q : m.buffers)
    b[on.at(q.first)] = q.second;
  m.buffers = b;
  for (auto &n : m.names)
    n = on.at(n);
  for (auto &n : m.obs)
    n = on.at(n);
  for (auto &s : m.sys)
    for (auto &n : s.trans)
      n = on.at(n);
  everySys(m);
  for (auto &e : w.events)
  {
    std::map<std::string, double> v;
    for (auto &q : e.v)
      v[on.at(q.first)] = q.second;
    e.v = v;
  }
}

// another unit for one observable: exact powers of two, so that nothing moves across an edge by rounding
static bool units(Case &c, Whole &w, Link &l)
{
  NllhModel &m = w.m;
  std::string o = c.r.pick(m.names);
  std::set<std::string> pres;
  for (auto &s : m.sys)
    pres.insert(s.pre);
  if (pres.size() < m.sys.size())
    return false; // a parameter in two units
  for (auto &s : m.sys)
    if (pos(s.trans, o) < s.trans.size() && (s.kind == kCond || s.kind == kShape || (s.kind == kScaleFunc && s.form % 3)))
      return false;
  double f = std::pow(2.0, double(c.r.ri(-12, 12)));
  for (auto &e : w.events)
    if (e.v[o] * f / f != e.v[o])
      return false; // the smallest numbers there are do not scale
  AxisCollection a;
  for (auto &n : m.names)
  {
    std::vector<double> e = edges(m.axes.GetAxis(n));
    if (n == o)
      for (auto &x : e)
        x *= f;
    a.AddAxis(axisOf(n, e));
  }
  std::set<std::string> moved;
  for (auto &s : m.sys)
  {
    size_t i = pos(s.trans, o);
    if (i == s.trans.size())
      continue;
    if (s.kind == kShift)
      moved.insert(s.pre + "shift");
    if (s.kind == kScaleFunc)
      moved.insert(s.pre + "a");
    if (s.kind == kConv)
      moved.insert(s.k.names[2 * i]), moved.insert(s.k.names[2 * i + 1]), s.k.v[2 * i] *= f, s.k.v[2 * i + 1] *= f;
  }
  for (auto &k : m.cons)
    if (moved.count(k.p) || moved.count(k.q))
      return false; // its width has a unit too
  for (auto &p : moved)
    l.scale(p, f);
  m.axes = a;
  everySys(m);
  for (auto &e : w.events)
    e.v[o] *= f;
  return true;
}

static bool constrained(const NllhModel &m, const std::string &n)
{
  for (auto &k : m.cons)
    if (k.p == n || k.q == n)
      return true;
  return false;
}

// one component as the sum of two
static bool splitComponent(Case &c, Whole &w, Link &l)
{
  NllhModel &m = w.m;
  size_t k = size_t(c.r.ri(0, long(m.pdfs.size()) - 1));
  if (m.bb || constrained(m, m.pdfs[k].name))
    return false;
  PdfModel p = m.pdfs[k];
  double f = c.r.uni(0.05, 0.95);
  p.name += "_part";
  if (p.mode == FALSE)
  {
    for (auto &x : p.orig)
      x *= 1 - f;
    for (auto &x : m.pdfs[k].orig)
      x *= f;
  }
  else
  {
    std::string n = m.pdfs[k].name;
    for (auto &t : l.to)
      for (size_t i = 0, e = t.second.size(); i < e; ++i)
        if (t.second[i].first == n)
        {
          t.second.push_back({p.name, t.second[i].second * (1 - f)});
          t.second[i].second *= f;
        }
  }
  m.pdfs.insert(m.pdfs.begin() + c.r.ri(0, long(m.pdfs.size())), p);
  return true;
}

// a component counted in another unit: contents times f, its parameter divided
static bool rescaleComponent(Case &c, Whole &w, Link &l)
{
  NllhModel &m = w.m;
  std::vector<size_t> ok;
  for (size_t k = 0; k < m.pdfs.size(); ++k)
    if (m.pdfs[k].mode == INDIRECT && !constrained(m, m.pdfs[k].name))
      ok.push_back(k);
  if (ok.empty() || m.bb)
    return false;
  PdfModel &p = m.pdfs[c.r.pick(ok)];
  double f = std::pow(10, c.r.uni(-2, 2));
  for (auto &x : p.orig)
    x *= f;
  l.scale(p.name, 1 / f);
  return true;
}

// a systematic that does nothing at its nominal value
static void unitSystematic(Case &c, Whole &w, Link &l)
{
  NllhModel &m = w.m;
  SysModel s;
  static const int kinds[] = {kScale, kShift, kScaleFunc, kShape, kRenorm};
  s.kind = kinds[c.r.ri(0, 4)];
  s.name = cat("unit", m.sys.size());
  s.pre = s.name + "_";
  s.dist = m.names;
  s.axes = m.axes;
  s.trans = {c.r.pick(m.names)};
  s.form = 0;
  if (s.kind == kScale)
    l.fixed[s.pre + "scaleFactor"] = 1;
  if (s.kind == kShift)
    l.fixed[s.pre + "shift"] = 0;
  if (s.kind == kScaleFunc)
    l.fixed[s.pre + "a"] = 0, l.fixed[s.pre + "b"] = 1, s.a = s.b = 0;
  if (s.kind == kShape)
    l.fixed[s.pre + "a"] = std::sqrt(0.9), l.fixed[s.pre + "b"] = 0, s.a = s.b = 0;
  if (s.kind == kRenorm)
    s.a = 1;
  std::vector<std::string> g{""};
  for (auto &q : m.groups)
    if (q.first != "")
      g.push_back(q.first);
  std::string name = c.r.pick(g);
  if (c.r.coin(0.3))
  {
    name = s.name + "group";
    for (auto &p : m.pdfs)
      if (c.r.coin(0.7))
        p.groups.insert(p.groups.begin() + c.r.ri(0, long(p.groups.size())), name);
  }
  std::vector<size_t> &v = m.groups[name];
  v.insert(v.begin() + c.r.ri(0, long(v.size())), m.sys.size());
  m.sys.push_back(s);
}

// what applies to everything, as a group that every component lists first
static bool globalAsGroup(Case &c, Whole &w)
{
  NllhModel &m = w.m;
  if (!m.groups.count(""))
    return false;
  std::string n = c.r.coin() ? "everything" : "a first group";
  m.groups[n] = m.groups[""];
  m.groups.erase("");
  for (auto &p : m.pdfs)
    p.groups.insert(p.groups.begin(), n);
  return true;
}

// the groups of one component as a single one of its own, with the same systematics in the same order
static bool groupsMerged(Case &c, Whole &w)
{
  NllhModel &m = w.m;
  size_t k = size_t(c.r.ri(0, long(m.pdfs.size()) - 1));
  std::vector<size_t> all;
  for (auto &g : m.pdfs[k].groups)
    all.insert(all.end(), m.groups.at(g).begin(), m.groups.at(g).end());
  if (all.empty())
    return false;
  std::string n = cat(c.r.coin() ? "Merged" : "merged", m.groups.size());
  m.groups[n] = all;
  m.pdfs[k].groups = {n};
  return true;
}

// an observable more, over which the components are marginalised
static bool moreObservables(Case &c, Whole &w)
{
  NllhModel &m = w.m;
  if (w.events.size() || w.asEvents || m.axes.GetNBins() > 40)
    return false;
  std::string n = "one more";
  std::vector<std::string> names = m.names;
  names.insert(names.begin() + c.r.ri(0, long(names.size())), n);
  BinAxis extra = genAxis(c.r, n, int(c.r.ri(1, 3)));
  size_t nb = extra.GetNBins();
  AxisCollection a;
  for (auto &q : names)
    a.AddAxis(q == n ? extra : m.axes.GetAxis(q));
  Dims from = dims(m.axes), to = dims(a);
  for (auto &p : m.pdfs)
  {
    std::vector<double> v(to.total(), 0);
    for (size_t i = 0; i < p.orig.size(); ++i)
    {
      std::vector<double> f(nb);
      for (auto &x : f)
        x = c.r.coin(0.2) ? 0 : c.r.uni(0, 1);
      if (sum(f) == 0)
        f[size_t(c.r.ri(0, long(nb) - 1))] = 1;
      double t = sum(f);
      std::vector<size_t> ix = from.unpack(i);
      for (size_t b = 0; b < nb; ++b)
      {
        std::vector<size_t> j;
        for (auto &q : names)
          j.push_back(q == n ? b : ix[pos(m.names, q)]);
        v[to.flat(j)] = p.orig[i] * f[b] / t;
      }
    }
    p.orig = v;
  }
  m.names = names;
  m.axes = a;
  everySys(m);
  return true;
}

static void fillEvents(Case &c, const std::vector<Ev> &ev, OXSXDataSet &ds, const std::vector<std::string> &cols)
{
  ds.SetObservableNames(cols);
  for (auto &e : ev)
  {
    std::vector<double> v;
    for (auto &o : cols)
      v.push_back(o == "tag" ? e.tag : o == "spare" ? c.r.uni(-5, 5) : e.v.at(o));
    ds.AddEntry(Event(v));
  }
}

// the library's own pieces for one analysis
static void build(Case &c, Whole &w, Fit &f)
{
  setUp(c, w.m, f);
  if (w.asEvents)
  {
    std::vector<std::string> cols = w.m.names;
    cols.push_back("tag");
    if (c.r.coin())
      cols.push_back("spare");
    c.r.shuffle(cols);
    c.r.shuffle(w.events);
    if (c.r.coin())
    { // two sets joined
      size_t k = size_t(c.r.ri(0, long(w.events.size())));
      OXSXDataSet a, b;
      fillEvents(c, std::vector<Ev>(w.events.begin(), w.events.begin() + long(k)), a, cols);
      fillEvents(c, std::vector<Ev>(w.events.begin() + long(k), w.events.end()), b, cols);
      f.ds.reset(new OXSXDataSet(a + b));
      c.count("sets joined");
    }
    else
    {
      f.ds.reset(new OXSXDataSet());
      fillEvents(c, w.events, *f.ds, cols);
    }
    f.stat.SetDataSet(f.ds.get());
    if (w.cut)
      setCut(c, f);
  }
  else
    f.stat.SetDataDist(dataDist(w.m, w.m.data));
  f.stat.RegisterFitComponents();
}

static double valueOf(Case &c, BinnedNLLH &s, const ParameterDict &p)
{
  if (c.r.coin(0.3) && p.size())
  { // by way of somewhere else
    ParameterDict q = p;
    for (auto &x : q)
      x.second = x.second * 1.01 + 0.001;
    s.SetParameters(q);
    try
    {
      s.Evaluate();
    }
    catch (const std::runtime_error &)
    {
    }
  }
  s.SetParameters(p);
  return s.Evaluate();
}

static std::string rearrange(Case &c, Whole &w, Link &l)
{
  std::string did;
  std::vector<int> todo{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
  c.r.shuffle(todo);
  todo.resize(size_t(c.r.ri(1, 7)));
  for (int t : todo)
  {
    bool done = true;
    switch (t)
    {
    case 0:
      orderAxes(c, w);
      break;
    case 1:
      orderComponents(c, w);
      break;
    case 2:
      rename(c, w, l);
      break;
    case 3:
      done = units(c, w, l);
      break;
    case 4:
      done = splitComponent(c, w, l);
      break;
    case 5:
      done = rescaleComponent(c, w, l);
      break;
    case 6:
      unitSystematic(c, w, l);
      break;
    case 7:
      done = globalAsGroup(c, w);
      break;
    case 8:
      done = moreObservables(c, w);
      break;
    case 9:
      done = groupsMerged(c, w);
      break;
    default: // the data the other way
      if (w.events.empty())
        done = false;
      else if (w.asEvents && c.r.coin())
        w.asEvents = w.cut = false;
      else if (w.asEvents && w.cut)
      { // cut beforehand
        std::vector<Ev> keep;
        for (auto &e : w.events)
          if (e.tag < 0.5)
            keep.push_back(e);
        w.events = keep;
        w.cut = false;
        done = keep.size() > 0;
      }
    }
    if (done)
    {
      static const char *n[] = {"axes", "order", "names", "units", "split", "rescaled", "unit systematic", "global as group", "observable more", "groups merged", "data"};
      did += cat(" ", n[t]);
      c.count(cat("rearranged: ", n[t]));
    }
  }
  return did;
}

static Whole genWhole(Case &c, bool events)
{
  Whole w;
  w.m = genNllh(c, events, 24);
  if (events)
  {
    w.asEvents = true;
    w.cut = c.r.coin();
    w.m.data.assign(dims(w.m.axes).total(), 0);
    for (int k = 0, n = int(c.r.few(1, 40, 400)); k < n; ++k)
    {
      Ev e;
      std::vector<double> x;
      for (auto &o : w.m.names)
        x.push_back(e.v[o] = probeValue(c.r, edges(w.m.axes.GetAxis(o))));
      e.tag = c.r.uni(0, 1);
      w.events.push_back(e);
      if (!w.cut || e.tag < 0.5)
        w.m.data[modelFind(w.m.axes, x)] += 1;
    }
  }
  return w;
}

static void search(Case &c, Whole &a, Whole &b, Fit &fa, Fit &fb, const Link &l, const ParameterDict &p)
{
  // a small grid in which one corner is p; the same points in both
  ParameterDict lo = p, hi, st;
  for (auto &q : p)
  {
    double s = q.second ? std::fabs(q.second) * 0.25 : 0.125;
    hi[q.first] = q.second + 2 * s;
    st[q.first] = s;
  }
  ParameterDict lo2, hi2, st2;
  for (auto &q : p)
  {
    if (l.to.at(q.first).size() != 1)
      return;
    auto t = l.to.at(q.first)[0];
    lo2[t.first] = lo[q.first] * t.second;
    hi2[t.first] = hi[q.first] * t.second;
    st2[t.first] = st[q.first] * t.second;
  }
  for (auto &q : l.fixed) // one point only
    lo2[q.first] = q.second, hi2[q.first] = q.second, st2[q.first] = 0.3;
  std::vector<ParameterDict> pts{ParameterDict()};
  for (auto &q : p)
  {
    std::vector<ParameterDict> n;
    for (auto &x : pts)
      for (int k = 0; k < 3; ++k)
      {
        ParameterDict y = x;
        y[q.first] = lo[q.first] + k * st[q.first];
        n.push_back(y);
      }
    pts = n;
  }
  double best = 1e300, next = 1e300, scale = 0;
  ParameterDict at;
  for (auto &x : pts)
  {
    double v = a.m.evaluate(x);
    if (a.m.zero)
      return;
    scale = std::max(scale, a.m.scale);
    if (v < best)
      next = best, best = v, at = x;
    else
      next = std::min(next, v);
  }
  auto run = [&](BinnedNLLH &s, const ParameterDict &mi, const ParameterDict &ma, const ParameterDict &step) {
    GridSearch g;
    g.SetMinima(mi);
    // a little beyond, so that rounding does not decide whether the last point belongs
    ParameterDict m2 = ma;
    for (auto &q : m2)
      q.second += 0.2 * step.at(q.first);
    g.SetMaxima(m2);
    g.SetStepSizes(step);
    g.SetMaximising(false);
    return g.Optimise(&s);
  };
  FitResult ra = run(fa.stat, lo, hi, st), rb = run(fb.stat, lo2, hi2, st2);
  near(ra.GetExtremeVal(), best, "search: value", 1e-8, scale);
  near(rb.GetExtremeVal(), best, "search: value", 1e-8, scale, "rearranged");
  if (next - best > 1e-6 * scale)
  {
    for (auto &q : at)
    {
      near(ra.GetBestFit().at(q.first), q.second, "search: best point", 1e-9, st[q.first], q.first);
      auto t = l.to.at(q.first)[0];
      near(rb.GetBestFit().at(t.first), q.second * t.second, "search: best point", 1e-9, std::fabs(st[q.first] * t.second), "rearranged ", t.first);
    }
    c.count("best points compared");
  }
  c.count("grid searches");
}

SCENARIO(rearranged, 6)
{
  Whole a = genWhole(c, c.r.coin());
  Whole b = a;
  Link l;
  for (auto &n : a.m.parameterNames())
    l.to[n] = {{n, 1}};
  std::string did = rearrange(c, b, l);
  LOG << describe(a.m) << "\nrearranged" << did << "\n" << describe(b.m);
  // both through the same generator, so that neither is the privileged one
  Fit fa, fb;
  build(c, a, fa);
  build(c, b, fb);
  check(fb.stat.GetParameterNames() == b.m.parameterNames(), "parameter names", str(fb.stat.GetParameterNames()));
  for (int k = 0, n = int(c.r.ri(1, 3)); k < n; ++k)
  {
    ParameterDict p = nllhPoint(c, a.m), q = l(p);
    double want = a.m.evaluate(p);
    if (a.m.zero)
    {
      c.count("empty bins");
      continue;
    }
    double s = a.m.scale;
    LOG << "at " << str(p) << "\nand " << str(q);
    double va = valueOf(c, fa.stat, p), vb = valueOf(c, fb.stat, q);
    LOG << "values " << str(std::vector<double>{want, va, vb}) << " scale " << s;
    near(va, vb, "value", 2e-8, s, "as built and rearranged:", did);
    near(va, want, "value", 1e-8, s, "as built");
    c.count("pairs compared");
    if (k == 0 && p.size() && p.size() <= 3 && c.r.coin(0.3))
      search(c, a, b, fa, fb, l, p);
  }
  c.sig(cat(did, a.m.names.size(), a.m.obs.size(), a.m.pdfs.size(), a.m.sys.size(), a.asEvents, b.asEvents));
}

// the fit region in two parts, each its own likelihood, summed
SCENARIO(regions, 2)
{
  NllhModel m;
  for (int tries = 0;; ++tries)
  {
    m = genNllh(c, false, 24);
    m.bb = m.over = false;
    m.buffers.clear();
    for (auto &p : m.pdfs)
      if (p.mode == DIRECT) // renormalised within each region
        p.mode = c.r.coin() ? INDIRECT : FALSE;
    m.cons.clear();
    bool split = false;
    for (auto &o : m.obs)
      split = split || m.axes.GetAxis(o).GetNBins() > 1;
    if (split)
      break;
    if (tries > 50)
      return;
  }
  std::vector<std::string> can;
  for (auto &o : m.obs)
    if (m.axes.GetAxis(o).GetNBins() > 1)
      can.push_back(o);
  std::string o = c.r.pick(can);
  unsigned n = unsigned(m.axes.GetAxis(o).GetNBins()), k = unsigned(c.r.ri(1, long(n) - 1));
  NllhModel lo = m, hi = m;
  lo.buffers[o] = {0, n - k};
  hi.buffers[o] = {k, 0};
  Whole w[3];
  w[0].m = m;
  w[1].m = lo;
  w[2].m = hi;
  LOG << describe(m) << "\nin two parts at " << k << " of " << o;
  Fit f[3];
  for (int i = 0; i < 3; ++i)
    build(c, w[i], f[i]);
  StatisticSum s = f[1].stat + f[2].stat;
  s.RegisterFitComponents();
  ParameterDict p = nllhPoint(c, m);
  double want = m.evaluate(p);
  if (m.zero)
    return;
  LOG << "at " << str(p);
  double one = valueOf(c, f[0].stat, p);
  s.SetParameters(p);
  near(s.Evaluate(), one, "regions", 2e-8, m.scale, "parts and whole");
  near(one, want, "value", 1e-8, m.scale);
  c.count("regions summed");
  c.sig(cat("regions", m.names.size(), m.obs.size(), m.pdfs.size(), m.sys.size()));
}

// events of two periods: the likelihood of all is that of the joined set
SCENARIO(periods, 1)
{ // the data terms add up: evaluate with each part and with all; expectation counted once
  Whole w = genWhole(c, true);
  w.m.bb = false;
  w.cut = false;
  std::vector<double> none(dims(w.m.axes).total(), 0);
  std::vector<Ev> all = w.events;
  size_t k = size_t(c.r.ri(0, long(all.size())));
  ParameterDict p = nllhPoint(c, w.m);
  std::vector<double> v;
  double scale = 0;
  for (int part = 0; part < 4; ++part)
  { // all, first, second, none
    Whole x = w;
    x.events.assign(all.begin() + (part == 2 ? long(k) : part == 3 ? long(all.size()) : 0), part == 1 ? all.begin() + long(k) : all.end());
    x.m.data = none;
    for (auto &e : x.events)
    {
      std::vector<double> q;
      for (auto &o : x.m.names)
        q.push_back(e.v.at(o));
      x.m.data[modelFind(x.m.axes, q)] += 1;
    }
    x.asEvents = c.r.coin();
    x.m.evaluate(p);
    if (x.m.zero)
      return;
    scale += x.m.scale;
    Fit f;
    build(c, x, f);
    v.push_back(valueOf(c, f.stat, p));
  }
  LOG << describe(w.m) << "\nat " << str(p) << " values " << str(v);
  near(v[0] + v[3], v[1] + v[2], "periods", 2e-8, scale);
  c.count("periods compared");
  c.sig(cat("periods", w.m.names.size(), w.m.pdfs.size(), w.m.sys.size()));
}
