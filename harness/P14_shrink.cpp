// P14: shrinking to the fit region removes exactly the buffer bins.
#include "gen.h"
#include <BinnedEDShrinker.h>
using namespace oxv;
PLAN("P14", 160000, 4000000,
     "Random axes, distributions of 1..4 dimensions with observables differing from the axis order, buffers per axis "
     "(none, zero, one-sided, asymmetric, all but one bin, on axes the distribution does not have), both overflow modes, "
     "and one shrinker reused for differently shaped distributions and changed buffers; every new edge, name and content "
     "is compared with a plain model, and impossible buffers must be refused. Distinct = (bins, buffers, overflow).")

typedef std::map<std::string, std::pair<unsigned, unsigned>> Buffers;

static void compare(Case &c, const BinnedED &d, const BinnedED &got, const Buffers &b, bool over)
{
  const AxisCollection &ax = d.GetAxes(), &nx = got.GetAxes();
  check(nx.GetNDimensions() == ax.GetNDimensions(), "dimensions", nx.GetNDimensions());
  check(nx.GetAxisNames() == ax.GetAxisNames(), "axis names", str(nx.GetAxisNames()));
  check(got.GetObservables() == d.GetObservables(), "observables", "");
  Dims od = dims(ax), nd;
  std::vector<long> lo;
  for (size_t i = 0; i < ax.GetNDimensions(); ++i)
  {
    const BinAxis &a = ax.GetAxis(i), &n = nx.GetAxis(i);
    auto it = b.find(a.GetName());
    size_t l = it == b.end() ? 0 : it->second.first, u = it == b.end() ? 0 : it->second.second;
    check(n.GetNBins() == a.GetNBins() - l - u, "bins kept", "axis ", i, " has ", n.GetNBins(), " of ", a.GetNBins(), " - ", l, " - ", u);
    check(n.GetName() == a.GetName() && n.GetLatexName() == a.GetLatexName(), "axis name", "");
    double reach = std::max(std::fabs(a.GetMin()), std::fabs(a.GetMax()));
    for (size_t k = 0; k < n.GetNBins(); ++k)
    {
      check(n.GetBinLowEdge(k) == a.GetBinLowEdge(k + l) && n.GetBinHighEdge(k) == a.GetBinHighEdge(k + l), "edges", "axis ", i, " bin ", k);
      near(n.GetBinCentre(k), a.GetBinCentre(k + l), "centre", 1e-12, reach);
      near(n.GetBinWidth(k), a.GetBinWidth(k + l), "width", 1e-12, reach);
    }
    near(n.GetMin(), a.GetBinLowEdge(l), "range", 1e-12, reach);
    near(n.GetMax(), a.GetBinHighEdge(a.GetNBins() - u - 1), "range", 1e-12, reach);
    nd.n.push_back(n.GetNBins());
    lo.push_back(long(l));
  }
  check(got.GetNBins() == nd.total(), "bins", "");
  std::vector<double> want(nd.total(), 0);
  double dropped = 0;
  for (size_t i = 0; i < od.total(); ++i)
  {
    std::vector<size_t> ix = od.unpack(i), nn;
    bool out = false;
    for (size_t k = 0; k < ix.size(); ++k)
    {
      long j = long(ix[k]) - lo[k];
      if (j < 0 || j >= long(nd.n[k]))
        out = true;
      nn.push_back(size_t(std::min(std::max(j, 0l), long(nd.n[k]) - 1)));
    }
    if (!out || over)
      want[nd.flat(nn)] += d.GetBinContent(i);
    else
      dropped += d.GetBinContent(i);
  }
  double scale = 0; // contents may be of either sign
  for (double x : d.GetBinContents())
    scale += std::fabs(x);
  nearv(got.GetBinContents(), want, "contents", 1e-12, scale, over ? "overflow" : "dropping");
  near(got.Integral() + dropped, d.Integral(), "conservation", 1e-12, scale);
  c.count("bins compared", od.total());
}

static Buffers genBuffers(Case &c, const AxisCollection &ax, BinnedEDShrinker &s)
{
  Buffers b;
  for (size_t i = 0; i < ax.GetNDimensions(); ++i)
  {
    if (c.r.coin(0.3))
      continue;
    unsigned n = unsigned(ax.GetAxis(i).GetNBins()), l = 0, u = 0;
    switch (c.r.ri(0, 4))
    {
    case 0:
      break;
    case 1: // all but one bin
      l = unsigned(c.r.ri(0, n - 1));
      u = n - 1 - l;
      break;
    default:
      l = unsigned(c.r.ri(0, n - 1));
      u = unsigned(c.r.ri(0, n - 1 - l));
    }
    b[ax.GetAxis(i).GetName()] = {l, u};
  }
  if (c.r.coin(0.1))
    b["no such axis"] = {unsigned(c.r.ri(0, 5)), unsigned(c.r.ri(0, 5))};
  for (auto &q : b)
  {
    if (c.r.coin(0.2))
      s.SetBuffer(q.first, 77, 99); // replaced
    s.SetBuffer(q.first, q.second.first, q.second.second);
    check(s.GetBuffer(q.first) == q.second, "buffer", "");
  }
  return b;
}

SCENARIO(dists, 5)
{
  BinnedEDShrinker s;
  check(!s.GetUsingOverflows(), "default overflow", "");
  bool over = c.r.coin();
  s.SetUsingOverflows(over);
  check(s.GetUsingOverflows() == over, "overflow flag", "");
  std::vector<std::string> names = genNames(c.r, int(c.r.few(1, 4, 8)));
  AxisCollection ax = genAxes(c.r, names, c.r.coin(0.01) ? 5000 : 150);
  Buffers b = genBuffers(c, ax, s);
  check(s.GetBuffers() == b, "buffers", "");
  for (auto &q : names)
    if (!b.count(q))
      REFUSED("unknown buffer", s.GetBuffer(q));
  for (int k = 0, n = int(c.r.ri(1, 3)); k < n; ++k)
  {
    if (k && c.r.coin())
    { // the same shrinker for another distribution
      AxisCollection o;
      c.r.shuffle(names);
      names.resize(c.r.ri(1, long(names.size())));
      for (auto &q : names)
        o.AddAxis(genAxis(c.r, q, int(c.r.ri(1, 4) + (b.count(q) ? b[q].first + b[q].second : 0))));
      ax = o;
      if (ax.GetNBins() > 20000)
        return;
    }
    if (k && c.r.coin(0.4))
    {
      s.SetUsingOverflows(over = c.r.coin());
      c.count("overflow set anew");
    }
    if (k && c.r.coin(0.4))
    { // another buffer for one axis
      const BinAxis &a = ax.GetAxis(size_t(c.r.ri(0, long(ax.GetNDimensions()) - 1)));
      unsigned l = unsigned(c.r.ri(0, long(a.GetNBins()) - 1)), u = unsigned(c.r.ri(0, long(a.GetNBins()) - 1 - long(l)));
      s.SetBuffer(a.GetName(), l, u);
      b[a.GetName()] = {l, u};
      c.count("buffers set anew");
    }
    std::vector<std::string> obs = names;
    c.r.shuffle(obs);
    BinnedED d(cat("d", k), genHist(c.r, ax));
    if (c.r.coin(0.3))
    { // contents of either sign
      std::vector<double> v = d.GetBinContents();
      for (auto &x : v)
        x *= c.r.coin() ? 1 : -0.5;
      d.SetBinContents(v);
    }
    d.SetObservables(obs);
    HistSnap snap(d.GetHistogram());
    s.SetBinMap(d);
    const BinnedEDShrinker &cs = s;
    BinnedED got = cs.ShrinkDist(d);
    LOG << "dims " << str(dims(ax).n) << " over " << over;
    for (auto &q : b)
      LOG << q.first << " " << q.second.first << "," << q.second.second;
    compare(c, d, got, b, over);
    snap.same(d.GetHistogram(), "source", "the shrunk distribution");
    // the same map serves any distribution of that binning
    BinnedED e("e", genHist(c.r, ax));
    e.SetObservables(obs);
    compare(c, e, cs.ShrinkDist(e), b, over);
    std::string sig = cat(over, str(dims(ax).n));
    for (auto &q : b)
      sig += cat("|", q.second.first, ",", q.second.second);
    c.sig(sig);
    c.count("distributions shrunk", 2);
  }
}

SCENARIO(axis, 3)
{
  BinnedEDShrinker s;
  BinAxis a = c.r.coin() ? genAxis(c.r, "x", int(c.r.ri(1, 30))) : axisFromEdges("x", genEdges(c.r, int(c.r.ri(1, 30))), "\\latex");
  unsigned n = unsigned(a.GetNBins()), l = unsigned(c.r.ri(0, n)), u = unsigned(c.r.ri(0, n));
  if (l + u >= n && (l || u))
  {
    REFUSED("too large", s.ShrinkAxis(a, l, u));
    REFUSED("overflowing sum", s.ShrinkAxis(a, 4294967295u, unsigned(c.r.ri(1, 5))));
    s.SetBuffer("x", l, u);
    BinnedED d("d", [&] { AxisCollection q; q.AddAxis(a); return q; }());
    REFUSED("too large", s.SetBinMap(d));
    return;
  }
  BinAxis g = s.ShrinkAxis(a, l, u);
  check(g.GetNBins() == n - l - u && g.GetName() == a.GetName() && g.GetLatexName() == a.GetLatexName(), "axis", "");
  for (unsigned i = 0; i < g.GetNBins(); ++i)
    check(g.GetBinLowEdge(i) == a.GetBinLowEdge(i + l) && g.GetBinHighEdge(i) == a.GetBinHighEdge(i + l), "edges", i);
  // a value finds the same bin, shifted, clamped to the kept range
  for (int k = 0; k < 20; ++k)
  {
    double v = probeValue(c.r, edges(a));
    long w = std::min(std::max(long(a.FindBin(v)) - long(l), 0l), long(g.GetNBins()) - 1);
    check(long(g.FindBin(v)) == w, "value", v, " in bin ", g.FindBin(v), " not ", w);
  }
  c.sig(cat("axis", n, ",", l, ",", u));
}

DIRECTED(no_buffers)
{
  BinnedEDShrinker s;
  AxisCollection ax;
  ax.AddAxis(BinAxis("x", 0, 1, 3));
  BinnedED d("d", ax);
  d.SetBinContents({1, 2, 3});
  d.SetObservables({"x"});
  s.SetBinMap(d);
  BinnedED g = s.ShrinkDist(d);
  nearv(g.GetBinContents(), {1, 2, 3}, "unchanged", 0, 0);
  check(g.GetAxes() == d.GetAxes() && g.GetObservables() == d.GetObservables(), "unchanged", "");
  REFUSED("unknown buffer", s.GetBuffer("x"));
}

// axes longer than any small counter holds
DIRECTED(long_axes)
{
  for (std::vector<unsigned> n : {std::vector<unsigned>{200}, {70001}, {300, 3}, {2, 300}, {40, 33000 / 40}, {5, 150, 4}})
    for (int over = 0; over < 2; ++over)
      for (int k = 0; k < 3; ++k)
      {
        AxisCollection ax;
        Buffers b;
        BinnedEDShrinker s;
        s.SetUsingOverflows(over);
        for (size_t d = 0; d < n.size(); ++d)
        {
          std::string name = cat("a", d);
          ax.AddAxis(BinAxis(name, -1, n[d] / 10., int(n[d])));
          unsigned l = k == 0 ? 1 : k == 1 ? n[d] - 2 : n[d] / 2 - 1, u = k == 0 ? 0 : k == 1 ? 1 : n[d] / 2 - 1;
          if (n[d] < 3)
            l = u = 0;
          b[name] = {l, u};
          s.SetBuffer(name, l, u);
        }
        BinnedED d("d", ax);
        d.SetObservables(ax.GetAxisNames());
        std::vector<double> v(d.GetNBins());
        for (size_t i = 0; i < v.size(); ++i)
          v[i] = double((i * 7919) % 10007) + 1;
        d.SetBinContents(v);
        s.SetBinMap(d);
        compare(c, d, s.ShrinkDist(d), b, over);
      }
}
