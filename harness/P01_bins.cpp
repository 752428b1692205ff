// P01: bin lookup and index arithmetic form one consistent partition.
#include "gen.h"
#include "oxv.h"
#include <BinnedED.h>
#include <Histogram.h>
using namespace oxv;
PLAN("P01", 16000, 400000,
     "Random axes (uniform and variable width, 1-40 bins) and 1-6 dimensional axis collections; every bin and every "
     "index tuple is walked and values on, one ulp beside, inside and outside every edge are looked up; a case is "
     "distinct by its (dimension, bin counts, edge kind) shape and the bins hit.")

static void checkAxis(Case &c, const BinAxis &a, const std::vector<double> &want, double rel)
{
  size_t n = want.size() - 1;
  double span = want.back() - want.front() + std::fabs(want.front()) + std::fabs(want.back());
  check(a.GetNBins() == n, "nbins", "got ", a.GetNBins(), " want ", n);
  check(a.GetBinLowEdges().size() == n && a.GetBinHighEdges().size() == n && a.GetBinCentres().size() == n, "sizes", "");
  std::vector<double> lo = a.GetBinLowEdges(), hi = a.GetBinHighEdges(), ce = a.GetBinCentres();
  near(a.GetMin(), want.front(), "min", rel, span);
  near(a.GetMax(), want.back(), "max", rel, span);
  check(a.GetMin() == a.GetMinimum() && a.GetMax() == a.GetMaximum(), "minmax", "two accessors differ");
  for (size_t i = 0; i < n; ++i)
  {
    near(a.GetBinLowEdge(i), want[i], "lowedge", rel, span, "bin ", i);
    near(a.GetBinHighEdge(i), want[i + 1], "highedge", rel, span, "bin ", i);
    near(a.GetBinCentre(i), 0.5 * (want[i] + want[i + 1]), "centre", 1e-12, span, "bin ", i);
    near(a.GetBinWidth(i), want[i + 1] - want[i], "width", 1e-12, span, "bin ", i);
    check(lo[i] == a.GetBinLowEdge(i) && hi[i] == a.GetBinHighEdge(i) && ce[i] == a.GetBinCentre(i), "vectors",
          "edge vector and single accessor differ in bin ", i);
    if (i)
      near(hi[i - 1], lo[i], "gap", 1e-13, span, "bins ", i - 1, " and ", i, " do not share an edge");
    check(lo[i] < hi[i], "empty bin", i);
  }
}

// value -> bin for one axis, checked against the edges it reports
static void checkLookups(Case &c, const BinAxis &a)
{
  std::vector<double> e = edges(a);
  size_t n = a.GetNBins();
  auto probe = [&](double v) {
    size_t b = a.FindBin(v);
    check(b < n, "range", "FindBin(", v, ") = ", b, " of ", n);
    size_t w = modelFind(e, v);
    check(b == w, "findbin", "FindBin(", v, ") = ", b, " want ", w, " edges ", str(e));
    c.count("lookups");
  };
  for (size_t i = 0; i < e.size(); ++i)
  {
    probe(e[i]);
    probe(std::nextafter(e[i], 1e300));
    probe(std::nextafter(e[i], -1e300));
  }
  for (size_t i = 0; i < n; ++i)
  {
    probe(a.GetBinCentre(i));
    check(a.FindBin(a.GetBinCentre(i)) == i, "centre lookup", i);
  }
  for (int k = 0; k < 20; ++k)
    probe(probeValue(c.r, e));
  probe(1e300);
  probe(-1e300);
  probe(std::numeric_limits<double>::infinity());
  probe(-std::numeric_limits<double>::infinity());
  probe(0.0);
  probe(-0.0);
  probe(std::numeric_limits<double>::denorm_min());
}

// now and then in units that make the numbers enormous or minute, or far from zero (a time stamp)
static void rescale(Rng &r, std::vector<double> &e)
{
  if (!r.coin(0.25))
    return;
  double f = std::pow(10, r.uni(-12, 15)), off = r.coin(0.3) ? r.uni(-1, 1) * 1e6 * (e.back() - e.front()) : 0;
  for (auto &x : e)
    x = (x + off) * f;
}

SCENARIO(axis, 3)
{
  int n = int(c.r.ri(1, c.r.coin(0.1) ? 200 : 40));
  std::string latex = c.r.coin() ? "L_{x}" : "";
  if (c.r.coin())
  {
    double lo = c.r.value(-100, 100), hi = lo + (c.r.coin() ? double(c.r.ri(1, 50)) : c.r.uni(1e-3, 200));
    std::vector<double> ends{lo, hi};
    rescale(c.r, ends);
    lo = ends[0];
    hi = ends[1];
    LOG << "uniform " << lo << " " << hi << " n=" << n;
    BinAxis a("ax", lo, hi, n, latex);
    std::vector<double> e;
    for (int i = 0; i <= n; ++i)
      e.push_back(lo + (hi - lo) * i / n);
    checkAxis(c, a, e, 1e-12);
    checkLookups(c, a);
    BinAxis b("other", lo, hi, n);
    check(a == b && !(a != b), "equal", "same edges compare different");
    BinAxis d("ax", lo, hi + 0.5 * (hi - lo), n);
    check(a != d && !(a == d), "unequal", "different edges compare equal");
    BinAxis f("ax", lo, hi, n + 1);
    check(a != f && !(a == f), "unequal", "different bin numbers compare equal");
    check(a.GetName() == "ax" && a.GetLatexName() == (latex.empty() ? "ax" : latex), "name", a.GetName(), a.GetLatexName());
  }
  else
  {
    std::vector<double> e = genEdges(c.r, n);
    rescale(c.r, e);
    LOG << "variable " << str(e);
    BinAxis a = axisFromEdges("ax", e, latex);
    checkAxis(c, a, e, 0);
    checkLookups(c, a);
    BinAxis b = axisFromEdges("zz", e);
    check(a == b && !(a != b), "equal", "same edges compare different");
    std::vector<double> f = e;
    size_t k = c.r.ri(0, n);
    f[k] += (k == size_t(n)) ? (f[k] - f[k - 1]) * 0.25 : (f[k + 1] - f[k]) * 0.25;
    BinAxis d = axisFromEdges("ax", f);
    check(a != d && !(a == d), "unequal", "edges differing at ", k, " compare equal");
    check(a.GetName() == "ax" && a.GetLatexName() == (latex.empty() ? "ax" : latex), "name", a.GetName(), a.GetLatexName());
    a.SetName("new");
    check(a.GetName() == "new", "setname", a.GetName());
  }
  c.sig(cat("a", n, latex));
}

SCENARIO(collection, 5)
{
  int nd = int(c.r.ri(1, 6));
  std::vector<std::string> names = genNames(c.r, nd);
  AxisCollection ac;
  std::vector<BinAxis> ax;
  int left = nd == 1 ? 60 : 600;
  for (int d = 0; d < nd; ++d)
  {
    int n = int(c.r.ri(1, std::max(1, std::min(left, nd == 1 ? 60 : 12))));
    left /= n;
    ax.push_back(genAxis(c.r, names[d], n));
    if (c.r.coin(0.1))
    {
      std::vector<double> e = edges(ax.back());
      rescale(c.r, e);
      ax.back() = axisFromEdges(names[d], e);
    }
    LOG << names[d] << " " << str(edges(ax.back()));
  }
  check(ac.GetNBins() == 0 && ac.GetNDimensions() == 0, "empty", "a fresh collection has bins");
  if (c.r.coin())
    ac.AddAxes(ax);
  else
    for (size_t d = 0; d < ax.size(); ++d)
    {
      ac.AddAxis(ax[d]);
      size_t want = 1;
      for (size_t k = 0; k <= d; ++k)
        want *= ax[k].GetNBins();
      check(ac.GetNBins() == want && ac.GetNDimensions() == d + 1, "growing", "after axis ", d, " ", ac.GetNBins(), " bins want ", want);
    }
  if (c.r.coin(0.3))
  {
    AxisCollection tmp(ac);
    ac = AxisCollection();
    ac = tmp;
  }
  Dims dm = dims(ac);
  check(ac.GetNBins() == dm.total(), "total", ac.GetNBins());
  check(ac.GetAxisNames() == names, "names", str(ac.GetAxisNames()));
  for (int d = 0; d < nd; ++d)
  {
    check(ac.GetAxisIndex(names[d]) == size_t(d), "axisindex", d);
    check(ac.GetAxis(d) == ax[d] && ac.GetAxis(names[d]) == ax[d], "axis", d);
    check(ac.GetAxis(names[d]).GetName() == names[d], "axisname", d);
  }
  Histogram h(ac);
  BinnedED ed("ed", ac);
  std::vector<char> hit(ac.GetNBins(), 0);
  std::vector<double> lo(nd), hi(nd), ce(nd), lo2(nd), hi2(nd), ce2(nd);
  for (size_t b = 0; b < ac.GetNBins(); ++b)
  {
    std::vector<size_t> ix = ac.UnpackIndices(b);
    check(ix.size() == size_t(nd), "unpack", "dimension");
    for (int d = 0; d < nd; ++d)
    {
      check(ix[d] < ax[d].GetNBins(), "unpack range", "bin ", b, " dim ", d, " index ", ix[d]);
      check(ac.UnflattenIndex(b, d) == ix[d], "unflatten", "bin ", b, " dim ", d);
      check(ac.GetBinLowEdge(b, d) == ax[d].GetBinLowEdge(ix[d]), "c.lowedge", "bin ", b, " dim ", d);
      check(ac.GetBinHighEdge(b, d) == ax[d].GetBinHighEdge(ix[d]), "c.highedge", "bin ", b, " dim ", d);
      check(ac.GetBinCentre(b, d) == ax[d].GetBinCentre(ix[d]), "c.centre", "bin ", b, " dim ", d);
      check(ac.GetBinWidth(b, d) == ax[d].GetBinWidth(ix[d]), "c.width", "bin ", b, " dim ", d);
      check(h.GetBinLowEdge(b, d) == ax[d].GetBinLowEdge(ix[d]) && h.GetBinHighEdge(b, d) == ax[d].GetBinHighEdge(ix[d]) &&
                h.GetBinCentre(b, d) == ax[d].GetBinCentre(ix[d]),
            "h.edges", "bin ", b, " dim ", d);
    }
    check(ix == dm.unpack(b), "layout", "bin ", b, " unpacks to ", str(ix), " not row-major");
    size_t back = ac.FlattenIndices(ix);
    check(back == b, "roundtrip", "bin ", b, " -> ", str(ix), " -> ", back);
    check(h.FlattenIndices(ix) == b && h.UnpackIndices(b) == ix && ed.FlattenIndices(ix) == b && ed.UnpackIndices(b) == ix,
          "wrappers", "bin ", b);
    hit[back] = 1;
    ac.GetBinLowEdges(b, lo);
    ac.GetBinHighEdges(b, hi);
    ac.GetBinCentres(b, ce);
    h.GetBinLowEdges(b, lo2);
    h.GetBinHighEdges(b, hi2);
    h.GetBinCentres(b, ce2);
    for (int d = 0; d < nd; ++d)
      check(lo[d] == ac.GetBinLowEdge(b, d) && hi[d] == ac.GetBinHighEdge(b, d) && ce[d] == ac.GetBinCentre(b, d) &&
                lo2[d] == lo[d] && hi2[d] == hi[d] && ce2[d] == ce[d],
            "edge vectors", "bin ", b, " dim ", d);
    check(ac.FindBin(ce) == b, "centre in bin", "bin ", b, " centre found in ", ac.FindBin(ce));
    bool exact = true;
    for (int d = 0; d < nd; ++d)
      exact = exact && (!ix[d] || ax[d].GetBinHighEdge(ix[d] - 1) == lo[d]);
    check(!exact || ac.FindBin(lo) == b, "low corner in bin", "bin ", b, " found in ", ac.FindBin(lo));
    c.count("bins walked");
  }
  for (size_t b = 0; b < hit.size(); ++b)
    check(hit[b], "onto", "bin ", b, " is never produced");
  for (int k = 0; k < 60; ++k)
  {
    std::vector<double> v;
    for (int d = 0; d < nd; ++d)
      v.push_back(probeValue(c.r, edges(ax[d])));
    size_t w = modelFind(ac, v);
    check(ac.FindBin(v) == w && h.FindBin(v) == w && ed.FindBin(v) == w, "find", str(v), " -> ", ac.FindBin(v), " want ", w);
    if (nd == 1)
      check(h.FindBin(v[0]) == w, "find1", v[0]);
    c.count("lookups");
    c.sig(cat(nd, ",", w, ",", dm.total()));
  }
  // comparison looks at every axis, in order
  AxisCollection same;
  for (auto &a : ax)
    same.AddAxis(a);
  check(same == ac && !(same != ac), "c.equal", "");
  AxisCollection diff;
  int k = int(c.r.ri(0, nd - 1));
  for (int d = 0; d < nd; ++d)
  {
    std::vector<double> e = edges(ax[d]);
    if (d == k)
      e.back() += 0.5 * (e.back() - e.front());
    diff.AddAxis(axisFromEdges(names[d], e));
  }
  check(diff != ac && !(diff == ac), "c.unequal", "axis ", k, " differs");
  AxisCollection fewer;
  for (int d = 0; d + 1 < nd; ++d)
    fewer.AddAxis(ax[d]);
  check(fewer != ac, "c.fewer", "");
}

// far more bins than any histogram holds: the arithmetic must not run out of range
SCENARIO(huge, 1)
{
  int nd = int(c.r.ri(2, 8));
  std::vector<std::string> names = genNames(c.r, nd);
  AxisCollection ac;
  std::vector<size_t> n;
  double total = 1;
  for (int d = 0; d < nd; ++d)
  {
    size_t most = std::min(2000., 1e18 / total);
    n.push_back(c.r.coin(0.2) ? 1 : size_t(c.r.ri(1, long(most))));
    total *= double(n.back());
    ac.AddAxis(BinAxis(names[d], 0, double(n.back()), n.back()));
  }
  size_t bins = 1;
  for (size_t k : n)
    bins *= k;
  LOG << str(n);
  check(ac.GetNBins() == bins, "huge total", ac.GetNBins(), " want ", bins);
  for (int k = 0; k < 40; ++k)
  {
    std::vector<size_t> ix;
    std::vector<double> v;
    size_t b = 0;
    for (int d = 0; d < nd; ++d)
    {
      ix.push_back(k == 0 ? n[d] - 1 : size_t(c.r.ri(0, long(n[d]) - 1)));
      v.push_back(double(ix.back()) + 0.5);
      b = b * n[d] + ix.back();
    }
    check(ac.FlattenIndices(ix) == b, "huge flatten", str(ix), " -> ", ac.FlattenIndices(ix), " want ", b);
    check(ac.UnpackIndices(b) == ix, "huge unpack", b, " -> ", str(ac.UnpackIndices(b)), " want ", str(ix));
    check(ac.FindBin(v) == b, "huge find", str(ix));
    std::vector<double> lo(nd), hi(nd), ce(nd);
    ac.GetBinLowEdges(b, lo);
    ac.GetBinHighEdges(b, hi);
    ac.GetBinCentres(b, ce);
    for (int d = 0; d < nd; ++d)
    {
      check(ac.UnflattenIndex(b, d) == ix[d], "huge unflatten", b, " dim ", d);
      near(lo[d], double(ix[d]), "huge low edge", 1e-9, 2000, "");
      near(hi[d], double(ix[d]) + 1, "huge high edge", 1e-9, 2000, "");
      near(ce[d], v[d], "huge centre", 1e-9, 2000, "");
      near(ac.GetBinLowEdge(b, d), double(ix[d]), "huge low edge", 1e-9, 2000, "");
      near(ac.GetBinHighEdge(b, d), double(ix[d]) + 1, "huge high edge", 1e-9, 2000, "");
      near(ac.GetBinCentre(b, d), v[d], "huge centre", 1e-9, 2000, "");
      near(ac.GetBinWidth(b, d), 1, "huge width", 1e-9, 1, "");
    }
    c.count("bins of huge collections");
  }
  REFUSED("huge past the end", ac.UnpackIndices(bins));
  c.sig(cat("huge", nd, bins));
}

// adding an axis twice is refused and changes nothing
SCENARIO(duplicate, 1)
{
  int nd = int(c.r.ri(1, 4));
  std::vector<std::string> names = genNames(c.r, nd);
  AxisCollection ac = genAxes(c.r, names, 60);
  size_t n = ac.GetNBins();
  BinAxis again = genAxis(c.r, c.r.pick(names), 3);
  REFUSED("duplicate axis", ac.AddAxis(again));
  check(ac.GetNBins() == n && ac.GetNDimensions() == size_t(nd) && ac.GetAxisNames() == names, "dup changes", "");
  c.sig(cat("dup", nd));
}
