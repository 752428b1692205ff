// P36: conversions to and from external histograms.
// OXV_NEEDS_ROOT: the external histograms
#include "gen.h"
#include <DistTools.h>
#include <Gaussian.h>
#include <PDF.h>
#include <ParameterDict.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TH3D.h>
using namespace oxv;
PLAN("P36", 200000, 5000000,
     "Histograms and binned distributions of one to three dimensions, equal and variable binning, contents of either sign with empty and huge bins, "
     "converted to external histograms and back (bin by bin against the edges), with and without division by the bin width; external "
     "histograms of either kind with content beyond their ranges converted to ours; sums, Gaussians and products of polynomials integrated over "
     "every bin against the exact integral. Distinct = (direction, dimensions, bin numbers, binning kinds).")

namespace
{
typedef std::vector<double> V;
// a product of one polynomial per dimension, whose integral is known
struct Poly : PDF
{
  std::vector<V> k;
  mutable std::vector<std::pair<V, V>> asked;
  Poly *Clone() const { return new Poly(*this); }
  static double prim(const V &k, double x)
  {
    double s = 0;
    for (size_t i = 0; i < k.size(); ++i)
      s += k[i] * std::pow(x, double(i + 1)) / double(i + 1);
    return s;
  }
  double operator()(const V &x) const
  {
    double p = 1;
    for (size_t d = 0; d < k.size(); ++d)
    {
      double s = 0;
      for (size_t i = 0; i < k[d].size(); ++i)
        s += k[d][i] * std::pow(x.at(d), double(i));
      p *= s;
    }
    return p;
  }
  double over(const V &a, const V &b) const
  {
    double p = 1;
    for (size_t d = 0; d < k.size(); ++d)
      p *= prim(k[d], b.at(d)) - prim(k[d], a.at(d));
    return p;
  }
  double Integral(const V &a, const V &b) const
  {
    check(a.size() == k.size() && b.size() == k.size(), "integral-box", "integral asked over ", a.size(), " and ", b.size(), " edges of ", k.size());
    asked.push_back({a, b});
    return over(a, b);
  }
  V Sample() const { return V(k.size(), 0.0); }
  size_t GetNDims() const { return k.size(); }
  void SetParameter(const std::string &, double) {}
  double GetParameter(const std::string &) const { return 0; }
  void SetParameters(const ParameterDict &) {}
  ParameterDict GetParameters() const { return ParameterDict(); }
  size_t GetParameterCount() const { return 0; }
  std::set<std::string> GetParameterNames() const { return {}; }
  void RenameParameter(const std::string &, const std::string &) {}
  std::string GetName() const { return "poly"; }
  void SetName(const std::string &) {}
};

V genSigned(Rng &r, size_t n)
{
  V c = genContents(r, n);
  for (auto &x : c)
  {
    if (r.coin(0.1))
      x = -x;
    if (r.coin(0.03))
      x *= 1e12;
    if (r.coin(0.03))
      x *= 1e-12;
  }
  return c;
}
BinAxis genTitled(Rng &r, const std::string &name, int n, bool titled)
{
  std::string latex = titled ? "#" + name + " [MeV]" : "";
  if (r.coin(0.4))
  {
    double lo = r.value(-50, 50), w = r.coin() ? double(r.ri(1, 20)) : r.uni(0.01, 100);
    return BinAxis(name, lo, lo + w, size_t(n), latex);
  }
  return axisFromEdges(name, genEdges(r, n), latex);
}
AxisCollection genTitledAxes(Rng &r, size_t nd)
{
  auto names = genNames(r, int(nd));
  AxisCollection ac;
  bool titled = r.coin();
  for (auto &n : names)
    ac.AddAxis(genTitled(r, n, int(r.coin(0.005) ? r.ri(1, nd == 1 ? 3000 : nd == 2 ? 60 : 15) : r.ri(1, nd == 1 ? 40 : nd == 2 ? 9 : 6)), titled));
  return ac;
}
std::string shape(const AxisCollection &a)
{
  std::string s;
  for (size_t d = 0; d < a.GetNDimensions(); ++d)
  {
    V e = edges(a.GetAxis(d));
    bool even = true;
    for (size_t i = 2; i < e.size(); ++i)
      even &= close(e[i] - e[i - 1], e[1] - e[0], 1e-9);
    s += cat(e.size() - 1, even ? "=" : "~");
  }
  return s;
}
double span(const V &e) { return std::max(std::fabs(e.front()), std::fabs(e.back())); }
const TAxis *axisOf(const TH1 &h, size_t d) { return d == 0 ? h.GetXaxis() : d == 1 ? h.GetYaxis() : h.GetZaxis(); }
int nOf(const TH1 &h, size_t d) { return d == 0 ? h.GetNbinsX() : d == 1 ? h.GetNbinsY() : h.GetNbinsZ(); }
double at(const TH1 &h, const std::vector<size_t> &ix)
{
  return h.GetBinContent(h.GetBin(int(ix[0]) + 1, ix.size() > 1 ? int(ix[1]) + 1 : 0, ix.size() > 2 ? int(ix[2]) + 1 : 0));
}
// the external histogram shows these axes and contents
void shows(const TH1 &t, const AxisCollection &ac, const V &x, bool width, const std::string &key)
{
  Dims dm = dims(ac);
  check(t.nd == int(dm.n.size()), key + "-dimensions", t.nd);
  for (size_t d = 0; d < dm.n.size(); ++d)
  {
    V e = edges(ac.GetAxis(d));
    check(nOf(t, d) == int(e.size()) - 1, key + "-bins", nOf(t, d), " bins in dimension ", d, " not ", e.size() - 1);
    for (size_t i = 0; i + 1 < e.size(); ++i)
    {
      near(axisOf(t, d)->GetBinLowEdge(int(i) + 1), e[i], key + "-edges", 1e-12, span(e), "low edge of ", i, " in dimension ", d);
      near(axisOf(t, d)->GetBinUpEdge(int(i) + 1), e[i + 1], key + "-edges", 1e-12, span(e), "high edge of ", i, " in dimension ", d);
    }
    check(axisOf(t, d)->GetTitle() == ac.GetAxis(d).GetLatexName(), key + "-title", axisOf(t, d)->GetTitle());
  }
  for (size_t b = 0; b < x.size(); ++b)
  {
    double w = 1;
    auto ix = dm.unpack(b);
    if (width)
      w = edges(ac.GetAxis(0))[b + 1] - edges(ac.GetAxis(0))[b];
    near(at(t, ix), x[b] / w, key + (width ? "-width" : "-content"), 1e-9, 0, "bin ", b);
  }
  double in = 0, all = 0, size = 0;
  for (size_t b = 0; b < x.size(); ++b)
    in += at(t, dm.unpack(b));
  for (double v : t.c)
    all += v, size += std::fabs(v);
  near(all, in, key + "-outside", 1e-9, size, "content outside the range");
}
void ours(const Histogram &h, const AxisCollection &ac, const V &x, const std::string &key)
{
  check(h.GetNDims() == ac.GetNDimensions(), key + "-dimensions", h.GetNDims());
  for (size_t d = 0; d < ac.GetNDimensions(); ++d)
  {
    V want = edges(ac.GetAxis(d));
    nearv(h.GetAxes().GetAxis(d).GetBinLowEdges(), V(want.begin(), want.end() - 1), key + "-edges", 1e-12, span(want), "low, dimension ", d);
    nearv(h.GetAxes().GetAxis(d).GetBinHighEdges(), V(want.begin() + 1, want.end()), key + "-edges", 1e-12, span(want), "high, dimension ", d);
    check(h.GetAxes().GetAxis(d).GetName() == ac.GetAxis(d).GetLatexName(), key + "-name", h.GetAxes().GetAxis(d).GetName());
  }
  nearv(h.GetBinContents(), x, key + "-content", 1e-9, 0, "contents");
}
BinnedED distOf(Rng &r, const Histogram &h)
{
  BinnedED e("d", h);
  e.SetObservables(subset(r, genNames(r, 12), h.GetNDims()));
  return e;
}
} // namespace

SCENARIO(there_and_back, 6)
{
  size_t nd = size_t(c.r.ri(1, 3));
  AxisCollection ac = genTitledAxes(c.r, nd);
  Histogram h(ac);
  V x = genSigned(c.r, ac.GetNBins());
  h.SetBinContents(x);
  BinnedED e = distOf(c.r, h);
  HistSnap sh(h), se(e.GetHistogram());
  bool viaDist = c.r.coin(), width = nd == 1 && c.r.coin(0.5);
  std::string key = cat("to", nd, viaDist ? "-dist" : "-hist");
  LOG << key << " " << shape(ac) << " width " << width << " " << str(x);
  if (nd == 1)
  {
    TH1D t = viaDist ? (width ? DistTools::ToTH1D(e, true) : c.r.coin() ? DistTools::ToTH1D(e) : DistTools::ToTH1D(e, false))
                     : (width ? DistTools::ToTH1D(h, true) : c.r.coin() ? DistTools::ToTH1D(h) : DistTools::ToTH1D(h, false));
    shows(t, ac, x, width, key);
    if (!width)
      ours(DistTools::ToHist(t), ac, x, "back1");
  }
  else if (nd == 2)
  {
    TH2D t = viaDist ? DistTools::ToTH2D(e) : DistTools::ToTH2D(h);
    shows(t, ac, x, false, key);
    ours(DistTools::ToHist(t), ac, x, "back2");
  }
  else
  {
    TH3D t = viaDist ? DistTools::ToTH3D(e) : DistTools::ToTH3D(h);
    shows(t, ac, x, false, key);
    ours(DistTools::ToHist(t), ac, x, "back3");
  }
  if (nd != 1)
  {
    REFUSED("refused", DistTools::ToTH1D(h));
    REFUSED("refused", DistTools::ToTH1D(e, true));
  }
  if (nd != 2)
  {
    REFUSED("refused", DistTools::ToTH2D(h));
    REFUSED("refused", DistTools::ToTH2D(e));
  }
  if (nd != 3)
  {
    REFUSED("refused", DistTools::ToTH3D(h));
    REFUSED("refused", DistTools::ToTH3D(e));
  }
  sh.same(h, "operand", "the histogram converted");
  se.same(e.GetHistogram(), "operand", "the distribution converted");
  c.count(cat("converted to ", nd, " dimensions"));
  c.sig(cat(key, shape(ac), width));
}

SCENARIO(from_outside, 4)
{ // external histograms somebody else made: their own kind of binning, with content beyond the range
  size_t nd = size_t(c.r.ri(1, 3));
  auto names = genNames(c.r, int(nd));
  AxisCollection want;
  std::vector<V> ed;
  std::vector<bool> even;
  bool anyEven = c.r.coin();
  for (size_t d = 0; d < nd; ++d)
  {
    int n = int(c.r.ri(1, nd == 1 ? 40 : nd == 2 ? 9 : 6));
    double lo = c.r.value(-50, 50), w = c.r.uni(0.01, 100);
    V e = anyEven ? TAxis::eq(n, lo, lo + w) : genEdges(c.r, n);
    ed.push_back(e);
    want.AddAxis(axisFromEdges(names[d], e));
  }
  auto n = [&](size_t d) { return int(ed[d].size()) - 1; };
  auto put = [&](TH1 &t)
  {
    for (size_t d = 0; d < nd; ++d)
      (d == 0 ? t.GetXaxis() : d == 1 ? t.GetYaxis() : t.GetZaxis())->SetTitle(names[d].c_str());
    for (auto &v : t.c) // under- and overflow too
      v = c.r.uni(-3, 10);
    V x;
    Dims dm = dims(want);
    for (size_t b = 0; b < dm.total(); ++b)
      x.push_back(at(t, dm.unpack(b)));
    return x;
  };
  std::string key = cat("from", nd);
  LOG << key << (anyEven ? " equal " : " variable ") << shape(want);
  if (nd == 1)
  {
    TH1D t = anyEven ? TH1D("", "", n(0), ed[0].front(), ed[0].back()) : TH1D("", "", n(0), ed[0].data());
    V x = put(t), before = t.c;
    ours(DistTools::ToHist(t), want, x, key);
    check(t.c == before, "operand", "the external histogram changed");
  }
  else if (nd == 2)
  {
    TH2D t = anyEven ? TH2D("", "", n(0), ed[0].front(), ed[0].back(), n(1), ed[1].front(), ed[1].back()) : TH2D("", "", n(0), ed[0].data(), n(1), ed[1].data());
    V x = put(t), before = t.c;
    ours(DistTools::ToHist(t), want, x, key);
    check(t.c == before, "operand", "the external histogram changed");
  }
  else
  {
    if (anyEven)
      for (size_t d = 0; d < 3; ++d)
        ed[d] = TAxis::eq(n(d), ed[d].front(), ed[d].back());
    TH3D t("", "", n(0), ed[0].data(), n(1), ed[1].data(), n(2), ed[2].data());
    V x = put(t), before = t.c;
    ours(DistTools::ToHist(t), want, x, key);
    check(t.c == before, "operand", "the external histogram changed");
  }
  c.count(cat("converted from ", nd, " dimensions"));
  c.sig(cat(key, anyEven, shape(want)));
}

SCENARIO(functions, 5)
{
  size_t nd = size_t(c.r.ri(1, 3));
  AxisCollection ac = genAxes(c.r, genNames(c.r, int(nd)), 120);
  Dims dm = dims(ac);
  bool gauss = c.r.coin();
  Poly p;
  V mean, sd;
  for (size_t d = 0; d < nd; ++d)
  {
    V k;
    for (long i = c.r.ri(1, 4); i > 0; --i)
      k.push_back(c.r.value(-3, 3));
    p.k.push_back(k);
    mean.push_back(c.r.value(-5, 8));
    sd.push_back(c.r.uni(0.2, 4));
  }
  auto phi = [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); };
  Gaussian g(mean, sd, "g");
  const PDF &f = gauss ? static_cast<const PDF &>(g) : p;
  LOG << (gauss ? "gaussian " : "polynomial ") << shape(ac) << " " << str(mean) << str(sd);
  Histogram h = DistTools::ToHist(f, ac);
  check(h.GetAxes() == ac && h.GetAxisNames() == ac.GetAxisNames(), "function-axes", "axes differ");
  check(h.GetNBins() == dm.total(), "function-axes", h.GetNBins());
  for (size_t b = 0; b < dm.total(); ++b)
  {
    auto ix = dm.unpack(b);
    V lo, hi;
    double want = 1;
    for (size_t d = 0; d < nd; ++d)
    {
      V e = edges(ac.GetAxis(d));
      lo.push_back(e[ix[d]]);
      hi.push_back(e[ix[d] + 1]);
      want *= phi((hi[d] - mean[d]) / sd[d]) - phi((lo[d] - mean[d]) / sd[d]);
    }
    if (!gauss)
      want = p.over(lo, hi);
    double scale = 1;
    if (!gauss)
    {
      for (size_t d = 0; d < nd; ++d)
        scale *= std::fabs(Poly::prim(p.k[d], lo[d])) + std::fabs(Poly::prim(p.k[d], hi[d]));
      near(h.GetBinContent(b), want, "function-content", 1e-9, scale, "bin ", b, " from ", str(lo), " to ", str(hi));
    }
    else
    { // the library's error function is cut off at six standard deviations
      ++stats().checks;
      if (!(std::fabs(h.GetBinContent(b) - want) <= 6e-9))
        fail("function-content", cat("bin ", b, " from ", str(lo), " to ", str(hi), ": ", h.GetBinContent(b), " not ", want));
    }
  }
  if (!gauss)
  {
    auto before = p.asked.size();
    check(before >= dm.total(), "function-asked", before, " integrals for ", dm.total(), " bins");
  }
  AxisCollection fewer, more = ac;
  for (size_t d = 0; d + 1 < nd; ++d)
    fewer.AddAxis(ac.GetAxis(d));
  more.AddAxis(BinAxis("additional", 0, 1, 2));
  REFUSED("function-refused", DistTools::ToHist(f, more));
  REFUSED("function-refused", DistTools::ToHist(f, fewer));
  c.count(gauss ? "gaussians" : "polynomials");
  c.sig(cat("f", gauss, shape(ac)));
}
