// P04: requests outside an object's range.
#include "gen.h"
#include <ConstraintManager.h>
#include <BinnedEDManager.h>
#include <BinnedEDShrinker.h>
#include <BinnedNLLH.h>
#include <ChiSquare.h>
#include <ComponentManager.h>
#include <CutLog.h>
#include <DenseMatrix.h>
#include <DistFiller.h>
#include <EDManager.h>
#include <FitResult.h>
#include <ParameterDict.h>
#include <ParameterManager.h>
#include <Scale.h>
#include <Shift.h>
#include <SparseMatrix.h>
#include <SpectralFitDist.h>
#include <SystematicManager.h>
using namespace oxv;
PLAN("P04", 20000, 600000,
     "Axes, axis collections, histograms, binned distributions with and without bin parameters, events, observable sets, data sets, matrices, managers, "
     "cut logs, fit results and likelihoods of random shape and contents (also empty ones), each asked for 8..20 things it does not have: the first one past "
     "the end, the one after, far ones, -1, one in range in one dimension only, near-miss names, vectors one short, one long or empty, dictionaries with one "
     "name missing. Each must be refused, and everything the object shows, and every output argument, be as before. Distinct = (object, request, shape).")

namespace
{
typedef std::vector<double> V;
typedef std::vector<std::string> N;
typedef std::vector<size_t> I;

// refused with the library's own exception or std::out_of_range, and nothing shown changes
template <class S, class F>
void no(Case &c, const std::string &key, S shown, F f)
{
  std::string before = shown(), why;
  bool refused = false;
  c.log("no " + key);
  try
  {
    f();
  }
  catch (const OXSXException &e)
  {
    refused = true;
    why = e.what();
  }
  catch (const std::out_of_range &e)
  {
    refused = true;
    why = e.what();
  }
  catch (const std::exception &e)
  {
    fail(key + "-foreign", std::string("refused with a foreign exception: ") + e.what());
  }
  check(refused, key + "-accepted", "accepted");
  std::string after = shown();
  check(after == before, key + "-changed", "was ", before, " and is ", after, " after being refused (", why, ")");
  c.count("refusals");
  c.sig(c.scenario + key);
}
size_t beyond(Rng &r, size_t n) // an index past the last of n
{
  switch (r.ri(0, 4))
  {
  case 0:
  case 1:
    return n;
  case 2:
    return n + 1;
  case 3:
    return r.coin() ? size_t(-1) : size_t(1) << 40;
  default:
    return n + size_t(r.ri(0, 1000));
  }
}
size_t otherLength(Rng &r, size_t n)
{
  switch (r.ri(0, 3))
  {
  case 0:
    return n + 1;
  case 1:
    return n ? n - 1 : 1;
  case 2:
    return n ? 0 : 2;
  default:
    return n + size_t(r.ri(1, 20));
  }
}
std::string missing(Rng &r, const N &have) // a name that is not there, but might nearly be
{
  for (int k = 0;; ++k)
  {
    std::string s = have.empty() || k > 10 ? "nothing" : r.pick(have);
    switch (r.ri(0, 5))
    {
    case 0:
      s += r.coin() ? "_" : " ";
      break;
    case 1:
      s = s.substr(0, s.size() - 1);
      break;
    case 2:
      s = "";
      break;
    case 3:
      if (s.size())
        s[0] = char(s[0] ^ 0x20);
      break;
    case 4:
      s = "0";
      break;
    default:
      s = "missing";
    }
    if (pos(have, s) == have.size())
      return s;
  }
}
V some(Rng &r, size_t n)
{
  V v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(r.value(-10, 10));
  return v;
}
std::string show(const BinAxis &a) { return cat(a.GetName(), a.GetLatexName(), str(a.GetBinLowEdges()), str(a.GetBinHighEdges()), str(a.GetBinCentres()), a.GetMin(), a.GetMax(), a.GetNBins()); }
std::string show(const AxisCollection &a)
{
  std::string s = cat(a.GetNBins(), "/", a.GetNDimensions(), str(a.GetAxisNames()));
  for (size_t i = 0; i < a.GetNDimensions(); ++i)
    s += show(a.GetAxis(i));
  return s;
}
std::string show(const Histogram &h) { return cat(show(h.GetAxes()), str(h.GetAxisNames()), str(h.GetBinContents()), h.GetNBins(), "/", h.GetNDims()); }
std::string show(const BinnedED &e) { return cat(e.GetName(), str(e.GetObservables()), show(e.GetHistogram())); }
std::string show(const ParameterDict &d)
{
  std::string s;
  for (auto &p : d)
    s += cat(p.first, "=", p.second, ";");
  return s;
}
std::string show(const std::set<std::string> &s) { return str(s); }
template <class T>
std::string components(const T &t) { return cat(show(t.GetParameters()), show(t.GetParameterNames()), t.GetParameterCount()); }

// the requests that axes, histograms and binned distributions answer alike
template <class T, class S>
void binRequests(Case &c, T &t, const AxisCollection &ac, S shown)
{
  Rng &r = c.r;
  Dims d = dims(ac);
  size_t nd = d.n.size(), nb = ac.GetNBins();
  switch (r.ri(0, 4))
  {
  case 0:
    no(c, "flatten-length", shown, [&] { t.FlattenIndices(I(otherLength(r, nd), 0)); });
    break;
  case 1:
    if (nd)
    {
      I ix = d.unpack(size_t(r.ri(0, long(nb) - 1)));
      size_t k = size_t(r.ri(0, long(nd) - 1));
      ix[k] = beyond(r, d.n[k]);
      no(c, "flatten-index", shown, [&] { t.FlattenIndices(ix); });
    }
    break;
  case 2:
    if (nd)
      no(c, "unpack", shown, [&] { t.UnpackIndices(beyond(r, nb)); });
    break;
  case 3:
    no(c, "find-length", shown, [&] { t.FindBin(some(r, otherLength(r, nd))); });
    break;
  default:
    if (!nd)
    {
      no(c, "find-empty", shown, [&] { t.FindBin(V()); });
      no(c, "flatten-empty", shown, [&] { t.FlattenIndices(I()); });
    }
  }
}
template <class T, class S>
void edgeRequests(Case &c, T &t, const AxisCollection &ac, S shown)
{
  Rng &r = c.r;
  size_t nd = ac.GetNDimensions(), nb = ac.GetNBins();
  bool badBin = !nd || r.coin();
  size_t bin = badBin ? beyond(r, nb) : size_t(r.ri(0, long(nb) - 1)), dim = badBin && nd && r.coin(0.7) ? size_t(r.ri(0, long(nd) - 1)) : beyond(r, nd);
  switch (r.ri(0, 3))
  {
  case 0:
    no(c, badBin ? "low-bin" : "low-dim", shown, [&] { t.GetBinLowEdge(bin, dim); });
    break;
  case 1:
    no(c, badBin ? "high-bin" : "high-dim", shown, [&] { t.GetBinHighEdge(bin, dim); });
    break;
  case 2:
    no(c, badBin ? "centre-bin" : "centre-dim", shown, [&] { t.GetBinCentre(bin, dim); });
    break;
  default:
  {
    V out(badBin ? nd : otherLength(r, nd), 7.5);
    auto both = [&] { return shown() + str(out); };
    long k = r.ri(0, 2);
    no(c, cat(k == 0 ? "lows" : k == 1 ? "highs" : "centres", badBin ? "-bin" : "-length"), both, [&] { k == 0 ? t.GetBinLowEdges(bin, out) : k == 1 ? t.GetBinHighEdges(bin, out) : t.GetBinCentres(bin, out); });
  }
  }
}
AxisCollection someAxes(Rng &r, bool mayBeEmpty, int most = 60)
{
  if (mayBeEmpty && r.coin(0.05))
    return AxisCollection();
  return genAxes(r, genNames(r, int(r.ri(1, 3))), most);
}
AxisCollection otherBinning(Rng &r, const AxisCollection &ac)
{
  AxisCollection o;
  size_t k = size_t(r.ri(0, std::max<long>(0, long(ac.GetNDimensions()) - 1)));
  int how = int(r.ri(0, 3));
  for (size_t i = 0; i < ac.GetNDimensions(); ++i)
  {
    V e = edges(ac.GetAxis(i));
    if (i == k && how == 0)
      e.push_back(e.back() + 1);
    if (i == k && how == 1)
      e.back() += 0.5 * (e.back() - e[e.size() - 2]);
    if (i == k && how == 2)
    {
      if (e.size() > 2)
        e.erase(e.begin() + 1);
      else
        e.insert(e.begin(), e.front() - 1);
    }
    o.AddAxis(axisFromEdges(ac.GetAxis(i).GetName(), e));
  }
  if (how == 3)
    o.AddAxis(BinAxis("one more", 0, 1, size_t(r.ri(1, 2))));
  return o;
}
template <class T, class S>
void contentRequests(Case &c, T &t, const AxisCollection &ac, S shown)
{
  Rng &r = c.r;
  size_t nd = ac.GetNDimensions(), nb = ac.GetNBins();
  N names = ac.GetAxisNames();
  switch (r.ri(0, 11))
  {
  case 0:
    no(c, "get-content", shown, [&] { t.GetBinContent(beyond(r, nb)); });
    break;
  case 1:
    no(c, "add-content", shown, [&] { t.AddBinContent(beyond(r, nb), r.uni(1, 5)); });
    break;
  case 2: // the bin just past the end is a finding of its own
    no(c, "set-content", shown, [&] { t.SetBinContent(std::max(nb + 1, beyond(r, nb)), r.uni(1, 5)); });
    break;
  case 3:
    no(c, "set-contents", shown, [&] { t.SetBinContents(some(r, otherLength(r, nb))); });
    break;
  case 4:
    no(c, "fill-length", shown, [&] { t.Fill(some(r, otherLength(r, nd)), r.uni(1, 2)); });
    break;
  case 5:
    if (nd != 1)
      no(c, "fill-one", shown, [&] { t.Fill(r.uni(), 2); });
    break;
  case 6:
  {
    N k = subset(r, names, size_t(r.ri(0, long(nd))));
    k.insert(k.begin() + r.ri(0, long(k.size())), missing(r, names));
    no(c, "project-missing", shown, [&] { t.Marginalise(k); });
    break;
  }
  case 7:
    no(c, "project-one-missing", shown, [&] { t.Marginalise(missing(r, names)); });
    break;
  case 8:
    if (nd)
    {
      N k = names;
      k.push_back(r.pick(names));
      r.shuffle(k);
      no(c, "project-twice", shown, [&] { t.Marginalise(k); });
      no(c, "project-none", shown, [&] { t.Marginalise(N()); });
    }
    break;
  case 9:
  {
    std::map<std::string, size_t> at;
    if (nd > 1 && r.coin())
      at[r.pick(names)] = 0;
    at[missing(r, names)] = 0;
    no(c, "slice-missing", shown, [&] { t.GetSlice(at); });
    break;
  }
  case 10:
    if (nd > 1)
    {
      std::map<std::string, size_t> at;
      Dims d = dims(ac);
      N k = subset(r, names, size_t(r.ri(1, long(nd) - 1)));
      for (auto &n : k)
        at[n] = size_t(r.ri(0, long(d.n[pos(names, n)]) - 1));
      at[k[0]] = beyond(r, d.n[pos(names, k[0])]);
      no(c, "slice-bin", shown, [&] { t.GetSlice(at); });
    }
    break;
  default:
  {
    std::map<std::string, size_t> at;
    for (auto &n : names)
      at[n] = 0;
    no(c, "slice-all", shown, [&] { t.GetSlice(at); });
  }
  }
}
} // namespace

SCENARIO(axes, 2)
{
  BinAxis a = genAxis(c.r, "x", int(c.r.ri(1, 30)));
  auto shown = [&] { return show(a); };
  size_t n = a.GetNBins();
  for (int k = 0; k < 6; ++k)
  {
    size_t i = beyond(c.r, n);
    no(c, "low", shown, [&] { a.GetBinLowEdge(i); });
    no(c, "high", shown, [&] { a.GetBinHighEdge(i); });
    no(c, "centre", shown, [&] { a.GetBinCentre(i); });
    no(c, "width", shown, [&] { a.GetBinWidth(i); });
  }
  double lo = c.r.uni(-5, 5);
  no(c, "no-bins", shown, [&] { BinAxis("y", lo, lo + 1, 0); });
  no(c, "no-range", shown, [&] { BinAxis("y", lo, lo, 3); });
  no(c, "reversed", shown, [&] { BinAxis("y", lo, lo - c.r.uni(0.1, 3), 3); });
  V e = edges(a), l(e.begin(), e.end() - 1), h(e.begin() + 1, e.end());
  no(c, "no-edges", shown, [&] { BinAxis("y", V(), V()); });
  V h1 = h;
  h1.resize(otherLength(c.r, n), e.back() + 1);
  no(c, "edge-number", shown, [&] { BinAxis("y", l, h1); });
  size_t i = size_t(c.r.ri(0, long(n) - 1));
  V hb = h;
  hb[i] = l[i] - c.r.uni(0.01, 2);
  no(c, "edge-order", shown, [&] { BinAxis("y", l, hb); });
  if (n > 1)
  {
    V lb = l, hh = h;
    i = size_t(c.r.ri(1, long(n) - 1));
    lb[i] = lb[i - 1] - c.r.uni(0.01, 2);
    no(c, "low-order", shown, [&] { BinAxis("y", lb, hh); });
  }
}

SCENARIO(collections, 3)
{
  AxisCollection a = someAxes(c.r, true);
  auto shown = [&] { return show(a); };
  N names = a.GetAxisNames();
  size_t nd = a.GetNDimensions(), nb = a.GetNBins();
  LOG << show(a);
  for (int k = 0; k < 12; ++k)
    switch (c.r.ri(0, 6))
    {
    case 0:
      no(c, "axis-number", shown, [&] { a.GetAxis(beyond(c.r, nd)); });
      break;
    case 1:
      no(c, "axis-name", shown, [&] { a.GetAxis(missing(c.r, names)); });
      no(c, "axis-index", shown, [&] { a.GetAxisIndex(missing(c.r, names)); });
      break;
    case 2:
      if (nd)
      {
        std::string n = c.r.pick(names);
        no(c, "axis-twice", shown, [&] { a.AddAxis(BinAxis(n, 0, 1, size_t(c.r.ri(1, 4)))); });
        std::vector<BinAxis> more{BinAxis("new", 0, 1, 2), BinAxis("newer", 0, 1, 3)};
        more.insert(more.begin() + c.r.ri(0, 2), BinAxis(c.r.coin() ? n : std::string("new"), 0, 2, 2));
        no(c, "axes-twice", shown, [&] { a.AddAxes(more); });
      }
      break;
    case 3:
    {
      bool bad = !nd || c.r.coin();
      size_t bin = bad ? beyond(c.r, nb) : size_t(c.r.ri(0, long(nb) - 1)), dim = bad && nd ? size_t(c.r.ri(0, long(nd) - 1)) : beyond(c.r, nd);
      no(c, bad ? "unflatten-bin" : "unflatten-dim", shown, [&] { a.UnflattenIndex(bin, dim); });
      no(c, bad ? "width-bin" : "width-dim", shown, [&] { a.GetBinWidth(bin, dim); });
      break;
    }
    case 4:
      binRequests(c, a, a, shown);
      break;
    default:
      edgeRequests(c, a, a, shown);
    }
}

SCENARIO(histograms, 5)
{
  AxisCollection ac = someAxes(c.r, true);
  Histogram h(ac);
  h.SetBinContents(genContents(c.r, ac.GetNBins()));
  if (!ac.GetNDimensions() && c.r.coin())
    h = Histogram();
  auto shown = [&] { return show(h); };
  N names = ac.GetAxisNames();
  size_t nd = ac.GetNDimensions();
  LOG << show(h);
  for (int k = 0; k < 14; ++k)
    switch (c.r.ri(0, 7))
    {
    case 0:
      binRequests(c, h, ac, shown);
      break;
    case 1:
      edgeRequests(c, h, ac, shown);
      break;
    case 2:
    {
      std::map<std::string, double> m;
      for (auto &n : names)
        m[n] = c.r.uni();
      if (nd)
      {
        m.erase(c.r.pick(names));
        if (c.r.coin())
          m[missing(c.r, names)] = 1;
        no(c, "fill-names", shown, [&] { h.Fill(m, 2); });
      }
      no(c, "axis-index", shown, [&] { h.GetAxisIndex(missing(c.r, names)); });
      break;
    }
    case 3:
      if (nd != 1)
      {
        no(c, "integral-range", shown, [&] { h.Integral(0.0, 1.0); });
        no(c, "find-one", shown, [&] { h.FindBin(0.5); });
      }
      break;
    case 4:
    {
      Histogram o(otherBinning(c.r, ac));
      o.SetBinContents(genContents(c.r, o.GetNBins(), true));
      if (o.GetAxes() != ac)
      {
        auto two = [&] { return show(h) + show(o); };
        no(c, "add-binning", two, [&] { h.Add(o, 2); });
        no(c, "multiply-binning", two, [&] { h.Multiply(o); });
        no(c, "divide-binning", two, [&] { h.Divide(o); });
        no(c, "add-binning", two, [&] { o.Add(h); });
      }
      break;
    }
    case 5:
    {
      std::vector<V> where;
      no(c, "lattice-length", shown, [&] { h.GetLatticePointValues(some(c.r, otherLength(c.r, nd)), where); });
      if (nd)
      { // no points around one beyond the outermost centres
        V x;
        for (size_t d = 0; d < nd; ++d)
        {
          auto ce = ac.GetAxis(d).GetBinCentres();
          x.push_back(c.r.uni(ce.front(), ce.back()));
        }
        size_t d = size_t(c.r.ri(0, long(nd) - 1));
        auto ce = ac.GetAxis(d).GetBinCentres();
        x[d] = c.r.coin() ? ce.front() - c.r.uni(1e-6, 5) : ce.back() + c.r.uni(1e-6, 5);
        no(c, "lattice-outside", shown, [&] { h.GetLatticePointValues(x, where); });
      }
      break;
    }
    default:
      contentRequests(c, h, ac, shown);
    }
}

// binnings that differ in one single number, gaps between the bins included
SCENARIO(binnings, 2)
{
  int nd = int(c.r.ri(1, 3));
  N names = genNames(c.r, nd);
  std::vector<V> lo(nd), hi(nd);
  for (int d = 0; d < nd; ++d)
  {
    double x = c.r.uni(-5, 5);
    for (int i = 0, n = int(c.r.ri(1, 5)); i < n; ++i)
    {
      lo[d].push_back(x);
      x += c.r.uni(0.5, 2);
      hi[d].push_back(x);
      if (c.r.coin())
        x += c.r.uni(0.5, 1);
    }
  }
  auto build = [&]
  {
    AxisCollection ac;
    for (int d = 0; d < nd; ++d)
      ac.AddAxis(BinAxis(names[d], lo[d], hi[d]));
    Histogram h(ac);
    h.SetBinContents(genContents(c.r, h.GetNBins(), true));
    return h;
  };
  Histogram h = build(), same = build();
  Histogram ok = h;
  ok.Add(same);
  ok.Multiply(same);
  ok.Divide(same);
  int d = int(c.r.ri(0, nd - 1));
  size_t i = size_t(c.r.ri(0, long(lo[d].size()) - 1));
  bool low = c.r.coin();
  (low ? lo : hi)[d][i] += (low ? 1 : -1) * c.r.uni(0.05, 0.4); // the bin shrinks a little
  Histogram o = build();
  LOG << "axis " << d << " bin " << i << (low ? " low" : " high") << " edge moved";
  auto two = [&] { return show(h) + show(o); };
  no(c, "add-binning", two, [&] { h.Add(o, c.r.coin() ? 1 : 0); });
  no(c, "multiply-binning", two, [&] { h.Multiply(o); });
  no(c, "divide-binning", two, [&] { h.Divide(o); });
  BinnedED a("a", h), b("b", o);
  auto eds = [&] { return show(a.GetHistogram()) + show(b.GetHistogram()); };
  a.SetObservables(names);
  b.SetObservables(names);
  no(c, "add-binning", eds, [&] { a.Add(b); });
  no(c, "multiply-binning", eds, [&] { b.Multiply(a); });
  no(c, "divide-binning", eds, [&] { a.Divide(b); });
  c.sig(cat("binnings", nd, d, i, low));
}

// a parameter is constrained alone or in a pair, never both, in whatever way the constraints are given
SCENARIO(constraints, 2)
{
  ConstraintManager m;
  N names = genNames(c.r, 4);
  std::map<std::string, int> how; // 1 alone, 2 paired
  ParameterDict at;
  for (auto &n : names)
    at[n] = c.r.uni(-2, 2);
  auto shown = [&]
  {
    std::ostringstream o;
    o.precision(17);
    o << m.Evaluate(at);
    return o.str();
  };
  for (int k = 0; k < 10; ++k)
  {
    std::string p = c.r.pick(names), q = c.r.pick(names);
    double mean = c.r.uni(-1, 1), s = c.r.uni(0.1, 2), s2 = c.r.coin(0.2) ? s : c.r.uni(0.1, 2), rho = c.r.uni(-0.9, 0.9);
    int what = int(c.r.ri(0, 3));
    auto set = [&]
    {
      if (what == 0)
        m.SetConstraint(p, mean, s);
      else if (what == 1)
        m.SetConstraint(p, mean, s, s2);
      else
        m.SetConstraint(p, mean, s, q, -mean, s2, rho);
    };
    bool pair = what > 1;
    if (pair && p == q)
      continue;
    bool clash = pair ? how[p] == 1 || how[q] == 1 : how[p] == 2;
    LOG << "constraint " << what << " " << p << " " << q << (clash ? " clashes" : "");
    if (clash)
      no(c, pair ? "pair-clash" : "alone-clash", shown, set);
    else
    {
      try
      {
        set();
      }
      catch (const OXSXException &e)
      {
        if (!pair) // whether a pair may be given again is not for this check
          fail("constraint", std::string("refused: ") + e.what());
        continue;
      }
      how[p] = pair ? 2 : 1;
      if (pair)
        how[q] = 2;
    }
  }
  c.sig(cat("constraints", how.size()));
}

SCENARIO(distributions, 5)
{
  AxisCollection ac = someAxes(c.r, false);
  N names = ac.GetAxisNames(), obs = c.r.coin() ? names : subset(c.r, genNames(c.r, 12), names.size());
  bool spectral = c.r.coin(0.4);
  SpectralFitDist s("s", ac);
  BinnedED b("b", ac);
  BinnedED &e = spectral ? s : b;
  e.SetObservables(obs);
  e.SetBinContents(genContents(c.r, ac.GetNBins(), true));
  auto shown = [&] { return show(e) + (spectral ? components(s) : ""); };
  LOG << shown();
  for (int k = 0; k < 14; ++k)
    switch (c.r.ri(0, spectral ? 7 : 5))
    {
    case 0:
      binRequests(c, e, ac, shown);
      break;
    case 1:
    {
      V wrong = some(c.r, otherLength(c.r, names.size()));
      no(c, "probability-length", shown, [&] { e.Probability(wrong); });
      break;
    }
    case 2:
    { // events that do not have what it needs
      N have = obs;
      have.erase(have.begin() + c.r.ri(0, long(have.size()) - 1));
      if (c.r.coin())
        have.push_back(missing(c.r, obs));
      if (c.r.coin())
        have.push_back("another");
      V v = some(c.r, have.size());
      Event ev = makeEvent(v, &have);
      auto two = [&] { return shown() + str(ev.GetData()); };
      no(c, "event-fill", two, [&] { e.Fill(ev, 2); });
      no(c, "event-find", two, [&] { e.FindBin(ev); });
      no(c, "event-probability", two, [&] { e.Probability(ev); });
      Event nameless(some(c.r, names.size()));
      no(c, "nameless-fill", shown, [&] { e.Fill(nameless, 2); });
      no(c, "nameless-probability", shown, [&] { e.Probability(nameless); });
      N longer = obs; // named, but without the values
      longer.insert(longer.begin(), "first");
      Event shorter = makeEvent(some(c.r, obs.size()), &longer);
      no(c, "short-fill", shown, [&] { e.Fill(shorter, 2); });
      no(c, "short-probability", shown, [&] { e.Probability(shorter); });
      break;
    }
    case 3:
    { // as many observables as it does not have dimensions
      BinnedED o(e);
      N more = obs;
      if (c.r.coin())
        more.push_back("z9");
      else
        more.pop_back();
      o.SetObservables(more);
      auto there = [&] { return show(o); };
      N all = obs;
      all.push_back("z9");
      Event ev = makeEvent(some(c.r, all.size()), &all);
      no(c, "observables-fill", there, [&] { o.Fill(ev); });
      no(c, "observables-find", there, [&] { o.FindBin(ev); });
      no(c, "observables-probability", there, [&] { o.Probability(ev); });
      break;
    }
    case 4:
    {
      AxisCollection oc = otherBinning(c.r, ac);
      BinnedED o("o", oc);
      o.SetBinContents(genContents(c.r, oc.GetNBins(), true));
      if (oc != ac)
      {
        auto two = [&] { return shown() + show(o); };
        no(c, "add-binning", two, [&] { e.Add(o, 2); });
        no(c, "multiply-binning", two, [&] { e.Multiply(o); });
        no(c, "divide-binning", two, [&] { e.Divide(o); });
      }
      break;
    }
    case 5:
      contentRequests(c, e, ac, shown);
      break;
    default:
    {
      auto ps = s.GetParameterNames();
      N pn(ps.begin(), ps.end());
      std::string m = missing(c.r, pn);
      no(c, "parameter-get", shown, [&] { s.GetParameter(m); });
      no(c, "parameter-set", shown, [&] { s.SetParameter(m, 3); });
      no(c, "parameter-rename", shown, [&] { s.RenameParameter(m, "new"); });
      if (pn.size() > 1)
        no(c, "parameter-rename-taken", shown, [&] { s.RenameParameter(pn.front(), pn.back()); });
      ParameterDict d;
      for (auto &n : pn)
        d[n] = c.r.uni(20, 30);
      d.erase(c.r.pick(pn));
      no(c, "parameters-set", shown, [&] { s.SetParameters(d); });
    }
    }
}

SCENARIO(events, 3)
{
  size_t n = size_t(c.r.ri(0, 6));
  N names = genNames(c.r, int(n));
  Event e = makeEvent(some(c.r, n), &names);
  auto shown = [&] { return str(e.GetData()) + cat(e.GetNObservables()); };
  LOG << shown() << str(names);
  for (int k = 0; k < 4; ++k)
  {
    no(c, "get", shown, [&] { e.GetDatum(beyond(c.r, n)); });
    no(c, "set", shown, [&] { e.SetDatum(beyond(c.r, n), 99); });
    std::string m = missing(c.r, names);
    no(c, "get-name", shown, [&] { e.GetDatum(m); });
    no(c, "set-name", shown, [&] { e.SetDatum(m, 99); });
    N some = subset(c.r, names, size_t(c.r.ri(0, long(n))));
    some.insert(some.begin() + c.r.ri(0, long(some.size())), m);
    ObsSet os(some);
    no(c, "observables", shown, [&] { e.ToObsSet(os); });
    no(c, "index", [&] { return str(os.GetNames()); }, [&] { os.GetIndex(missing(c.r, some)); });
    ObsSet mine(names);
    no(c, "relative", [&] { return str(os.GetNames()) + str(mine.GetNames()); }, [&] { os.GetRelativeIndices(mine); });
  }
  Event bare(e.GetData());
  auto there = [&] { return str(bare.GetData()); };
  std::string any = n ? names[0] : "x";
  no(c, "nameless-get", there, [&] { bare.GetDatum(any); });
  no(c, "nameless-set", there, [&] { bare.SetDatum(any, 99); });
  no(c, "nameless-names", there, [&] { bare.GetObservableNames(); });
  no(c, "nameless-map", there, [&] { bare.GetDataMap(); });
  N longer = names;
  longer.push_back("last");
  Event odd = makeEvent(e.GetData(), &longer);
  auto odds = [&] { return str(odd.GetData()); };
  no(c, "valueless-get", odds, [&] { odd.GetDatum("last"); });
  no(c, "valueless-set", odds, [&] { odd.SetDatum("last", 99); });
  no(c, "valueless-map", odds, [&] { odd.GetDataMap(); });
}

SCENARIO(datasets, 2)
{
  size_t no_ = size_t(c.r.ri(1, 4)), n = size_t(c.r.ri(0, 12));
  N names = genNames(c.r, int(no_));
  OXSXDataSet d;
  d.SetObservableNames(names);
  for (size_t i = 0; i < n; ++i)
    d.AddEntry(Event(some(c.r, no_)));
  auto showSet = [](const OXSXDataSet &s)
  {
    std::string t = cat(s.GetNEntries(), "/", s.GetNObservables(), str(s.GetObservableNames()));
    for (size_t i = 0; i < s.GetNEntries(); ++i)
      t += str(s.GetEntry(i).GetData());
    return t;
  };
  auto shown = [&] { return showSet(d); };
  LOG << shown();
  for (int k = 0; k < 4; ++k)
  {
    no(c, "entry", shown, [&] { d.GetEntry(beyond(c.r, n)); });
    no(c, "empty", shown, [&] { d.AddEntry(Event(V())); });
    if (n)
    {
      size_t other = otherLength(c.r, no_);
      no(c, "length", shown, [&] { d.AddEntry(Event(some(c.r, other))); });
      OXSXDataSet o;
      if (other)
      {
        o.SetObservableNames(genNames(c.r, int(std::min<size_t>(other, 12))));
        for (long i = c.r.ri(1, 4); i > 0; --i)
          o.AddEntry(Event(some(c.r, other)));
        auto both = [&] { return shown() + showSet(o); };
        no(c, "sum", both, [&] { d + o; });
        no(c, "sum", both, [&] { o + d; });
      }
    }
  }
}

template <class M>
static void matrix(Case &c, bool dense)
{
  size_t nr = size_t(c.r.ri(1, 7)), nc = c.r.coin(0.4) ? nr : size_t(c.r.ri(1, 7));
  M m(nr, nc);
  V a(nr * nc);
  for (auto &x : a)
    x = c.r.coin(0.4) ? 0 : c.r.uni(-3, 3);
  for (size_t i = 0; i < nr; ++i)
    for (size_t j = 0; j < nc; ++j)
      m.SetComponent(i, j, a[i * nc + j]);
  auto showM = [](const M &x, size_t r, size_t k)
  {
    std::string s;
    for (size_t i = 0; i < r; ++i)
      for (size_t j = 0; j < k; ++j)
        s += cat(x.GetComponent(i, j), " ");
    return s;
  };
  auto shown = [&] { return showM(m, nr, nc); };
  LOG << nr << "x" << nc;
  for (int k = 0; k < 5; ++k)
  {
    bool row = c.r.coin();
    size_t i = row ? beyond(c.r, nr) : size_t(c.r.ri(0, long(nr) - 1)), j = row && c.r.coin(0.8) ? size_t(c.r.ri(0, long(nc) - 1)) : beyond(c.r, nc);
    no(c, "get", shown, [&] { m.GetComponent(i, j); });
    no(c, "set", shown, [&] { m.SetComponent(i, j, 5); });
    size_t w = otherLength(c.r, nc);
    no(c, "apply", shown, [&] { m(some(c.r, w)); });
    size_t br = otherLength(c.r, nc);
    if (br)
    {
      M b(br, size_t(c.r.ri(1, 5)));
      no(c, "product", [&] { return shown() + showM(b, br, 1); }, [&] { m *= b; });
    }
    if (nr != nc)
      no(c, "identity", shown, [&] { m.SetToIdentity(); });
    if constexpr (std::is_same<M, DenseMatrix>::value)
    {
      if (nr != nc)
        no(c, "symmetric-shape", shown, [&] { m.SetSymmetricMatrix(some(c.r, nr * (nr + 1) / 2)); });
      size_t t = otherLength(c.r, nr * (nr + 1) / 2);
      if (nr == nc)
        no(c, "symmetric-length", shown, [&] { m.SetSymmetricMatrix(some(c.r, t)); });
    }
    else
    {
      if (br)
      {
        M b(br, 2);
        no(c, "product", shown, [&] { m *b; });
      }
      typedef std::vector<long long unsigned int> L;
      size_t q = size_t(c.r.ri(1, 5)), bad = size_t(c.r.ri(0, long(q) - 1));
      L ri, ci;
      for (size_t z = 0; z < q; ++z)
        ri.push_back(size_t(c.r.ri(0, long(nr) - 1))), ci.push_back(size_t(c.r.ri(0, long(nc) - 1)));
      V v = some(c.r, q);
      L r2 = ri, c2 = ci;
      if (row)
        r2[bad] = beyond(c.r, nr);
      else
        c2[bad] = beyond(c.r, nc);
      no(c, "components-range", shown, [&] { m.SetComponents(r2, c2, v); });
      r2 = ri;
      r2.resize(otherLength(c.r, q));
      no(c, "components-rows", shown, [&] { m.SetComponents(r2, ci, v); });
      c2 = ci;
      c2.resize(otherLength(c.r, q));
      no(c, "components-columns", shown, [&] { m.SetComponents(ri, c2, v); });
      no(c, "components-values", shown, [&] { m.SetComponents(ri, ci, some(c.r, otherLength(c.r, q))); });
    }
  }
  M none;
  auto nothing = [] { return std::string(); };
  no(c, "none-get", nothing, [&] { none.GetComponent(0, 0); });
  no(c, "none-set", nothing, [&] { none.SetComponent(0, 0, 1); });
  no(c, "none-zeros", nothing, [&] { none.SetZeros(); });
  no(c, "none-identity", nothing, [&] { none.SetToIdentity(); });
}
SCENARIO(dense, 1) { matrix<DenseMatrix>(c, true); }
SCENARIO(sparse, 1) { matrix<SparseMatrix>(c, false); }

SCENARIO(managers, 3)
{ // of binned distributions, with every kind of normalisation
  AxisCollection ac = someAxes(c.r, false, 30);
  N obs = ac.GetAxisNames();
  size_t n = size_t(c.r.ri(0, 4));
  BinnedEDManager m;
  EDManager em;
  int kind = int(c.r.ri(0, 3));
  N fitted, all;
  std::vector<BinnedED> pdfs;
  for (size_t i = 0; i < n; ++i)
  {
    BinnedED p(cat("p", i), genHist(c.r, ac, true));
    p.SetObservables(obs);
    NormFittingStatus st = kind == 0 ? DIRECT : kind == 1 ? INDIRECT : NormFittingStatus(c.r.ri(0, 2));
    m.AddPdf(p, st);
    em.AddDist(&p);
    pdfs.push_back(p);
    if (st != FALSE)
      fitted.push_back(p.GetName());
    all.push_back(p.GetName());
  }
  m.SetNormalisations(some(c.r, n));
  em.SetNormalisations(some(c.r, n));
  V mid;
  for (size_t d = 0; d < obs.size(); ++d)
    mid.push_back(c.r.uni(ac.GetAxis(d).GetMin(), ac.GetAxis(d).GetMax()));
  Event in = makeEvent(mid, &obs);
  auto shown = [&]
  {
    std::string s = cat(m.GetNPdfs(), "/", m.GetNDims(), str(m.GetNormalisations()), components(m), m.GetName());
    for (size_t i = 0; i < m.GetNPdfs(); ++i)
      s += show(m.GetOriginalPdf(i));
    return s + cat(m.Probability(in));
  };
  auto dists = [&] { return cat(em.GetNDists(), "/", em.GetNDims(), str(em.GetNormalisations()), components(em), em.Probability(in)); };
  shown(); // normalisations settle when they are used
  LOG << shown();
  N have = obs;
  have.pop_back();
  have.push_back(missing(c.r, obs));
  Event lacking = makeEvent(mid, &have);
  for (int k = 0; k < 8; ++k)
    switch (c.r.ri(0, 6))
    {
    case 0:
      no(c, "pdf", shown, [&] { m.GetOriginalPdf(beyond(c.r, n)); });
      break;
    case 1:
      no(c, "normalisations", shown, [&] { m.SetNormalisations(some(c.r, otherLength(c.r, n))); });
      no(c, "ed-normalisations", dists, [&] { em.SetNormalisations(some(c.r, otherLength(c.r, n))); });
      break;
    case 2:
      if (n)
      {
        no(c, "bin", shown, [&] { m.BinProbability(beyond(c.r, ac.GetNBins())); });
        no(c, "event", shown, [&] { m.Probability(lacking); });
        no(c, "ed-event", dists, [&] { em.Probability(lacking); });
        Event nameless(mid);
        no(c, "nameless", shown, [&] { m.Probability(nameless); });
      }
      break;
    case 3:
    {
      std::vector<NormFittingStatus> st(otherLength(c.r, pdfs.size()), DIRECT);
      no(c, "statuses", shown, [&] { m.AddPdfs(pdfs, &st); });
      break;
    }
    case 4:
    {
      std::string x = missing(c.r, fitted), y = missing(c.r, all);
      no(c, "parameter-get", shown, [&] { m.GetParameter(x); });
      no(c, "parameter-set", shown, [&] { m.SetParameter(x, 4); });
      no(c, "parameter-rename", shown, [&] { m.RenameParameter(x, "new"); });
      no(c, "ed-parameter-get", dists, [&] { em.GetParameter(y); });
      no(c, "ed-parameter-set", dists, [&] { em.SetParameter(y, 4); });
      no(c, "ed-parameter-rename", dists, [&] { em.RenameParameter(y, "new"); });
      if (fitted.size() > 1)
        no(c, "parameter-rename-taken", shown, [&] { m.RenameParameter(fitted.front(), fitted.back()); });
      break;
    }
    case 5:
      if (fitted.size())
      {
        ParameterDict d, e;
        for (auto &f : fitted)
          d[f] = c.r.uni(20, 30);
        d.erase(c.r.pick(fitted));
        no(c, "parameters-set", shown, [&] { m.SetParameters(d); });
        for (auto &f : all)
          e[f] = c.r.uni(20, 30);
        e.erase(c.r.pick(all));
        no(c, "ed-parameters-set", dists, [&] { em.SetParameters(e); });
      }
      break;
    default:
      if (n)
      { // another dimension
        AxisCollection o = ac;
        o.AddAxis(BinAxis("one more", 0, 1, 2));
        BinnedED x("x", o), y("y", ac), z("z", ac);
        y.SetObservables(obs);
        no(c, "ed-dimension", dists, [&] { em.AddDist(&x); });
        std::vector<EventDistribution *> v{&y, &z};
        v.insert(v.begin() + c.r.ri(0, 2), &x);
        no(c, "ed-dimensions", dists, [&] { em.AddDists(v); });
      }
    }
}

SCENARIO(groups, 2)
{
  AxisCollection ac = someAxes(c.r, false, 30);
  N obs = ac.GetAxisNames();
  SystematicManager m;
  std::vector<std::unique_ptr<Scale>> sys;
  N groups = genNames(c.r, int(c.r.ri(0, 3)), "g_");
  for (int i = 0; i < 4; ++i)
  {
    sys.emplace_back(new Scale(cat("s", i)));
    sys.back()->SetAxes(ac);
    sys.back()->SetTransformationObs(ObsSet(obs[0]));
    sys.back()->SetDistributionObs(ObsSet(obs));
    sys.back()->RenameParameter("scaleFactor", cat("f", i));
    sys.back()->SetScaleFactor(1.0 + 0.1 * i);
    if (groups.empty() || c.r.coin(0.3))
      m.Add(sys.back().get());
    else
      m.Add(sys.back().get(), c.r.pick(groups));
  }
  auto shown = [&]
  {
    std::string s = cat(m.GetNSystematics(), "/", m.GetNGroups(), str(m.GetGroupNames()));
    for (auto &g : m.GetGroupNames())
      s += cat(g, ":", str(m.GetSystematicsNamesInGroup(g)), m.GetNSystematicsInGroup(g), str(m.GetGroup(g)));
    return s;
  };
  LOG << shown();
  N have;
  for (auto &g : m.GetGroupNames())
    have.push_back(g);
  BinnedED p("p", genHist(c.r, ac, true));
  p.SetObservables(obs);
  for (int k = 0; k < 6; ++k)
  {
    std::string g = missing(c.r, have);
    no(c, "number", shown, [&] { m.GetNSystematicsInGroup(g); });
    no(c, "names", shown, [&] { m.GetSystematicsNamesInGroup(g); });
    no(c, "systematics", shown, [&] { m.GetSystematicsInGroup(g); });
    no(c, "group", shown, [&] { m.GetGroup(g); });
    no(c, "response", shown, [&] { m.GetTotalResponse(g); });
    no(c, "dist", shown, [&] { m.AddDist(p, g); });
    no(c, "dists", shown, [&] { m.AddDist(p, N{have.back(), g}); });
    no(c, "global-twice", shown, [&] { m.Add(sys[size_t(c.r.ri(0, 3))].get()); });
  }
  BinnedEDShrinker s;
  for (auto &o : obs)
    if (c.r.coin())
      s.SetBuffer(o, 1, 2);
  N buffered;
  for (auto &b : s.GetBuffers())
    buffered.push_back(b.first);
  auto buffers = [&]
  {
    std::string t;
    for (auto &b : s.GetBuffers())
      t += cat(b.first, b.second.first, b.second.second);
    return t;
  };
  no(c, "buffer", buffers, [&] { s.GetBuffer(missing(c.r, buffered)); });
  const BinAxis &a = ac.GetAxis(0);
  unsigned nb = unsigned(a.GetNBins()), lo = unsigned(c.r.ri(0, nb)), hi = nb - lo + unsigned(c.r.ri(0, 3));
  no(c, "shrink", buffers, [&] { s.ShrinkAxis(a, lo, hi); });
  no(c, "shrink", buffers, [&] { s.ShrinkAxis(a, hi, lo); });
  no(c, "shrink", buffers, [&] { s.ShrinkAxis(a, unsigned(-1), 1); });
}

SCENARIO(likelihoods, 3)
{
  AxisCollection ac = someAxes(c.r, false, 20);
  N obs = ac.GetAxisNames();
  std::unique_ptr<Scale> sc(new Scale("s")), sd(new Scale("other"));
  for (auto *s : {sc.get(), sd.get()})
  {
    s->SetAxes(ac);
    s->SetTransformationObs(ObsSet(obs[0]));
    s->SetDistributionObs(ObsSet(obs));
    s->SetScaleFactor(1.05);
  }
  sd->RenameParameter("scaleFactor", "factor");
  BinnedNLLH f;
  auto pdf = [&](const std::string &n)
  {
    BinnedED p(n, genHist(c.r, ac, true));
    p.AddPadding(0.1);
    p.Normalise();
    p.SetObservables(obs);
    return p;
  };
  bool bb = c.r.coin(0.3);
  f.AddSystematic(sc.get(), "g");
  f.AddSystematic(sd.get(), "h");
  size_t n = size_t(c.r.ri(1, 3));
  ParameterDict at;
  for (size_t i = 0; i < n; ++i)
  {
    bool in = c.r.coin();
    if (bb)
      f.AddPdf(pdf(cat("p", i)), in ? N{"g"} : N{"h", "g"}, 1000);
    else
      f.AddPdf(pdf(cat("p", i)), in ? N{"g"} : N{"h", "g"});
    at[cat("p", i)] = c.r.uni(1, 50);
  }
  f.SetBarlowBeeston(bb);
  BinnedED data("data", genHist(c.r, ac));
  data.SetObservables(obs);
  f.SetDataDist(data);
  f.RegisterFitComponents();
  at["scaleFactor"] = 1;
  at["factor"] = 1;
  f.SetParameters(at);
  f.SetBuffer(obs[0], 0, 0);
  // a bin everything has been scaled out of makes it infinite, which is an error of its own
  auto value = [&]() -> std::string
  {
    try
    {
      return cat(f.Evaluate());
    }
    catch (const std::runtime_error &e)
    {
      return "none";
    }
  };
  auto shown = [&] { return components(f) + str(f.GetNormalisations()) + show(f.GetDataDist()) + value(); };
  shown();
  LOG << shown();
  N names;
  for (auto &p : at)
    names.push_back(p.first);
  for (int k = 0; k < 6; ++k)
    switch (c.r.ri(0, 5))
    {
    case 0:
    {
      ParameterDict d;
      for (auto &x : names)
        d[x] = c.r.uni(0.9, 1.1);
      d.erase(c.r.pick(names));
      if (c.r.coin())
        d["another"] = 3;
      no(c, "parameters", shown, [&] { f.SetParameters(d); });
      break;
    }
    case 1:
      no(c, "normalisations", shown, [&] { f.SetNormalisations(some(c.r, otherLength(c.r, n))); });
      break;
    case 2:
      no(c, "buffer", shown, [&] { f.GetBuffer(missing(c.r, obs)); });
      break;
    case 3:
    { // groups that do not exist
      std::string g = c.r.coin() ? "nowhere" : "G";
      BinnedED p = pdf("new");
      if (bb)
        no(c, "group-rate", shown, [&] { f.AddPdf(p, N{"g", g}, 10); });
      else
        no(c, "group", shown, [&] { f.AddPdf(p, N{"g", g}); });
      std::vector<BinnedED> ps{pdf("new"), pdf("newer")};
      std::vector<N> gs{N{"g"}, N{g}};
      std::vector<int> rates{10, 10};
      if (bb)
        no(c, "groups-rates", shown, [&] { f.AddPdfs(ps, gs, rates); });
      else
        no(c, "groups", shown, [&] { f.AddPdfs(ps, gs); });
      break;
    }
    case 4:
    { // lists that do not match
      std::vector<BinnedED> ps{pdf("new"), pdf("newer")};
      size_t w = otherLength(c.r, 2);
      std::vector<N> gs(w, N{"g"}), good(2, N{"g"});
      std::vector<int> rates(w, 10), goodRates(2, 10);
      std::vector<NormFittingStatus> st(w, DIRECT);
      no(c, "rates-length", shown, [&] { f.AddPdfs(ps, rates); });
      no(c, "groups-rates-length", shown, [&] { f.AddPdfs(ps, gs, goodRates); });
      no(c, "groups-rates-length", shown, [&] { f.AddPdfs(ps, good, rates); });
      no(c, "rates-statuses-length", shown, [&] { f.AddPdfs(ps, goodRates, &st); });
      no(c, "all-length", shown, [&] { f.AddPdfs(ps, good, goodRates, &st); });
      if (!bb)
      {
        no(c, "groups-length", shown, [&] { f.AddPdfs(ps, gs); });
        no(c, "statuses-length", shown, [&] { f.AddPdfs(ps, &st); });
        no(c, "groups-statuses-length", shown, [&] { f.AddPdfs(ps, good, &st); });
      }
      break;
    }
    default:
      if (bb)
      { // these have no simulated number
        BinnedED p = pdf("new");
        no(c, "no-rate", shown, [&] { f.AddPdf(p); });
        no(c, "no-rate-group", shown, [&] { f.AddPdf(p, N{"g"}); });
        std::vector<BinnedED> ps{p};
        no(c, "no-rates", shown, [&] { f.AddPdfs(ps); });
        no(c, "no-rates-groups", shown, [&] { f.AddPdfs(ps, std::vector<N>{N{"g"}}); });
      }
      else
      {
        Scale again("s");
        no(c, "systematic-twice", shown, [&] { f.AddSystematic(sc.get()); });
      }
    }
  BinnedNLLH empty;
  no(c, "no-data", [] { return std::string(); }, [&] { empty.Evaluate(); });
}

SCENARIO(parameters, 2)
{
  size_t n = size_t(c.r.ri(1, 8));
  V x = some(c.r, n);
  N names = genNames(c.r, int(n));
  ParameterManager m;
  m.AddContainer(x, names);
  double extra = 3;
  m.AddDouble(extra, "extra");
  auto shown = [&] { return components(m) + str(x) + cat(extra); };
  N all = names;
  all.push_back("extra");
  for (int k = 0; k < 5; ++k)
  {
    std::string q = missing(c.r, all);
    no(c, "get", shown, [&] { m.GetParameter(q); });
    no(c, "set", shown, [&] { m.SetParameter(q, 9); });
    no(c, "rename", shown, [&] { m.RenameParameter(q, "new"); });
    no(c, "rename-taken", shown, [&] { m.RenameParameter(names[0], "extra"); });
    ParameterDict d;
    for (auto &y : all)
      d[y] = c.r.uni(20, 30);
    d.erase(c.r.pick(all));
    if (c.r.coin())
      d[q] = 1;
    no(c, "sets", shown, [&] { m.SetParameters(d); });
    V y = some(c.r, otherLength(c.r, n));
    no(c, "container", shown, [&] { m.AddContainer(y, names); });
  }
  SpectralFitDist a("a", someAxes(c.r, false, 8)), b("b", someAxes(c.r, false, 8));
  a.SetBinContents(genContents(c.r, a.GetNBins()));
  b.SetBinContents(genContents(c.r, b.GetNBins()));
  ComponentManager cm;
  cm.AddComponent(&a);
  cm.AddComponent(&b);
  auto there = [&] { return show(cm.GetParameters()) + show(cm.GetParameterNames()) + cat(cm.GetTotalParameterCount(), cm.GetComponentCount()) + components(a) + components(b); };
  auto ps = cm.GetParameterNames();
  N pn(ps.begin(), ps.end());
  for (int k = 0; k < 3; ++k)
  {
    no(c, "component-get", there, [&] { cm.GetParameter(missing(c.r, pn)); });
    ParameterDict d;
    for (auto &y : pn)
      d[y] = c.r.uni(20, 30);
    d.erase(c.r.pick(pn));
    no(c, "component-sets", there, [&] { cm.SetParameters(d); });
  }
}

SCENARIO(records, 1)
{
  N cuts = genNames(c.r, int(c.r.ri(0, 4)));
  CutLog l(cuts);
  for (long i = c.r.ri(1, 9); i > 0; --i)
    if (cuts.empty() || c.r.coin())
      l.LogPass();
    else
      l.LogCut(size_t(c.r.ri(0, long(cuts.size()) - 1)));
  auto shown = [&]
  {
    l.CalculateMeta();
    return str(l.GetCutCounts()) + str(l.GetRemainderCounts()) + str(l.GetCutPercentages()) + str(l.GetRemainderPercentages()) + str(l.GetCutNames());
  };
  for (int k = 0; k < 3; ++k)
    no(c, "cut", shown, [&] { l.LogCut(beyond(c.r, cuts.size())); });
  FitResult f;
  f.SetBestFit(ParameterDict{{"a", 1.5}});
  auto there = [&] { return show(f.GetBestFit()) + cat(f.GetExtremeVal(), f.GetValid()) + f.AsString().substr(0, 0); };
  no(c, "space", there, [&] { f.GetStatSpace(); });
  ChiSquare chi;
  no(c, "chi-no-data", [] { return std::string(); }, [&] { chi.Evaluate(); });
  check(chi.GetDataSet() == NULL, "chi-no-data-set", "a chi square without a data set has one");
}

// A genuine defect, not repaired because an existing test relies on it (see known-findings.txt)
DIRECTED(set_past_the_end)
{
  AxisCollection ac;
  ac.AddAxis(BinAxis("x", 0, 1, 4));
  Histogram h(ac);
  auto shown = [&] { return show(h); };
  no(c, "set-past-the-end", shown, [&] { h.SetBinContent(4, 1.0); });
}
