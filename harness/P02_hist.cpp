// P02: histogram contents always equal the record of what was put in.
#include "gen.h"
#include "oxv.h"
#include <cfloat>
using namespace oxv;
PLAN("P02", 60000, 1500000,
     "Random 1-4 dimensional histograms and binned distributions driven by random operation histories (10-60 fills, "
     "writes, scalings, paddings, emptyings, bin-wise arithmetic, copies); after every operation all contents are "
     "compared with a plain array that replayed it. Distinct = operation and bin touched in a given shape.")

// same interface for both classes
struct H
{
  static Histogram make(const AxisCollection &a, Case &) { return Histogram(a); }
  static const Histogram &hist(const Histogram &h) { return h; }
  static void become(Histogram &h, const Histogram &n) { h = n; }
};
struct E
{
  static BinnedED make(const AxisCollection &a, Case &)
  {
    BinnedED e("e", a);
    e.SetObservables(a.GetAxisNames());
    return e;
  }
  static const Histogram &hist(const BinnedED &h) { return h.GetHistogram(); }
  static void become(BinnedED &h, const Histogram &n) { h.SetHistogram(n); }
};

template <class M, class T>
static void verify(const T &h, const std::vector<double> &m, double scale, const std::string &op)
{
  nearv(h.GetBinContents(), m, "contents", 1e-10, scale, "after ", op);
  for (size_t i = 0; i < m.size(); ++i)
    check(h.GetBinContent(i) == h.GetBinContents()[i], "single", "bin ", i, " after ", op);
  double s = 0, as = scale;
  for (double x : m)
    s += x, as += std::fabs(x);
  near(h.Integral(), s, "integral", 1e-10, as, "after ", op);
  check(h.GetNBins() == m.size() && M::hist(h).GetNBins() == m.size(), "nbins", "after ", op);
}

template <class M, class T>
static void history(Case &c)
{
  int nd = int(c.r.few(1, 4, 9));
  std::vector<std::string> names = genNames(c.r, nd);
  AxisCollection ac = genAxes(c.r, names, c.r.coin(0.01) ? 3000 : 60);
  std::vector<std::vector<double>> es;
  for (int d = 0; d < nd; ++d)
    es.push_back(edges(ac.GetAxis(d)));
  T h = M::make(ac, c);
  std::vector<double> m(ac.GetNBins(), 0.0);
  verify<M, T>(h, m, 0, "construction");
  double scale = 0; // largest magnitude seen: bounds what cancellation may leave behind
  int steps = int(c.r.few(5, 50, 300, 0.01));
  std::string op;
  LOG << nd << " dims " << m.size() << " bins";
  for (int s = 0; s < steps; ++s)
  {
    int k = int(c.r.ri(0, 17));
    size_t b = c.r.ri(0, m.size() - 1);
    switch (k)
    {
    case 0:
    case 1:
    case 2:
    {
      std::vector<double> v;
      for (int d = 0; d < nd; ++d)
        v.push_back(probeValue(c.r, es[d]));
      double w = c.r.coin(0.3) ? 1 : c.r.value(-2, 5);
      b = modelFind(ac, v);
      op = cat("fill ", str(v), " w ", w);
      if (w == 1 && c.r.coin())
        h.Fill(v);
      else
        h.Fill(v, w);
      m[b] += w;
      break;
    }
    case 3:
    {
      std::map<std::string, double> mv;
      std::vector<double> v;
      for (int d = 0; d < nd; ++d)
      {
        v.push_back(probeValue(c.r, es[d]));
        mv[names[d]] = v.back();
      }
      if (c.r.coin())
        mv["zzz_unrelated"] = 3;
      if (c.r.coin())
        mv["0first"] = 3;
      double w = c.r.value(-2, 5);
      b = modelFind(ac, v);
      op = cat("fill by name ", str(v), " w ", w);
      if constexpr (std::is_same<T, Histogram>::value)
      {
        if (w == 1)
          h.Fill(mv);
        else
          h.Fill(mv, w);
      }
      else
      {
        // an event carrying more observables in another order
        std::vector<std::string> on = names;
        on.push_back("zzz");
        c.r.shuffle(on);
        std::vector<double> od;
        for (auto &n : on)
          od.push_back(n == "zzz" ? -77 : v[pos(names, n)]);
        Event ev = makeEvent(od, &on);
        check(h.FindBin(ev) == b, "event bin", "");
        h.Fill(ev, w);
      }
      m[b] += w;
      break;
    }
    case 4:
      if (nd == 1)
      {
        double v = probeValue(c.r, es[0]), w = c.r.value(-2, 5);
        b = modelFind(ac, {v});
        op = cat("scalar fill ", v, " w ", w);
        h.Fill(v, w);
        m[b] += w;
      }
      else
        op = "none";
      break;
    case 5:
    {
      double v = c.r.value(-5, 20);
      op = cat("set bin ", b, " ", v);
      h.SetBinContent(b, v);
      m[b] = v;
      break;
    }
    case 6:
    {
      double v = c.r.value(-5, 20);
      op = cat("add bin ", b, " ", v);
      h.AddBinContent(b, v);
      m[b] += v;
      break;
    }
    case 7:
    {
      double f = c.r.coin(0.1) ? 0 : c.r.uni(-2, 3), t = std::accumulate(m.begin(), m.end(), 0.0);
      if (c.r.coin(0.2) && std::fabs(t) > 1e-3 * scale) // all but normalised
        f = (1 + c.r.uni(-1, 1) * std::pow(10, c.r.uni(-9, -2))) / t;
      op = cat("scale ", f);
      h.Scale(f);
      for (auto &x : m)
        x *= f;
      scale *= std::fabs(f);
      break;
    }
    case 8:
    {
      double t = 0, at = 0;
      for (double x : m)
        t += x, at += std::fabs(x);
      op = "normalise";
      if (std::fabs(t) > 1e-6 * at && at > 1e-200 && std::fabs(t) > 1e-6 * scale)
      {
        h.Normalise();
        for (auto &x : m)
          x /= t;
        scale /= std::fabs(t);
        near(h.Integral(), 1, "normalised", 1e-9, at / std::fabs(t), "");
      }
      break;
    }
    case 9:
      if (c.r.coin(0.3))
      {
        op = "empty";
        h.Empty();
        for (auto &x : m)
          x = 0;
        scale = 0;
      }
      break;
    case 10:
    {
      double p = c.r.coin(0.3) ? DBL_MIN : c.r.uni(1e-6, 2);
      op = cat("pad ", p);
      bool exact = true; // contents that are zero only up to rounding are not comparable
      for (size_t i = 0; i < m.size(); ++i)
        exact = exact && ((m[i] == 0) == (h.GetBinContent(i) == 0));
      if (exact)
      {
        if (p == DBL_MIN)
          h.AddPadding();
        else
          h.AddPadding(p);
        for (auto &x : m)
          if (x == 0)
            x = p;
      }
      break;
    }
    case 11:
    case 12:
    case 13:
    {
      T o = M::make(ac, c);
      bool selfOp = c.r.coin(0.1);
      std::vector<double> oc = genContents(c.r, m.size(), k == 13);
      if (k != 13 && c.r.coin(0.3))
        for (auto &x : oc)
          x = -x;
      o.SetBinContents(oc);
      if (selfOp)
        for (double x : m)
          selfOp = selfOp && x != 0;
      if (selfOp && k == 13 && scale > 0)
        selfOp = false;
      HistSnap snap(M::hist(o));
      if (k == 11)
      {
        double w = c.r.coin(0.3) ? 1 : c.r.uni(-2, 2);
        op = cat("add x", w, selfOp ? " self" : "");
        if (selfOp)
          h.Add(h, w);
        else if (w == 1 && c.r.coin())
          h.Add(o);
        else
          h.Add(o, w);
        for (size_t i = 0; i < m.size(); ++i)
          m[i] += (selfOp ? m[i] : oc[i]) * w;
      }
      else if (k == 12)
      {
        op = cat("multiply", selfOp ? " self" : "");
        double big = 0;
        for (double x : oc)
          big = std::max(big, std::fabs(x));
        if (selfOp)
          h.Multiply(h);
        else
          h.Multiply(o);
        for (size_t i = 0; i < m.size(); ++i)
          m[i] *= selfOp ? m[i] : oc[i];
        scale *= selfOp ? scale + 1 : big;
      }
      else
      {
        op = cat("divide", selfOp ? " self" : "");
        double small = 1e300;
        for (double x : oc)
          small = std::min(small, std::fabs(x));
        if (selfOp)
          h.Divide(h);
        else
          h.Divide(o);
        for (size_t i = 0; i < m.size(); ++i)
          m[i] /= selfOp ? m[i] : oc[i];
        scale /= selfOp ? 1 : small;
      }
      snap.same(M::hist(o), "operand", op);
      break;
    }
    case 14:
    {
      std::vector<double> v = genContents(c.r, m.size());
      op = "set contents";
      h.SetBinContents(v);
      m = v;
      break;
    }
    case 16:
    case 17:
    { // other bins, as many of them: the contents stay, or come with the new bins
      AxisCollection other;
      for (int d = 0; d < nd; ++d)
      {
        double lo = c.r.uni(-20, 20);
        other.AddAxis(BinAxis(names[size_t(d)], lo, lo + c.r.uni(0.5, 30), ac.GetAxis(size_t(d)).GetNBins()));
      }
      if (k == 16)
      {
        op = "other axes";
        h.SetAxes(other);
      }
      else
      {
        op = "set histogram";
        Histogram n(other);
        m = genContents(c.r, m.size());
        n.SetBinContents(m);
        M::become(h, n);
        n.Scale(3);
      }
      check(M::hist(h).GetAxes() == other, "axes", "after ", op);
      ac = other;
      es.clear();
      for (int d = 0; d < nd; ++d)
        es.push_back(edges(ac.GetAxis(size_t(d))));
      break;
    }
    case 15:
    {
      op = "copy";
      T t(h);
      T u = M::make(genAxes(c.r, genNames(c.r, 1), 5), c);
      u = t;
      h.Scale(7);
      verify<M, T>(u, m, scale, "copy, original scaled");
      h = u;
      u.Empty();
      t.Empty();
      break;
    }
    }
    LOG << op;
    double mx = 0;
    for (double x : m)
      mx = std::max(mx, std::fabs(x));
    scale = std::max(scale, mx);
    if (scale > 1e100 || (scale < 1e-100 && scale > 0))
    {
      h.Empty();
      m.assign(m.size(), 0.0);
      scale = 0;
      op = "reset";
    }
    verify<M, T>(h, m, scale, op);
    c.count("operations");
    c.sig(cat(k, "/", b, "/", m.size(), "/", nd));
  }
  // moments of a normalised histogram, which may have negative bins
  std::vector<double> p = genContents(c.r, m.size(), true);
  double tot = std::accumulate(p.begin(), p.end(), 0.0);
  if (c.r.coin(0.4))
    for (auto &x : p)
      if (c.r.coin(0.4) && tot - 2 * x > 0.3 * std::accumulate(p.begin(), p.end(), 0.0, [](double s, double y) { return s + std::fabs(y); }))
      {
        tot -= 2 * x;
        x = -x;
      }
  tot = std::accumulate(p.begin(), p.end(), 0.0);
  h.SetBinContents(p);
  h.Normalise();
  Dims dm = dims(ac);
  for (int d = 0; d < nd; ++d)
  {
    double mean = 0, var = 0, big = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
      double x = ac.GetAxis(d).GetBinCentre(dm.unpack(i)[d]);
      mean += p[i] / tot * x;
      big = std::max(big, std::fabs(x));
    }
    for (size_t i = 0; i < p.size(); ++i)
    {
      double x = ac.GetAxis(d).GetBinCentre(dm.unpack(i)[d]);
      var += p[i] / tot * (x - mean) * (x - mean);
    }
    check(h.Means().size() == size_t(nd) && h.Variances().size() == size_t(nd), "moments size", "");
    near(h.Means()[d], mean, "mean", 1e-9, big, "axis ", d);
    near(h.Variances()[d], var, "variance", 1e-9, big * big, "axis ", d);
  }
}

// bins without content in the divisor
template <class M, class T>
static void divideByNothing(Case &c)
{
  AxisCollection ac = genAxes(c.r, genNames(c.r, int(c.r.ri(1, 3))), 30);
  T h = M::make(ac, c), o = M::make(ac, c);
  std::vector<double> m = genContents(c.r, ac.GetNBins()), q = genContents(c.r, ac.GetNBins(), true);
  for (size_t i = 0; i < m.size(); ++i)
  {
    if (c.r.coin(0.2))
      m[i] = -m[i];
    if (c.r.coin(0.3))
      m[i] = 0;
    if (c.r.coin(0.4))
      q[i] = c.r.coin() ? 0 : -0.0;
  }
  h.SetBinContents(m);
  o.SetBinContents(q);
  h.Divide(o);
  for (size_t i = 0; i < m.size(); ++i)
  {
    double got = h.GetBinContent(i);
    if (q[i])
      near(got, m[i] / q[i], "quotient", 1e-12, 0, "bin ", i);
    else
      check(m[i] ? std::isinf(got) && std::signbit(got) == std::signbit(m[i] / q[i]) : std::isnan(got), "divided by nothing", m[i], " / ", q[i], " = ", got);
  }
  check(o.GetBinContents() == q, "operand", "changed by dividing");
  c.sig(cat("zero", m.size()));
}
SCENARIO(nothing, 1)
{
  if (c.r.coin())
    divideByNothing<H, Histogram>(c);
  else
    divideByNothing<E, BinnedED>(c);
}

SCENARIO(histogram, 3) { history<H, Histogram>(c); }
SCENARIO(distribution, 2) { history<E, BinnedED>(c); }

// bounded integral: bins from the one holding min to the one holding max
SCENARIO(bounded, 2)
{
  AxisCollection ac = genAxes(c.r, {"x"}, 40);
  Histogram h = genHist(c.r, ac);
  std::vector<double> e = edges(ac.GetAxis(0)), v = h.GetBinContents();
  double all = std::accumulate(v.begin(), v.end(), 0.0);
  for (int k = 0; k < 20; ++k)
  {
    double a = probeValue(c.r, e), b = probeValue(c.r, e);
    if (c.r.coin(0.05))
      b = a;
    double want = 0;
    if (b > a)
      for (size_t i = modelFind(e, a); i <= modelFind(e, b); ++i)
        want += v[i];
    near(h.Integral(a, b), want, "bounded", 1e-10, all, a, " to ", b, " edges ", str(e));
    c.count("bounded integrals");
    c.sig(cat(modelFind(e, a), ":", modelFind(e, b), ":", e.size(), a < b));
  }
  near(h.Integral(-1e9, 1e9), all, "bounded all", 1e-10, all, "");
}

// default construction, then axes
SCENARIO(lateaxes, 1)
{
  Histogram h;
  check(h.GetNBins() == 0 && h.GetNDims() == 0 && h.Integral() == 0, "default", "");
  AxisCollection ac = genAxes(c.r, genNames(c.r, int(c.r.ri(1, 3))), 40);
  h.SetAxes(ac);
  check(h.GetNBins() == ac.GetNBins() && h.GetNDims() == ac.GetNDimensions() && h.GetAxes() == ac, "axes", "");
  nearv(h.GetBinContents(), std::vector<double>(ac.GetNBins(), 0.0), "zero", 0, 0, "");
  for (size_t i = 0; i < ac.GetNDimensions(); ++i)
    check(h.GetAxisNames() == ac.GetAxisNames() && h.GetAxisIndex(ac.GetAxisNames()[i]) == i, "names", i);
  c.sig(ac.GetNBins());
}
