// P19: the constraint penalty is the sum of each declared constraint's formula.
#include "gen.h"
#include <BinnedNLLH.h>
#include <ConstraintManager.h>
#include <Exceptions.h>
#include <StatisticSum.h>
using namespace oxv;
PLAN("P19", 240000, 6000000,
     "Random histories of declaring, re-declaring and refusing constraints of every kind over 1..6 parameters, directly or "
     "through a test statistic, on the manager and on copies, with the penalty evaluated at points that include means, "
     "zeros and surplus names; compared with independent formulas and an independent multilinear interpolation. "
     "Distinct = (sequence of declarations).")

namespace
{
struct Interp
{
  std::vector<std::string> names;
  AxisCollection axes;
  Histogram h;
  // NaN: outside, to be refused; otherwise the value
  double value(const ParameterDict &p, size_t dim, std::vector<size_t> ix, bool &edge, bool &out) const
  {
    if (dim == names.size())
      return h.GetBinContent(h.FlattenIndices(ix));
    const BinAxis &a = axes.GetAxis(dim);
    double x = p.at(names[dim]);
    std::vector<double> ctr;
    for (size_t b = 0; b < a.GetNBins(); ++b)
      ctr.push_back((a.GetBinLowEdge(b) + a.GetBinHighEdge(b)) / 2);
    double eps = 1e-9 * (ctr.back() - ctr.front() + 1);
    if (std::fabs(x - ctr.front()) < eps || std::fabs(x - ctr.back()) < eps || ctr.size() < 2)
      edge = true;
    if (x < ctr.front() || x >= ctr.back())
    {
      out = true;
      return 0;
    }
    size_t k = 0;
    while (k + 2 < ctr.size() && ctr[k + 1] <= x)
      ++k;
    double t = (x - ctr[k]) / (ctr[k + 1] - ctr[k]);
    ix.push_back(k);
    double lo = value(p, dim + 1, ix, edge, out);
    ix.back() = k + 1;
    double hi = value(p, dim + 1, ix, edge, out);
    return lo * (1 - t) + hi * t;
  }
};

struct Con
{
  int type; // 0 quadratic 1 asymmetric 2 pair 3 ratio 4 fraction 5 function
  double m, s, m2, s2, rho;
  int form;
};
static double func(int form, const std::string &p, const std::string &q, const ParameterDict &d)
{
  return form == 0 ? 2 * d.at(p) + d.at(q) : form == 1 ? d.at(p) * d.at(q) : d.at(p) * d.at(p) - 3;
}
struct Model
{
  std::map<std::string, Con> ind;
  std::map<std::pair<std::string, std::string>, Con> pair, ratio, frac, shape;
  std::map<std::string, Interp> interp;
  bool usedAlone(const std::string &p) const { return ind.count(p); }
  bool usedInPair(const std::string &p) const
  {
    for (auto &k : pair)
      if (k.first.first == p || k.first.second == p)
        return true;
    return false;
  }
  double value(const ParameterDict &d, double &scale, bool &edge, bool &out) const
  {
    double t = 0;
    scale = 1e-9;
    auto add = [&](double v) {
      t += v;
      scale += std::fabs(v);
    };
    for (auto &k : ind)
    {
      double x = d.at(k.first) - k.second.m, w = k.second.type == 1 && x < 0 ? k.second.s2 : k.second.s;
      add(x / w * x / w / 2);
    }
    for (auto &k : pair)
    {
      // through the inverse covariance matrix
      const Con &q = k.second;
      double a = q.s * q.s, b = q.rho * q.s * q.s2, e = q.s2 * q.s2, det = a * e - b * b;
      double x = d.at(k.first.first) - q.m, y = d.at(k.first.second) - q.m2;
      add((e * x * x - 2 * b * x * y + a * y * y) / det / 2);
      scale += (e * x * x + a * y * y) / det;
    }
    for (auto &k : ratio)
    {
      double y = d.at(k.first.second);
      if (std::fabs(y) < 1e-8)
        y = 1e-8;
      double z = (d.at(k.first.first) / y - k.second.m) / k.second.s;
      add(z * z / 2);
      scale += (std::fabs(d.at(k.first.first) / y) + std::fabs(k.second.m)) * std::fabs(z) / k.second.s;
    }
    for (auto &k : frac)
    {
      double x = d.at(k.first.first), y = d.at(k.first.second);
      double z = ((x - y) / (x + y) - k.second.m) / k.second.s;
      add(z * z / 2);
      scale += (std::fabs((std::fabs(x) + std::fabs(y)) / (x + y)) + 1) * std::fabs(z) / k.second.s;
    }
    for (auto &k : shape)
    {
      double z = (func(k.second.form, k.first.first, k.first.second, d) - k.second.m) / k.second.s;
      add(z * z / 2);
      scale += std::fabs(z) * (std::fabs(func(k.second.form, k.first.first, k.first.second, d)) + std::fabs(k.second.m)) / k.second.s;
    }
    for (auto &k : interp)
      add(k.second.value(d, 0, {}, edge, out));
    return t;
  }
};
struct Stat : public TestStatistic
{
  ParameterDict p;
  double Evaluate() override { return GetConstraintManager().Evaluate(p); }
  void RegisterFitComponents() override {}
};
} // namespace

SCENARIO(histories, 1)
{
  std::vector<std::string> ps = genNames(c.r, int(c.r.few(1, 6, 30, 0.02)), "p_");
  std::map<std::string, AxisCollection> lattice; // the range of each parameter when interpolated
  ConstraintManager direct;
  Stat stat;
  bool viaStat = c.r.coin(0.4);
  ConstraintManager &cm = viaStat ? stat.GetConstraintManager() : direct;
  ConstraintManager copy;
  Model m, mcopy;
  bool copied = false;
  std::string how;
  auto evaluate = [&](const ConstraintManager &man, const Model &mod, bool through) {
    ParameterDict d;
    for (auto &p : ps)
      d[p] = c.r.coin(0.9) ? c.r.value(-6, 6) : (c.r.coin() ? 1 : -1) * std::pow(10, c.r.uni(-9, 6));
    for (auto &k : mod.ind)
      if (c.r.coin(0.3))
        d[k.first] = k.second.m + (c.r.coin() ? 0 : c.r.uni(-1e-3, 1e-3));
    for (auto &k : mod.interp)
      for (size_t i = 0; i < k.second.names.size(); ++i)
      {
        const BinAxis &a = k.second.axes.GetAxis(i);
        double lo = (a.GetBinLowEdge(0) + a.GetBinHighEdge(0)) / 2;
        size_t z = a.GetNBins() - 1;
        double hi = (a.GetBinLowEdge(z) + a.GetBinHighEdge(z)) / 2;
        if (c.r.coin(0.95))
          d[k.second.names[i]] = lo + (hi - lo) * c.r.uni(0.0001, 0.9999);
        else if (c.r.coin())
          d[k.second.names[i]] = probeValue(c.r, edges(a));
      }
    bool skip = false;
    for (auto &k : mod.frac)
    {
      double x = d.at(k.first.first), y = d.at(k.first.second);
      if (std::fabs(x + y) < 1e-6)
        skip = true;
    }
    if (skip)
      return;
    double scale;
    bool edge = false, out = false;
    double want = mod.value(d, scale, edge, out);
    ParameterDict e = d;
    if (c.r.coin(0.3))
      e["unrelated"] = 1e9;
    if (through)
      stat.p = e;
    std::string at;
    for (auto &x : d)
      at += cat(x.first, "=", x.second, " ");
    if (edge || out)
    { // on or outside the lattice: refused, or on its edge the value
      double v = 0;
      bool ok = false;
      try
      {
        v = through ? stat.Evaluate() : man.Evaluate(e);
        ok = true;
      }
      catch (const std::exception &)
      {
      }
      if (!edge)
        check(!ok, "outside the lattice", "answered ", v, " at ", at);
      c.count("outside the lattice");
      return;
    }
    double v = through ? stat.Evaluate() : man.Evaluate(e);
    near(v, want, "value", 1e-9, scale, "at ", at);
    c.count("evaluations");
    // a constrained parameter that is not there
    if (c.r.coin(0.1) && m.ind.size() && !through)
    {
      ParameterDict less = e;
      if (mod.ind.size())
      {
        less.erase(mod.ind.begin()->first);
        bool threw = false;
        try
        {
          man.Evaluate(less);
        }
        catch (const std::exception &)
        {
          threw = true;
        }
        check(threw, "missing parameter", mod.ind.begin()->first);
      }
    }
  };
  for (int step = 0, n = int(c.r.few(1, 14, 80, 0.02)); step < n; ++step)
  {
    int op = int(c.r.ri(0, 8));
    std::string p = c.r.pick(ps), q = c.r.pick(ps);
    Con k{op, c.r.value(-4, 4), c.r.uni(0.1, 4), c.r.value(-4, 4), c.r.uni(0.1, 4), c.r.uni(-0.95, 0.95), int(c.r.ri(0, 2))};
    if (c.r.coin(0.2))
      k.s2 = k.s;
    if (c.r.coin(0.1))
      k.m2 = k.m;
    if (c.r.coin(0.15))
      k.rho = c.r.pick<double>({0, 0.999, -0.999, 0.5, -0.5});
    if (c.r.coin(0.1))
      k.s *= c.r.coin() ? 1e-3 : 1e3;
    if (c.r.coin(0.1))
      k.s2 *= c.r.coin() ? 1e-3 : 1e3;
    if (c.r.coin(0.05))
      k.rho = (c.r.coin() ? 1 : -1) * (1 - std::pow(10, c.r.uni(-6, -1)));
    how += cat(op, p, q, " ");
    LOG << "op " << op << " " << p << " " << q << " m " << k.m << " s " << k.s << " m2 " << k.m2 << " s2 " << k.s2 << " rho " << k.rho
        << " form " << k.form;
    switch (op)
    {
    case 0:
    case 1:
      if (m.usedInPair(p))
      {
        if (op == 0)
          REFUSED("alone and in a pair", cm.SetConstraint(p, k.m, k.s));
        else
          REFUSED("alone and in a pair", cm.SetConstraint(p, k.m, k.s, k.s2));
        break;
      }
      if (op == 0)
      {
        if (viaStat)
          stat.SetConstraint(p, k.m, k.s);
        else
          cm.SetConstraint(p, k.m, k.s);
      }
      else if (viaStat)
        stat.SetConstraint(p, k.m, k.s2, k.s);
      else
        cm.SetConstraint(p, k.m, k.s, k.s2);
      m.ind[p] = k;
      break;
    case 2:
    {
      if (p == q)
        break;
      bool same = m.pair.count({p, q});
      bool clash = m.usedAlone(p) || m.usedAlone(q) || m.usedInPair(p) || m.usedInPair(q);
      if (!clash || same)
        if (c.r.coin(0.2))
        {
          double bad = c.r.coin() ? c.r.uni(1, 3) * (c.r.coin() ? 1 : -1) : c.r.coin() ? 1 : -1;
          REFUSED("correlation", cm.SetConstraint(p, k.m, k.s, q, k.m2, k.s2, bad));
          break;
        }
      if (clash && !same)
      {
        REFUSED("pair clashes", cm.SetConstraint(p, k.m, k.s, q, k.m2, k.s2, k.rho));
        break;
      }
      if (viaStat)
        stat.SetConstraint(p, k.m, k.s, q, k.m2, k.s2, k.rho);
      else
        cm.SetConstraint(p, k.m, k.s, q, k.m2, k.s2, k.rho);
      m.pair[{p, q}] = k;
      break;
    }
    case 3:
      if (viaStat)
        stat.SetConstraint(p, q, k.m, k.s);
      else
        cm.SetConstraint(p, q, k.m, k.s);
      m.ratio[{p, q}] = k;
      break;
    case 4:
      if (p == q)
        break;
      cm.SetFracConstraint(p, q, k.m, k.s);
      m.frac[{p, q}] = k;
      break;
    case 5:
    {
      ParameterDict key;
      key[p] = 1;
      key[q] = 2;
      std::string a = p, b = q;
      int form = k.form;
      if (p != q && m.shape.count({q, p}))
        break; // the key would be told apart by its values only
      ShapeFunc f = [=](const ParameterDict &d) { return func(form, a, b, d); };
      if (viaStat)
        stat.SetConstraint(key, f, k.m, k.s);
      else
        cm.SetConstraint(key, f, k.m, k.s);
      m.shape[{p, q}] = k;
      break;
    }
    case 6:
    {
      Interp in;
      in.names = subset(c.r, ps, size_t(c.r.ri(1, std::min<long>(c.r.coin(0.1) ? 6 : 3, long(ps.size())))));
      for (auto &nm : in.names)
        in.axes.AddAxis(genAxis(c.r, nm, int(c.r.ri(2, in.names.size() > 3 ? 3 : 5))));
      in.h = Histogram(in.axes);
      std::vector<double> v(in.axes.GetNBins());
      for (auto &x : v)
        x = c.r.value(-3, 10);
      in.h.SetBinContents(v);
      std::string label = c.r.coin() ? "shape" : "other shape";
      if (viaStat)
        stat.SetConstraint(label, in.h);
      else
        cm.SetConstraint(label, in.h);
      m.interp[label] = in;
      break;
    }
    case 7:
      copy = cm;
      mcopy = m;
      copied = true;
      break;
    default:
      break;
    }
    if (c.r.coin())
      evaluate(cm, m, viaStat);
    if (copied && c.r.coin(0.4))
      evaluate(copy, mcopy, false);
  }
  c.sig(how);
  evaluate(cm, m, viaStat);
  if (copied)
    evaluate(copy, mcopy, false);
}

// the penalty is part of the likelihoods and sums it is declared on, once
DIRECTED(in_statistics)
{
  AxisCollection ax;
  ax.AddAxis(BinAxis("x", 0, 2, 2));
  BinnedED d("d", ax), data("data", ax);
  d.SetBinContents({0.5, 0.5});
  d.SetObservables({"x"});
  data.SetObservables({"x"});
  data.SetBinContents({1, 3});
  BinnedNLLH s, t;
  for (BinnedNLLH *p : {&s, &t})
  {
    p->AddPdf(d);
    p->SetDataDist(data);
    p->RegisterFitComponents();
  }
  ParameterDict p;
  p["d"] = 4;
  s.SetParameters(p);
  double v = s.Evaluate();
  s.SetConstraint("d", 2, 1);
  near(s.Evaluate(), v + 2, "in a likelihood", 1e-12, 1);
  s.SetConstraint("d", 2, 2);
  near(s.Evaluate(), v + 0.5, "replaced", 1e-12, 1);
  StatisticSum u = s + t;
  u.SetParameters(p);
  near(u.Evaluate(), 2 * v + 0.5, "in a sum", 1e-12, 1);
  u.SetConstraint("d", 1, 3, 1); // below and above the mean
  near(u.Evaluate(), 2 * v + 0.5 + 4.5, "of a sum", 1e-12, 1);
  p["d"] = 0.5;
  u.SetParameters(p);
  near(u.Evaluate(), 2 * (0.5 - 4 * std::log(0.25)) + 1.5 * 1.5 / 8 + 0.25 / 18, "below the mean", 1e-12, 1);
}
