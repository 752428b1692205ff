// Plain models of systematics: dense response matrices from edges, observables and parameters alone.
#ifndef OXV_SYSMODEL_H
#define OXV_SYSMODEL_H
#include "gen.h"
#include <ConditionalPDF.h>
#include <Convolution.h>
#include <PDF.h>
#include <Renorm.h>
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Shift.h>

namespace oxv
{
typedef std::vector<std::vector<double>> Mat; // [dest][source]
inline Mat zeros(size_t n) { return Mat(n, std::vector<double>(n, 0)); }

inline std::vector<double> mulv(const Mat &m, const std::vector<double> &x)
{
  std::vector<double> y(m.size(), 0);
  for (size_t i = 0; i < m.size(); ++i)
    for (size_t j = 0; j < x.size(); ++j)
      y[i] += m[i][j] * x[j];
  return y;
}
inline double sum(const std::vector<double> &v) { return std::accumulate(v.begin(), v.end(), 0.0); }

// fraction of [lo, hi) of a bin moved by f that overlaps each bin of the axis
template <class F>
std::vector<std::vector<double>> overlap(const std::vector<double> &e, F f)
{
  size_t n = e.size() - 1;
  std::vector<std::vector<double>> o(n, std::vector<double>(n, 0)); // [dest][source]
  for (size_t s = 0; s < n; ++s)
  {
    double a = f(e[s]), b = f(e[s + 1]);
    if (a > b)
      std::swap(a, b);
    for (size_t d = 0; d < n; ++d)
      o[d][s] = std::max(0.0, std::min(b, e[d + 1]) - std::max(a, e[d])) / (b - a);
  }
  return o;
}

// expand a response along some axes (positions in the axes, the sub-matrix is indexed in that order) to all bins
inline Mat expand(const Dims &d, const std::vector<size_t> &axes, const std::function<double(const std::vector<size_t> &, const std::vector<size_t> &)> &sub)
{
  Mat m = zeros(d.total());
  for (size_t s = 0; s < d.total(); ++s)
    for (size_t t = 0; t < d.total(); ++t)
    {
      std::vector<size_t> is = d.unpack(s), it = d.unpack(t), ss, tt;
      bool same = true;
      for (size_t k = 0; k < is.size(); ++k)
        if (std::find(axes.begin(), axes.end(), k) == axes.end() && is[k] != it[k])
          same = false;
      if (!same)
        continue;
      for (size_t a : axes)
        ss.push_back(is[a]), tt.push_back(it[a]);
      m[t][s] = sub(tt, ss);
    }
  return m;
}

inline Mat denseOf(const SparseMatrix &s)
{
  Mat m = zeros(s.GetNRows());
  for (size_t i = 0; i < s.GetNRows(); ++i)
    for (size_t j = 0; j < s.GetNCols(); ++j)
      m[i][j] = s.GetComponent(i, j);
  return m;
}

inline void sameMat(const SparseMatrix &got, const Mat &want, const std::string &key, const std::string &what, double rel = 1e-9)
{
  check(got.GetNRows() == want.size() && got.GetNCols() == want.size(), key, what, ": response is ", got.GetNRows(), "x",
        got.GetNCols(), " for ", want.size(), " bins");
  for (size_t i = 0; i < want.size(); ++i)
    for (size_t j = 0; j < want.size(); ++j)
      near(got.GetComponent(i, j), want[i][j], key, rel, 1, what, ": response element (", i, ",", j, ")");
}

// ---- kernels with closed-form integrals ----------------------------------------------------------------------
// cumulative of an asymmetric two-sided exponential at x: displaced by m, width w to the right and w/2 to the left
inline double kernelCdf(double x, double m, double w)
{
  double z = x - m, l = w / 2, p = l / (l + w);
  return z < 0 ? p * std::exp(z / l) : 1 - (1 - p) * std::exp(-z / w);
}
inline double kernelBox(const std::vector<double> &lo, const std::vector<double> &hi, const std::vector<double> &m,
                        const std::vector<double> &w)
{
  double p = 1;
  for (size_t i = 0; i < lo.size(); ++i)
    p *= kernelCdf(hi[i], m[i], w[i]) - kernelCdf(lo[i], m[i], w[i]);
  return p;
}

// parameter bookkeeping of a kernel: mean_i and width_i in named slots
struct KernelPars
{
  std::vector<std::string> names; // m0,w0,m1,w1..
  std::vector<double> v;
  explicit KernelPars(size_t n = 1)
  {
    for (size_t i = 0; i < n; ++i)
      names.push_back(cat("m", i)), names.push_back(cat("w", i)), v.push_back(0.1 * i), v.push_back(0.5 + i);
  }
  size_t at(const std::string &n) const
  {
    size_t i = pos(names, n);
    if (i == names.size())
      throw ParameterError("kernel: no parameter " + n);
    return i;
  }
  std::vector<double> means() const
  {
    std::vector<double> o;
    for (size_t i = 0; i < v.size(); i += 2)
      o.push_back(v[i]);
    return o;
  }
  std::vector<double> widths() const
  {
    std::vector<double> o;
    for (size_t i = 1; i < v.size(); i += 2)
      o.push_back(v[i]);
    return o;
  }
};

#define OXV_KERNEL_PARS                                                                       \
  KernelPars p;                                                                               \
  std::string fName;                                                                          \
  void SetParameter(const std::string &n, double x) { p.v[p.at(n)] = x; }                     \
  double GetParameter(const std::string &n) const { return p.v[p.at(n)]; }                    \
  void SetParameters(const ParameterDict &d)                                                  \
  {                                                                                           \
    for (auto &n : p.names)                                                                   \
      if (!d.count(n))                                                                        \
        throw ParameterError("kernel: missing " + n);                                         \
    for (size_t i = 0; i < p.names.size(); ++i)                                               \
      p.v[i] = d.at(p.names[i]);                                                              \
  }                                                                                           \
  ParameterDict GetParameters() const                                                         \
  {                                                                                           \
    ParameterDict d;                                                                          \
    for (size_t i = 0; i < p.names.size(); ++i)                                               \
      d[p.names[i]] = p.v[i];                                                                 \
    return d;                                                                                 \
  }                                                                                           \
  size_t GetParameterCount() const { return p.names.size(); }                                 \
  std::set<std::string> GetParameterNames() const { return std::set<std::string>(p.names.begin(), p.names.end()); } \
  void RenameParameter(const std::string &a, const std::string &b) { p.names[p.at(a)] = b; }  \
  std::string GetName() const { return fName; }                                               \
  void SetName(const std::string &n) { fName = n; }

struct KernelPDF : public PDF
{
  OXV_KERNEL_PARS
  size_t n;
  explicit KernelPDF(size_t n_) : p(n_), fName("kernel"), n(n_) {}
  Function *Clone() const { return new KernelPDF(*this); }
  double operator()(const std::vector<double> &) const { return 0; }
  size_t GetNDims() const { return n; }
  double Integral(const std::vector<double> &lo, const std::vector<double> &hi) const
  {
    return kernelBox(lo, hi, p.means(), p.widths());
  }
  std::vector<double> Sample() const { return p.means(); }
};

// width grows with the conditioning point, differently per dimension
struct KernelCond : public ConditionalPDF
{
  OXV_KERNEL_PARS
  size_t n;
  explicit KernelCond(size_t n_) : p(n_), fName("cond"), n(n_) {}
  ConditionalPDF *Clone() const { return new KernelCond(*this); }
  double ConditionalProbability(const std::vector<double> &, const std::vector<double> &) { return 0; }
  static double box(const KernelPars &p, const std::vector<double> &lo, const std::vector<double> &hi, const std::vector<double> &x)
  {
    std::vector<double> m = p.means(), w = p.widths();
    for (size_t i = 0; i < m.size(); ++i)
      m[i] += x[i] * (1 + 0.1 * i), w[i] *= 1 + 0.1 * std::fabs(x[i]);
    return kernelBox(lo, hi, m, w);
  }
  double Integral(const std::vector<double> &lo, const std::vector<double> &hi, const std::vector<double> &x) const
  {
    return box(p, lo, hi, x);
  }
  std::vector<double> Sample(const std::vector<double> &x) const { return x; }
};

// ---- one systematic with its model ---------------------------------------------------------------------------
enum Kind { kScale, kShift, kScaleFunc, kConv, kCond, kShape, kRenorm, kNKinds };
inline const char *kindName(int k)
{
  static const char *n[] = {"scale", "shift", "scalefunction", "convolution", "conditional", "shape", "renorm"};
  return n[k];
}

// the scale functions: parameters a, b; increasing or decreasing on every axis the generator makes
inline double scaleFn(int form, double a, double b, double x)
{
  switch (form)
  {
  case 0:
    return a + b * x;
  case 1:
    return a + b * (x + 0.3 * std::sin(x));
  case 2:
    return a + b * x * std::fabs(x) * 0.1 + b * x;
  default:
    return a - b * x;
  }
}
inline double shapeFn(int form, double a, double b, const std::vector<double> &x)
{
  double s = a * a + 0.1;
  for (size_t i = 0; i < x.size(); ++i)
    s += form == 0 ? std::fabs(b * x[i]) * (i + 1) : 0.5 + 0.5 * std::sin(b * x[i] / (1 + std::fabs(x[i]) / 50) + i);
  return s;
}

struct SysModel
{
  int kind = 0, form = 0;
  std::string name;
  std::vector<std::string> dist, trans;
  AxisCollection axes;
  KernelPars k;        // kernel parameters
  double a = 1, b = 0; // the others' parameters
  std::string pre;     // prefix of all parameter names

  Mat response() const
  {
    Dims d = dims(axes);
    std::vector<size_t> ax;
    for (auto &t : trans)
      ax.push_back(pos(dist, t));
    std::vector<std::vector<double>> e;
    for (size_t x : ax)
      e.push_back(edges(axes.GetAxis(x)));
    if (kind <= kScaleFunc)
    {
      auto o = overlap(e[0], [&](double x) { return kind == kScale ? x * a : kind == kShift ? x + a : scaleFn(form, a, b, x); });
      return expand(d, ax, [&](const std::vector<size_t> &t, const std::vector<size_t> &s) { return o[t[0]][s[0]]; });
    }
    if (kind == kConv || kind == kCond)
      return expand(d, ax, [&](const std::vector<size_t> &t, const std::vector<size_t> &s) {
        std::vector<double> lo, hi, x;
        for (size_t i = 0; i < ax.size(); ++i)
        {
          double c = (e[i][s[i]] + e[i][s[i] + 1]) / 2;
          x.push_back(c);
          lo.push_back(e[i][t[i]] - (kind == kConv ? c : 0));
          hi.push_back(e[i][t[i] + 1] - (kind == kConv ? c : 0));
        }
        return kind == kConv ? kernelBox(lo, hi, k.means(), k.widths()) : KernelCond::box(k, lo, hi, x);
      });
    Mat m = zeros(d.total());
    for (size_t i = 0; i < d.total(); ++i)
    {
      std::vector<size_t> ix = d.unpack(i);
      std::vector<double> x;
      for (size_t q = 0; q < ax.size(); ++q)
        x.push_back((e[q][ix[ax[q]]] + e[q][ix[ax[q]] + 1]) / 2);
      m[i][i] = kind == kRenorm ? a : shapeFn(form, a, b, x);
    }
    return m;
  }
  std::string describe() const
  {
    std::string s = cat(kindName(kind), " form ", form, " dist ", str(dist), " trans ", str(trans), " a=", a, " b=", b);
    if (kind == kConv || kind == kCond)
      s += cat(" kernel ", str(k.v));
    s += " edges";
    for (size_t i = 0; i < axes.GetNDimensions(); ++i)
      s += " " + str(edges(axes.GetAxis(i)));
    return s;
  }
};

inline Systematic *makeSystematic(int kind, const std::string &n)
{
  switch (kind)
  {
  case kScale:
    return new Scale(n);
  case kShift:
    return new Shift(n);
  case kScaleFunc:
    return new ScaleFunction(n);
  case kConv:
  case kCond:
    return new Convolution(n);
  case kShape:
    return new Shape(n);
  default:
    return new Renorm(n);
  }
}

// choose the function/kernel
inline void chooseFunction(Case &c, SysModel &m)
{
  m.form = int(c.r.ri(0, 3));
  if (m.kind == kShape)
    m.form %= 2;
  if (m.kind == kScaleFunc || m.kind == kShape)
    m.a = m.b = 0;
  if (m.kind == kConv || m.kind == kCond)
  {
    m.k = KernelPars(m.trans.size());
    for (size_t i = 1; i < m.k.v.size(); i += 2)
      m.k.v[i] = c.r.uni(0.1, 3);
    for (auto &n : m.k.names)
      n = m.pre + n;
  }
}
inline void applyFunction(Systematic *s, const SysModel &m)
{
  int form = m.form;
  std::string pa = m.pre + "a", pb = m.pre + "b";
  if (m.kind == kScaleFunc)
    static_cast<ScaleFunction *>(s)->SetScaleFunction(
        [form, pa, pb](const ParameterDict &p, const double &x) { return scaleFn(form, p.at(pa), p.at(pb), x); }, {pa, pb});
  else if (m.kind == kShape)
    static_cast<Shape *>(s)->SetShapeFunction(
        [form, pa, pb](const ParameterDict &p, const std::vector<double> &x) { return shapeFn(form, p.at(pa), p.at(pb), x); }, {pa, pb});
  else if (m.kind == kConv)
  {
    KernelPDF k(m.trans.size());
    k.p = m.k;
    static_cast<Convolution *>(s)->SetFunction(&k);
  }
  else if (m.kind == kCond)
  {
    KernelCond k(m.trans.size());
    k.p = m.k;
    static_cast<Convolution *>(s)->SetConditionalPDF(&k);
  }
}
inline void setFunction(Case &c, Systematic *s, SysModel &m)
{
  chooseFunction(c, m);
  applyFunction(s, m);
}

// new parameter values
inline ParameterDict genValues(Case &c, SysModel &m)
{
  Rng &r = c.r;
  ParameterDict vals;
  if (m.kind == kScale)
    vals[m.pre + "scaleFactor"] = m.a = r.coin(0.1) ? 1 : r.coin(0.1) ? std::pow(10, r.uni(-3, 3)) : r.coin(0.3) ? 0.25 * r.ri(1, 12) : r.uni(0.3, 2.5);
  else if (m.kind == kShift)
    vals[m.pre + "shift"] = m.a = r.coin(0.1) ? 0 : r.coin(0.1) ? r.uni(-100, 100) : r.coin(0.4) ? 0.25 * r.ri(-12, 12) : r.uni(-4, 4);
  else if (m.kind == kScaleFunc)
    vals[m.pre + "a"] = m.a = r.coin(0.3) ? 0 : r.uni(-3, 3), vals[m.pre + "b"] = m.b = r.coin(0.2) ? 1 : r.uni(0.2, 2);
  else if (m.kind == kShape)
    vals[m.pre + "a"] = m.a = r.uni(-2, 2), vals[m.pre + "b"] = m.b = r.uni(-2, 2);
  else if (m.kind == kRenorm)
    m.a = r.coin(0.1) ? 0 : r.coin(0.15) ? std::pow(10, r.uni(-14, 8)) : r.uni(0, 5);
  else
    for (size_t i = 0; i < m.k.v.size(); ++i)
      vals[m.k.names[i]] = m.k.v[i] = i % 2 ? (r.coin(0.1) ? r.uni(1e-3, 0.01) : r.uni(0.1, 3)) : r.uni(-2, 2);
  return vals;
}
// the model's parameters from a dictionary that holds them (among others)
inline void takeValues(const ParameterDict &d, SysModel &m)
{
  if (m.kind == kScale)
    m.a = d.at(m.pre + "scaleFactor");
  else if (m.kind == kShift)
    m.a = d.at(m.pre + "shift");
  else if (m.kind == kScaleFunc || m.kind == kShape)
    m.a = d.at(m.pre + "a"), m.b = d.at(m.pre + "b");
  else if (m.kind != kRenorm)
    for (size_t i = 0; i < m.k.v.size(); ++i)
      m.k.v[i] = d.at(m.k.names[i]);
}
// set new values through any of the routes
inline void setParams(Case &c, Systematic *s, SysModel &m)
{
  ParameterDict vals = genValues(c, m);
  if (m.kind == kRenorm)
  {
    static_cast<Renorm *>(s)->SetScaleFactor(m.a);
    check(static_cast<Renorm *>(s)->GetScaleFactor() == m.a, "scale factor", "");
  }
  else if (m.kind == kScale && c.r.coin(0.3))
    static_cast<Scale *>(s)->SetScaleFactor(m.a);
  else if (m.kind == kShift && c.r.coin(0.3))
    static_cast<Shift *>(s)->SetShift(m.a);
  else if (c.r.coin())
    s->SetParameters(vals);
  else
    for (auto &v : vals)
      s->SetParameter(v.first, v.second);
}

inline void chooseTrans(Case &c, SysModel &m)
{
  size_t n = m.kind <= kScaleFunc ? 1 : m.kind == kRenorm ? 0 : size_t(c.r.ri(1, long(m.dist.size())));
  m.trans = subset(c.r, m.dist, n);
}

// Observables of the distribution are the axes' positions; their names may differ from the axis names.
inline void chooseDist(Case &c, SysModel &m, int maxDims = 4, int maxBins = 60)
{
  int nd = int(c.r.coin(0.35) ? 1 : c.r.ri(2, maxDims));
  m.dist = genNames(c.r, nd);
  m.axes = genAxes(c.r, m.dist, maxBins);
}

// one long axis, perhaps with one very wide bin, and perhaps a short one before or after
inline void chooseLarge(Case &c, SysModel &m, int lo, int hi, bool both)
{
  m.dist = genNames(c.r, both ? 2 : int(c.r.ri(1, 2)));
  size_t at = size_t(c.r.ri(0, long(m.dist.size()) - 1));
  m.axes = AxisCollection();
  for (size_t i = 0; i < m.dist.size(); ++i)
    if (i == at)
    {
      int n = int(c.r.ri(lo, hi));
      if (c.r.coin(0.4))
      {
        m.axes.AddAxis(BinAxis(m.dist[i], -2, 3, n));
        continue;
      }
      std::vector<double> e{c.r.uni(0.2, 1)};
      size_t wide = size_t(c.r.ri(0, n - 1));
      for (int k = 0; k < n; ++k)
        e.push_back(e.back() + c.r.uni(0.5, 1) * (size_t(k) == wide ? 5 : 0.05));
      m.axes.AddAxis(axisFromEdges(m.dist[i], e));
    }
    else
      m.axes.AddAxis(genAxis(c.r, m.dist[i], 2));
}

inline void setObs(Systematic *s, const SysModel &m)
{
  s->SetTransformationObs(ObsSet(m.trans));
  s->SetDistributionObs(ObsSet(m.dist));
}
// parameter names of the kinds whose name is fixed
inline void prefixNames(Systematic *s, const SysModel &m)
{
  if (m.pre.size() && m.kind == kScale)
    s->RenameParameter("scaleFactor", m.pre + "scaleFactor");
  if (m.pre.size() && m.kind == kShift)
    s->RenameParameter("shift", m.pre + "shift");
}
} // namespace oxv
#endif
