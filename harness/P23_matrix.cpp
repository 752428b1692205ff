// P23: dense and sparse matrices compute the exact linear algebra they claim.
#include "oxv.h"
#include <DenseMatrix.h>
#include <Exceptions.h>
#include <SparseMatrix.h>
#include <numeric>
using namespace oxv;
PLAN("P23", 100000, 2500000,
     "Random shapes (1-40 square and rectangular) and histories of element writes in any order, bulk writes, products, "
     "scalings, identity, zero and symmetric settings and copies on dense and sparse matrices; after each operation "
     "every element and a matrix-vector product are compared with a plain array. Distinct = operation by shape.")

struct M
{
  size_t r, c;
  std::vector<double> a;
  M(size_t r_, size_t c_) : r(r_), c(c_), a(r_ * c_, 0.0) {}
  double &operator()(size_t i, size_t j) { return a[i * c + j]; }
  double operator()(size_t i, size_t j) const { return a[i * c + j]; }
};
static M mul(const M &x, const M &y)
{
  M o(x.r, y.c);
  for (size_t i = 0; i < x.r; ++i)
    for (size_t j = 0; j < y.c; ++j)
      for (size_t k = 0; k < x.c; ++k)
        o(i, j) += x(i, k) * y(k, j);
  return o;
}
static double scaleOf(const M &m)
{
  double s = 0;
  for (double x : m.a)
    s = std::max(s, std::fabs(x));
  return s;
}

template <class T>
static void verify(Case &c, const T &t, const M &m, double scale, const std::string &op)
{
  for (size_t i = 0; i < m.r; ++i)
    for (size_t j = 0; j < m.c; ++j)
      near(t.GetComponent(i, j), m(i, j), "element", 1e-12, scale, "(", i, ",", j, ") of ", m.r, "x", m.c, " after ", op);
  std::vector<double> v, w(m.r, 0.0);
  double big = 0;
  for (size_t j = 0; j < m.c; ++j)
    v.push_back(c.r.coin(0.2) ? 0 : c.r.uni(-2, 2));
  std::vector<double> v0 = v;
  for (size_t i = 0; i < m.r; ++i)
    for (size_t j = 0; j < m.c; ++j)
      w[i] += m(i, j) * v[j], big = std::max(big, std::max(scale, std::fabs(m(i, j))) * 2 * m.c);
  nearv(t(v), w, "times vector", 1e-12, big, "after ", op);
  check(v == v0, "vector operand", "modified");
  c.count("products with vectors");
}

static double val(Case &c) { return c.r.coin(0.25) ? 0 : c.r.coin(0.3) ? double(c.r.ri(-4, 4)) : c.r.uni(-3, 3); }

template <class T>
static T build(Case &c, const M &m)
{
  T t(m.r, m.c);
  std::vector<size_t> ord(m.a.size());
  std::iota(ord.begin(), ord.end(), 0);
  c.r.shuffle(ord);
  for (size_t k : ord)
    if (m.a[k] != 0 || c.r.coin(0.2))
      t.SetComponent(k / m.c, k % m.c, m.a[k]);
  return t;
}
static M genM(Case &c, size_t r, size_t k, double fill)
{
  M m(r, k);
  if (c.r.coin(0.12))
  { // close to the identity, or to zero
    double d = c.r.coin() ? 1 : 0;
    bool diagonal = c.r.coin(0.4);
    double least = c.r.coin() ? -9 : -11.5;
    for (size_t i = 0; i < r; ++i)
      for (size_t j = 0; j < k; ++j)
        m(i, j) = (i == j ? d : 0) + ((diagonal ? i == j : true) && c.r.coin(0.2) ? std::pow(10, c.r.uni(least, diagonal ? least + 3 : -2)) * (c.r.coin() ? 1 : -1) : 0);
    return m;
  }
  for (auto &x : m.a)
    x = c.r.coin(fill) ? val(c) : 0;
  return m;
}

SCENARIO(sparse, 3)
{
  long most = c.r.coin(0.05) ? 30 : 12;
  size_t r = c.r.ri(1, most), k = c.r.coin(0.6) ? r : c.r.ri(1, most);
  M m(r, k);
  SparseMatrix t(r, k);
  LOG << "sparse " << r << "x" << k;
  verify(c, t, m, 0, "construction");
  double scale = 0;
  for (int s = 0, n = int(c.r.ri(3, 20)); s < n; ++s)
  {
    std::string op;
    switch (c.r.ri(0, 9))
    {
    case 0:
    case 1:
    case 2:
    {
      size_t i = c.r.ri(0, m.r - 1), j = c.r.ri(0, m.c - 1);
      double v = val(c);
      op = cat("set ", i, ",", j, " ", v);
      t.SetComponent(i, j, v);
      m(i, j) = v;
      break;
    }
    case 3:
    {
      op = "bulk";
      M n2 = genM(c, m.r, m.c, c.r.uni(0, 1));
      std::vector<std::pair<size_t, size_t>> loc;
      for (size_t i = 0; i < m.r; ++i)
        for (size_t j = 0; j < m.c; ++j)
          if (n2(i, j) != 0)
            loc.push_back({i, j});
      c.r.shuffle(loc);
      std::vector<long long unsigned int> ri, ci;
      std::vector<double> vs;
      for (auto &l : loc)
      {
        ri.push_back(l.first);
        ci.push_back(l.second);
        vs.push_back(n2(l.first, l.second));
      }
      t.SetComponents(ri, ci, vs);
      m = n2;
      scale = 0;
      break;
    }
    case 4:
    case 5:
    {
      bool assignForm = c.r.coin();
      size_t k2 = c.r.coin(0.6) ? m.c : c.r.ri(1, 12);
      M o = genM(c, m.c, k2, 0.5);
      SparseMatrix ot = build<SparseMatrix>(c, o);
      op = cat(assignForm ? "*= " : "* ", o.r, "x", o.c);
      M res = mul(m, o);
      double sc = std::max(scale, scaleOf(m)) * scaleOf(o) * double(m.c);
      if (assignForm)
      {
        if (c.r.coin(0.15) && m.r == m.c)
        {
          op = "*= self";
          res = mul(m, m);
          sc = std::max(scale, scaleOf(m)) * std::max(scale, scaleOf(m)) * m.c;
          t *= t;
        }
        else
          t *= ot;
        m = res;
        scale = sc;
      }
      else
      {
        SparseMatrix p = t * ot;
        check(p.GetNRows() == res.r && p.GetNCols() == res.c, "product shape", p.GetNRows(), "x", p.GetNCols());
        verify(c, p, res, sc, op);
      }
      verify(c, ot, o, 0, "right operand of " + op);
      break;
    }
    case 6:
    {
      double f = c.r.coin(0.1) ? 0 : c.r.uni(-2, 2);
      op = cat("scale ", f);
      t.Scale(f);
      for (auto &x : m.a)
        x *= f;
      scale *= std::fabs(f);
      break;
    }
    case 7:
      op = "zeros";
      t.SetZeros();
      m.a.assign(m.a.size(), 0.0);
      scale = 0;
      break;
    case 8:
      op = "identity";
      if (m.r == m.c)
      {
        t.SetToIdentity();
        m.a.assign(m.a.size(), 0.0);
        for (size_t i = 0; i < m.r; ++i)
          m(i, i) = 1;
        scale = 1;
      }
      else
        REFUSED("identity shape", t.SetToIdentity());
      break;
    case 9:
    {
      op = "copy";
      SparseMatrix u(t), w(3, 2);
      w = t;
      t.SetComponent(0, 0, 99);
      verify(c, u, m, scale, "copy");
      verify(c, w, m, scale, "assignment");
      t = u;
      break;
    }
    }
    LOG << op;
    scale = std::max(scale, scaleOf(m));
    check(t.GetNRows() == m.r && t.GetNCols() == m.c, "shape", t.GetNRows(), "x", t.GetNCols(), " after ", op);
    verify(c, t, m, scale, op);
    c.sig(cat("s", op.substr(0, 4), m.r, "x", m.c));
    if (scale > 1e80)
      break;
  }
}

SCENARIO(dense, 3)
{
  long most = c.r.coin(0.05) ? 30 : 12;
  size_t r = c.r.ri(1, most), k = c.r.coin(0.6) ? r : c.r.ri(1, most);
  M m(r, k);
  DenseMatrix t(r, k);
  LOG << "dense " << r << "x" << k;
  verify(c, t, m, 0, "construction");
  double scale = 0;
  for (int s = 0, n = int(c.r.ri(3, 20)); s < n; ++s)
  {
    std::string op;
    switch (c.r.ri(0, 8))
    {
    case 0:
    case 1:
    case 2:
    {
      size_t i = c.r.ri(0, m.r - 1), j = c.r.ri(0, m.c - 1);
      double v = val(c);
      op = cat("set ", i, ",", j, " ", v);
      t.SetComponent(i, j, v);
      m(i, j) = v;
      break;
    }
    case 3:
    case 4:
    {
      size_t k2 = c.r.coin(0.6) ? m.c : c.r.ri(1, 12);
      M o = genM(c, m.c, k2, 0.7);
      DenseMatrix ot = build<DenseMatrix>(c, o);
      op = cat("*= ", o.r, "x", o.c);
      double sc = std::max(scale, scaleOf(m)) * scaleOf(o) * double(m.c);
      t *= ot;
      m = mul(m, o);
      scale = sc;
      verify(c, ot, o, 0, "right operand of " + op);
      break;
    }
    case 5:
      op = "zeros";
      t.SetZeros();
      m.a.assign(m.a.size(), 0.0);
      scale = 0;
      break;
    case 6:
      op = "identity";
      if (m.r == m.c)
      {
        t.SetToIdentity();
        m.a.assign(m.a.size(), 0.0);
        for (size_t i = 0; i < m.r; ++i)
          m(i, i) = 1;
      }
      else
        REFUSED("identity shape", t.SetToIdentity());
      scale = 1;
      break;
    case 7:
    {
      op = "symmetric";
      if (m.r != m.c)
      {
        REFUSED("symmetric shape", t.SetSymmetricMatrix(std::vector<double>(m.r * (m.r + 1) / 2, 1.0)));
        break;
      }
      std::vector<double> v;
      for (size_t i = 0; i < m.r * (m.r + 1) / 2; ++i)
        v.push_back(val(c));
      std::vector<double> wrong = v;
      wrong.push_back(1);
      REFUSED("symmetric size", t.SetSymmetricMatrix(wrong));
      verify(c, t, m, scale, "refused symmetric");
      t.SetSymmetricMatrix(v);
      size_t q = 0;
      for (size_t i = 0; i < m.r; ++i)
        for (size_t j = 0; j <= i; ++j, ++q)
          m(i, j) = m(j, i) = v[q];
      scale = 0;
      break;
    }
    case 8:
    {
      op = "copy";
      DenseMatrix u(t), w(3, 2);
      w = t;
      t.SetComponent(0, 0, 99);
      verify(c, u, m, scale, "copy");
      verify(c, w, m, scale, "assignment");
      t = u;
      break;
    }
    }
    LOG << op;
    scale = std::max(scale, scaleOf(m));
    verify(c, t, m, scale, op);
    REFUSED("outside row", t.GetComponent(m.r, 0));
    REFUSED("outside col", t.GetComponent(0, m.c));
    c.sig(cat("d", op.substr(0, 4), m.r, "x", m.c));
    if (scale > 1e80)
      break;
  }
}

// elements of very different sizes: each element of a product is right on its own scale
template <class T>
static void faint(Case &c)
{
  auto v = [&]() { return c.r.coin(0.3) ? 0 : (c.r.coin() ? 1 : -1) * c.r.uni(1, 10) * std::pow(10, c.r.uni(-24, 9)); };
  long most = c.r.coin(0.1) ? 40 : 10;
  size_t r = c.r.ri(1, most), k = c.r.ri(1, most), n = c.r.ri(1, most);
  M x(r, k), y(k, n);
  for (auto &e : x.a)
    e = v();
  for (auto &e : y.a)
    e = v();
  T tx = build<T>(c, x), ty = build<T>(c, y);
  LOG << r << "x" << k << "x" << n << " of very different sizes";
  std::vector<double> in, w(r, 0.0), sc(r, 0.0);
  for (size_t j = 0; j < k; ++j)
    in.push_back(v());
  for (size_t i = 0; i < r; ++i)
    for (size_t j = 0; j < k; ++j)
      w[i] += x(i, j) * in[j], sc[i] += std::fabs(x(i, j) * in[j]);
  std::vector<double> got = tx(in);
  check(got.size() == r, "faint vector size", got.size());
  for (size_t i = 0; i < r; ++i)
    near(got[i], w[i], "faint times vector", 1e-11, sc[i], "row ", i);
  tx *= ty;
  for (size_t i = 0; i < r; ++i)
    for (size_t j = 0; j < n; ++j)
    {
      double want = 0, s = 0;
      for (size_t q = 0; q < k; ++q)
        want += x(i, q) * y(q, j), s += std::fabs(x(i, q) * y(q, j));
      near(tx.GetComponent(i, j), want, "faint product", 1e-11, s, "(", i, ",", j, ")");
    }
  c.count("products of very different sizes");
  c.sig(cat("f", r, "x", k, "x", n));
}
SCENARIO(sizes, 1)
{
  if (c.r.coin())
    faint<SparseMatrix>(c);
  else
    faint<DenseMatrix>(c);
}

SCENARIO(mismatch, 1)
{
  size_t r = c.r.ri(1, 8), k = c.r.ri(1, 8), r2 = c.r.ri(1, 8), k2 = c.r.ri(1, 8);
  if (r2 == k)
    ++r2;
  M m = genM(c, r, k, 0.7), o = genM(c, r2, k2, 0.7);
  SparseMatrix s = build<SparseMatrix>(c, m), so = build<SparseMatrix>(c, o);
  DenseMatrix d = build<DenseMatrix>(c, m), dob = build<DenseMatrix>(c, o);
  LOG << r << "x" << k << " with " << r2 << "x" << k2;
  REFUSED("s*=", s *= so);
  REFUSED("s*", s *so);
  REFUSED("d*=", d *= dob);
  std::vector<double> wrong(k + (c.r.coin() ? 1 : -1), 1.0);
  REFUSED("s(v)", s(wrong));
  REFUSED("d(v)", d(wrong));
  REFUSED("s set row", s.SetComponent(r, 0, 1));
  REFUSED("s set col", s.SetComponent(0, k, 1));
  REFUSED("d set row", d.SetComponent(r, 0, 1));
  REFUSED("d set col", d.SetComponent(0, k, 1));
  REFUSED("s get", s.GetComponent(r, 0));
  REFUSED("s get", s.GetComponent(0, k));
  REFUSED("bulk lengths", s.SetComponents({0}, {0}, {1., 2.}));
  REFUSED("bulk lengths", s.SetComponents({0, 0}, {0}, {1.}));
  REFUSED("bulk outside", s.SetComponents({r}, {0}, {1.}));
  REFUSED("bulk outside", s.SetComponents({0}, {k}, {1.}));
  verify(c, s, m, 0, "refusals");
  verify(c, d, m, 0, "refusals");
  verify(c, so, o, 0, "refusals");
  SparseMatrix es;
  DenseMatrix ed;
  REFUSED("empty", es.SetZeros());
  REFUSED("empty", es.SetToIdentity());
  REFUSED("empty", ed.SetZeros());
  REFUSED("empty", ed.SetToIdentity());
  REFUSED("empty", es.GetComponent(0, 0));
  REFUSED("empty", ed.GetComponent(0, 0));
  c.sig(cat("m", r, k, r2, k2));
}
