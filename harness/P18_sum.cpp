// P18: a sum of test statistics is the sum of its parts over shared parameters.
#include "nllhmodel.h"
#include <StatisticSum.h>
using namespace oxv;
PLAN("P18", 60000, 1500000,
     "Sums of 1..6 recording statistics over overlapping parameter sets, built by construction, + in every nesting "
     "(statistic+statistic, sum+statistic, statistic+sum, sum+sum), AddStat and Sum(list), with constraints on the sums; "
     "values, parameter union, routing, refusals and registrations are checked against the parts, and sums of real binned "
     "likelihoods against the likelihoods. Distinct = (construction, sharing pattern).")

namespace
{
struct Fake : public TestStatistic
{
  ParameterDict p;
  double w = 1;
  int sets = 0, evals = 0, regs = 0;
  double value() const
  {
    double v = w;
    int k = 1;
    for (auto &x : p)
      v += w * double(k++) * x.second * x.second + x.second;
    return v;
  }
  double Evaluate() override { return ++evals, value(); }
  void SetParameters(const ParameterDict &d) override
  {
    ++sets;
    for (auto &x : p)
      if (!d.count(x.first))
        throw ParameterError("Fake: missing " + x.first);
    for (auto &x : p)
      x.second = d.at(x.first);
  }
  ParameterDict GetParameters() const override { return p; }
  size_t GetParameterCount() const override { return p.size(); }
  std::set<std::string> GetParameterNames() const override
  {
    std::set<std::string> s;
    for (auto &x : p)
      s.insert(x.first);
    return s;
  }
  void RegisterFitComponents() override { ++regs; }
};

struct Con
{
  std::string p;
  double m, s;
};
// a sum under test: the parts it stands for (with multiplicity) and its constraints
struct Sum1
{
  StatisticSum *s;
  std::vector<size_t> parts;
  std::vector<Con> cons;
};
} // namespace

SCENARIO(fakes, 6)
{
  std::vector<std::unique_ptr<Fake>> fs;
  std::vector<std::string> pool = genNames(c.r, int(c.r.few(1, 6, 30)), "p_");
  int n = int(c.r.few(1, 6, 20));
  const bool whole = c.r.coin(0.25); // values that repeat and add up to one another
  for (int k = 0; k < n; ++k)
  {
    fs.emplace_back(new Fake);
    fs.back()->w = whole ? double(c.r.ri(-2, 3)) : c.r.uni(-2, 3);
    for (auto &q : pool)
      if (c.r.coin())
        fs.back()->p[q] = whole ? double(c.r.ri(-1, 1)) : c.r.value(-5, 5);
  }
  std::vector<std::unique_ptr<StatisticSum>> keep;
  std::vector<Sum1> sums;
  auto any = [&]() { return size_t(c.r.ri(0, n - 1)); };
  std::string how;
  auto addCon = [&](Sum1 &x) {
    if (!c.r.coin(0.4))
      return;
    std::set<std::string> names = x.s->GetParameterNames();
    if (names.empty())
      return;
    Con k{c.r.pick(std::vector<std::string>(names.begin(), names.end())), c.r.uni(-3, 3), c.r.uni(0.5, 3)};
    x.s->SetConstraint(k.p, k.m, k.s);
    bool rep = false;
    for (auto &o : x.cons)
      if (o.p == k.p)
        o = k, rep = true;
    if (!rep)
      x.cons.push_back(k);
  };
  int made = int(c.r.ri(1, 4));
  for (int k = 0; k < made; ++k)
  {
    int op = int(c.r.ri(0, sums.empty() ? 3 : 7));
    how += cat(op, " ");
    Sum1 x;
    size_t a = any(), b = any();
    // the sums refer to each other, so they stay where they are
    auto own = [&](StatisticSum *p) {
      keep.emplace_back(p);
      return p;
    };
    const Sum1 *old = sums.empty() ? nullptr : &sums[size_t(c.r.ri(0, long(sums.size()) - 1))];
    const Sum1 *oth = sums.empty() ? nullptr : &sums[size_t(c.r.ri(0, long(sums.size()) - 1))];
    switch (op)
    {
    case 0:
      x.s = own(new StatisticSum(*fs[a], *fs[b]));
      x.parts = {a, b};
      break;
    case 1:
      x.s = own(new StatisticSum(*fs[a] + *fs[b]));
      x.parts = {a, b};
      break;
    case 2:
    {
      std::vector<TestStatistic *> v;
      for (int j = 0, m = int(c.r.few(0, 5, 30)); j < m; ++j)
      {
        size_t i = any();
        v.push_back(fs[i].get());
        x.parts.push_back(i);
      }
      x.s = own(new StatisticSum(Sum(v)));
      break;
    }
    case 3:
      x.s = own(new StatisticSum());
      for (int j = 0, m = int(c.r.few(0, 3, 24)); j < m; ++j)
      {
        size_t i = any();
        x.s->AddStat(*fs[i]);
        x.parts.push_back(i);
      }
      break;
    case 4:
      x.s = own(new StatisticSum(*old->s + *fs[a]));
      x.parts = old->parts;
      x.parts.push_back(a);
      x.cons = old->cons;
      break;
    case 5:
      x.s = own(new StatisticSum(*fs[a] + *old->s));
      x.parts = old->parts;
      x.parts.push_back(a);
      x.cons = old->cons;
      break;
    case 6:
      x.s = own(new StatisticSum(*old->s + *oth->s));
      x.parts = old->parts;
      x.parts.insert(x.parts.end(), oth->parts.begin(), oth->parts.end());
      x.cons = old->cons;
      x.cons.insert(x.cons.end(), oth->cons.begin(), oth->cons.end());
      break;
    default:
    {
      std::vector<TestStatistic *> v{old->s, fs[a].get(), oth->s};
      x.s = own(new StatisticSum(Sum(v)));
      x.parts = old->parts;
      x.parts.push_back(a);
      x.parts.insert(x.parts.end(), oth->parts.begin(), oth->parts.end());
      x.cons = old->cons;
      x.cons.insert(x.cons.end(), oth->cons.begin(), oth->cons.end());
    }
    }
    // constraints of a sum that others contain would enter those too: declare them before it is used, on a plain sum only
    if (op <= 3)
      addCon(x);
    sums.push_back(x);
  }
  c.sig(how);
  LOG << how;
  auto all = [&](Sum1 &x, const std::string &when) {
    ParameterDict uni;
    std::map<std::string, std::vector<size_t>> users;
    for (size_t i : x.parts)
      for (auto &q : fs[i]->p)
      {
        uni.insert(q);
        users[q.first].push_back(i);
      }
    std::set<std::string> names;
    for (auto &u : users)
      names.insert(u.first);
    check(x.s->GetParameterNames() == names, "names", when, ": ", str(x.s->GetParameterNames()), " want ", str(names));
    check(x.s->GetParameterCount() == names.size(), "count", when);
    ParameterDict got = x.s->GetParameters();
    check(got.size() == names.size(), "dictionary", when);
    for (auto &q : got)
    {
      bool ok = false;
      for (size_t i : users.at(q.first))
        ok = ok || fs[i]->p.at(q.first) == q.second;
      check(ok, "dictionary value", when, ": ", q.first, " reported as ", q.second, ", no part has it");
    }
    // the value: with the same value in every part the constraints are defined too
    std::vector<int> before;
    for (auto &f : fs)
      before.push_back(f->evals);
    double want = 0, scale = 1;
    for (size_t i : x.parts)
      want += fs[i]->value(), scale += std::fabs(fs[i]->value());
    for (auto &k : x.cons)
    {
      double z = (got.at(k.p) - k.m) / k.s;
      want += z * z / 2, scale += z * z;
    }
    bool agreed = true;
    for (auto &u : users)
      for (size_t i : u.second)
        agreed = agreed && fs[i]->p.at(u.first) == got.at(u.first);
    double v = x.s->Evaluate();
    if (agreed || x.cons.empty())
      near(v, want, "value", 1e-12, scale, when);
  };
  for (int k = 0, m = int(c.r.ri(1, 5)); k < m; ++k)
  {
    Sum1 &x = sums[size_t(c.r.ri(0, long(sums.size()) - 1))];
    all(x, cat("before setting ", k));
    std::vector<ParameterDict> before;
    for (auto &f : fs)
      before.push_back(f->p);
    ParameterDict d;
    for (auto &q : x.s->GetParameterNames())
      d[q] = whole ? double(c.r.ri(-1, 1)) : c.r.value(-5, 5);
    std::set<size_t> in(x.parts.begin(), x.parts.end());
    if (c.r.coin(0.25) && d.size() > 1)
    { // incomplete
      auto it = d.begin();
      std::advance(it, c.r.ri(0, long(d.size()) - 1));
      d.erase(it);
      REFUSED("incomplete", x.s->SetParameters(d));
      for (size_t i = 0; i < fs.size(); ++i)
        check(fs[i]->p == before[i], "refused setting changed a part", i);
      continue;
    }
    ParameterDict e = d;
    if (c.r.coin(0.3))
      e["nobody has this"] = 3;
    x.s->SetParameters(e);
    for (size_t i = 0; i < fs.size(); ++i)
      for (auto &q : fs[i]->p)
        if (in.count(i))
          check(q.second == d.at(q.first), "not set in a part", q.first, " of part ", i);
        else
          check(q.second == before[i].at(q.first), "set in another statistic", q.first, " of ", i);
    check(x.s->GetParameters() == d, "read back", "");
    all(x, cat("after setting ", k));
    if (c.r.coin(0.3))
    { // a rename in a part shows at once
      size_t i = any();
      if (fs[i]->p.size())
      {
        double v = fs[i]->p.begin()->second;
        fs[i]->p.erase(fs[i]->p.begin());
        std::string nn = c.r.pick(pool);
        fs[i]->p[nn] = v;
        bool con = false;
        for (auto &s : sums)
          con = con || s.cons.size();
        if (con)
          return; // the constraints named the old parameter
      }
    }
    for (auto &f : fs)
      f->regs = 0;
    x.s->RegisterFitComponents();
    for (size_t i = 0; i < fs.size(); ++i)
      check((fs[i]->regs > 0) == (in.count(i) > 0), "registration", i);
  }
}

// values that are not numbers, infinite, minus zero, tiny or huge are values like any others
DIRECTED(odd_values)
{
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<double> odd{NAN, inf, -inf, 0., -0., 1e-320, 1e300, -1e300};
  for (double v : odd)
    for (int where = 0; where < 3; ++where)
    {
      Fake a, b, d;
      a.p = {{"x", 1}, {"s", 2}};
      b.p = {{"y", 3}, {"s", 2}};
      d.p = {{"z", 4}};
      StatisticSum ab = a + b;
      StatisticSum s = ab + d;
      ParameterDict p{{"x", 1}, {"y", 2}, {"z", 3}, {"s", 4}};
      p[where == 0 ? "x" : where == 1 ? "s" : "z"] = v;
      s.SetParameters(p);
      ParameterDict got = s.GetParameters();
      check(s.GetParameterNames() == (std::set<std::string>{"s", "x", "y", "z"}) && s.GetParameterCount() == 4 && got.size() == 4, "odd names", "value ", v);
      auto same = [](double q, double w) { return q == w || (std::isnan(q) && std::isnan(w)); };
      for (auto &q : p)
        check(same(got.at(q.first), q.second), "odd read back", q.first, " is ", got.at(q.first), " want ", q.second);
      for (Fake *f : {&a, &b, &d})
        for (auto &q : f->p)
          check(same(q.second, p.at(q.first)), "odd value in a part", q.first, " is ", q.second, " want ", p.at(q.first));
      double want = a.value() + b.value() + d.value();
      double have = s.Evaluate();
      check(same(have, want) || std::fabs(have - want) <= 1e-12 * std::fabs(want), "odd sum", have, " want ", want);
      c.count("odd values");
    }
}
// many statistics, and one of them many times
DIRECTED(many)
{
  for (int n : {20, 300})
  {
    std::vector<std::unique_ptr<Fake>> fs;
    std::vector<TestStatistic *> v;
    for (int i = 0; i < n; ++i)
    {
      fs.emplace_back(new Fake);
      fs.back()->p = {{cat("own", i), double(i)}, {"shared", 1}, {cat("group", i % 7), 2}};
      v.push_back(fs.back().get());
    }
    v.push_back(fs[3].get());
    v.push_back(fs[3].get());
    StatisticSum s = Sum(v);
    check(s.GetParameterCount() == size_t(n + 8), "many names", s.GetParameterCount());
    ParameterDict p = s.GetParameters();
    for (auto &q : p)
      q.second = c.r.uni(-2, 2);
    s.SetParameters(p);
    double want = 0;
    for (auto *t : v)
      want += static_cast<Fake *>(t)->value();
    for (auto &f : fs)
      for (auto &q : f->p)
        check(q.second == p.at(q.first), "many set", q.first);
    near(s.Evaluate(), want, "many", 1e-11, n);
  }
}

SCENARIO(likelihoods, 1)
{
  std::vector<NllhModel> ms;
  std::vector<std::unique_ptr<Fit>> fs;
  std::vector<TestStatistic *> v;
  for (int k = 0, n = int(c.r.ri(2, 4)); k < n; ++k)
  {
    ms.push_back(genNllh(c, false, 10));
    fs.emplace_back(new Fit);
    setUp(c, ms.back(), *fs.back());
    fs.back()->stat.SetDataDist(dataDist(ms.back(), ms.back().data));
    v.push_back(&fs.back()->stat);
  }
  StatisticSum a = Sum(v);
  StatisticSum ab = *v[0] + *v[1];
  StatisticSum nested = ab;
  std::vector<StatisticSum> stay;
  stay.reserve(4);
  for (size_t k = 2; k < v.size(); ++k)
  {
    stay.push_back(nested + *v[k]);
    nested = stay.back();
  }
  a.RegisterFitComponents();
  std::set<std::string> names;
  for (auto &m : ms)
    for (auto &q : m.parameterNames())
      names.insert(q);
  check(a.GetParameterNames() == names && nested.GetParameterNames() == names && a.GetParameterCount() == names.size(), "names", "");
  for (int k = 0; k < 3; ++k)
  {
    ParameterDict p;
    for (auto &m : ms)
    {
      ParameterDict q = nllhPoint(c, m);
      p.insert(q.begin(), q.end());
    }
    (c.r.coin() ? a : nested).SetParameters(p);
    check(a.GetParameters() == p && nested.GetParameters() == p, "read back", "");
    double want = 0, parts = 0, scale = 1;
    bool zero = false;
    for (auto &m : ms)
    {
      want += m.evaluate(p);
      scale += m.scale;
      zero = zero || m.zero;
    }
    for (size_t i = 0; i < fs.size(); ++i)
      for (auto &q : fs[i]->stat.GetParameters())
        check(q.second == p.at(q.first), "not set in a part", q.first);
    if (zero)
      continue;
    for (auto &f : fs)
      parts += f->stat.Evaluate();
    near(a.Evaluate(), parts, "sum of the parts", 1e-11, scale);
    near(nested.Evaluate(), parts, "nested", 1e-11, scale);
    near(parts, want, "reference", 1e-8, scale);
    c.sig(cat(ms.size(), names.size(), k));
  }
}
