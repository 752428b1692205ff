// P21: the component manager routes every parameter to its owner.
// OXV_NEEDS_ROOT: Gaussian and what is built on it are only compiled in there
#include "components.h"
#include <ComponentManager.h>
#include <TestStatistic.h>
using namespace oxv;
PLAN("P21", 30000, 750000,
     "Component managers over stand-in and real components with disjoint or shared names: histories of adding, clearing, "
     "setting full, surplus, empty and incomplete dictionaries, setting and renaming on the components directly, and "
     "reading; the manager's names, count, dictionary and reads, and every component's own values, are compared with a "
     "plain model after every step. Distinct = (components, history).")

// a component that records how it was asked
struct Probe : public FitComponent
{
  ParameterDict v;
  std::string name;
  int sets = 0, dicts = 0;
  void SetParameter(const std::string &n, double x)
  {
    if (!v.count(n))
      throw ParameterError("no " + n);
    v[n] = x, ++sets;
  }
  double GetParameter(const std::string &n) const
  {
    if (!v.count(n))
      throw ParameterError("no " + n);
    return v.at(n);
  }
  void SetParameters(const ParameterDict &d)
  {
    for (auto &p : v)
      if (!d.count(p.first))
        throw ParameterError("missing " + p.first);
    for (auto &p : v)
      p.second = d.at(p.first);
    ++dicts;
  }
  ParameterDict GetParameters() const { return v; }
  size_t GetParameterCount() const { return v.size(); }
  std::set<std::string> GetParameterNames() const
  {
    std::set<std::string> s;
    for (auto &p : v)
      s.insert(p.first);
    return s;
  }
  void RenameParameter(const std::string &a, const std::string &b)
  {
    double x = v.at(a);
    v.erase(a), v[b] = x;
  }
  std::string GetName() const { return name; }
  void SetName(const std::string &n) { name = n; }
};

SCENARIO(manager, 1)
{
  // a statistic that leaves its parameters to its component manager
  struct Holder : public TestStatistic
  {
    double Evaluate() { return 0; }
    void RegisterFitComponents() {}
  } holder;
  const bool held = c.r.coin(0.25);
  ComponentManager plain;
  ComponentManager &man = held ? holder.GetComponentManager() : plain;
  struct Comp
  {
    std::shared_ptr<FitComponent> f;
    Probe *probe;
    ParameterDict v; // the model
  };
  std::vector<Comp> comps; // everything that exists
  std::vector<size_t> in;  // those in the manager, in order
  std::string hist;
  bool real = c.r.coin(0.4);
  std::vector<std::string> pool{"a", "b", "c", "d", "e", "f"};
  int overlap = int(c.r.ri(0, 2)); // none, some, much
  int fresh = 0;

  auto put = [&](const ParameterDict &d) {
    if (held && c.r.coin(0.7))
      holder.SetParameters(d);
    else
      man.SetParameters(d);
  };
  auto names = [&]() {
    std::set<std::string> s;
    for (size_t i : in)
      for (auto &p : comps[i].v)
        s.insert(p.first);
    return s;
  };
  // value of a name when all owners agree
  auto agreed = [&](const std::string &n, double &x) {
    bool first = true;
    for (size_t i : in)
      if (comps[i].v.count(n))
      {
        double y = comps[i].v.at(n);
        if (!first && x != y)
          return false;
        x = y, first = false;
      }
    return true;
  };
  auto verify = [&](const std::string &what) {
    std::set<std::string> want = names();
    check(man.GetParameterNames() == want, "names", "after ", what, ": names ", str(man.GetParameterNames()), " want ", str(want));
    check(man.GetTotalParameterCount() == int(want.size()), "count", "after ", what, ": count ", man.GetTotalParameterCount(), " want ", want.size());
    check(man.GetComponentCount() == in.size(), "components", "after ", what, ": ", man.GetComponentCount(), " components, want ", in.size());
    ParameterDict d = man.GetParameters();
    check(d.size() == want.size(), "dict", "after ", what, ": dictionary has ", d.size(), " entries, want ", want.size());
    if (held)
    {
      const Holder &read = holder;
      check(read.GetParameters() == d && read.GetParameterNames() == want && read.GetParameterCount() == want.size() && read.GetComponentManager().GetParameterNames() == want,
            "statistic", "after ", what);
      c.count("reads through a statistic");
    }
    for (auto &n : want)
    {
      double x = 0;
      check(d.count(n), "dict", "after ", what, ": ", n, " is not in the dictionary");
      double g = man.GetParameter(n);
      bool owned = false;
      for (size_t i : in)
        owned = owned || (comps[i].v.count(n) && comps[i].v.at(n) == g);
      check(owned, "get", "after ", what, ": GetParameter(", n, ") = ", g, " is no owner's value");
      check(d.at(n) == g, "dict", "after ", what, ": dictionary has ", n, " = ", d.at(n), " but GetParameter gives ", g);
      if (agreed(n, x))
        check(g == x, "get", "after ", what, ": GetParameter(", n, ") = ", g, " want ", x);
    }
    for (size_t i = 0; i < comps.size(); ++i)
    {
      ParameterDict p = comps[i].f->GetParameters();
      check(p == comps[i].v, "owner", "after ", what, ": component ", i, " (", std::count(in.begin(), in.end(), i) ? "managed" : "not managed", ") holds other values");
    }
  };
  auto create = [&]() {
    Comp x;
    x.probe = nullptr;
    if (real && c.r.coin(0.6))
    {
      Spec s = generate(c);
      x.f = s.make();
      std::set<std::string> own(s.names.begin(), s.names.end());
      std::vector<std::string> o(own.begin(), own.end());
      for (size_t k = 0; k < o.size(); ++k)
      {
        // unique or shared names
        if (s.onto != Spec::kNever || o.size() == 1)
        {
          std::string to = overlap && k < pool.size() && c.r.coin(0.5) ? pool[k] : cat("p", comps.size(), "_", k);
          if (!x.f->GetParameterNames().count(to))
            x.f->RenameParameter(o[k], to);
        }
      }
      for (auto &n : x.f->GetParameterNames())
        x.f->SetParameter(n, genValue(c, false));
      x.v = x.f->GetParameters();
      c.count("real components");
    }
    else
    {
      auto p = std::make_shared<Probe>();
      x.probe = p.get(), x.f = p;
      int n = int(c.r.few(0, 4, 20));
      for (int k = 0; k < n; ++k)
        p->v[overlap && c.r.coin(overlap == 1 ? 0.3 : 0.8) ? c.r.pick(pool) : cat("p", comps.size(), "_", k)] = c.r.uni(-5, 5);
      x.v = p->v;
    }
    comps.push_back(x);
  };

  size_t most = size_t(c.r.few(6, 6, 16));
  int steps = int(c.r.ri(4, c.thorough ? 30 : 16)) + int(2 * (most - 6));
  for (int st = 0; st < steps; ++st)
  {
    std::string what;
    if (held && c.r.coin(0.1))
    {
      ComponentManager copy = man;
      man.Clear();
      holder.SetComponentManager(copy);
    }
    int op = st < 2 ? 0 : int(c.r.ri(0, 11));
    std::set<std::string> all = names();
    if (op <= 1)
    {
      if (comps.size() >= most)
        continue;
      create();
      what = cat("AddComponent ", comps.size() - 1, " with ", str(comps.back().f->GetParameterNames()));
      LOG << what;
      if (c.r.coin(0.85)) // some stay outside
        man.AddComponent(comps.back().f.get()), in.push_back(comps.size() - 1);
      hist += cat("a", comps.back().v.size());
    }
    else if (op <= 5)
    {
      ParameterDict d;
      bool nearly = c.r.coin(0.2); // next to what is there already
      for (auto &n : all)
      {
        double at = 0;
        d[n] = genValue(c, false);
        if (nearly && agreed(n, at) && at != 0)
          d[n] = c.r.coin(0.3) ? at : at * (1 + (c.r.coin() ? 1 : -1) * std::pow(10, c.r.uni(-15, -7)));
      }
      bool surplus = c.r.coin(0.4);
      if (surplus)
      {
        for (auto &n : pool)
          if (!all.count(n))
            d[n] = c.r.uni();
        d["nobody"] = 1;
        // names of components that are not managed
        for (auto &x : comps)
          for (auto &p : x.v)
            if (!d.count(p.first))
              d[p.first] = c.r.uni();
      }
      what = cat("SetParameters of ", d.size());
      LOG << what;
      std::vector<int> before;
      for (auto &x : comps)
        before.push_back(x.probe ? x.probe->dicts : 0);
      if (all.empty() && c.r.coin())
        d.clear();
      put(d);
      for (size_t i : in)
        for (auto &p : comps[i].v)
          p.second = d.at(p.first);
      (void)before;
      hist += surplus ? "S" : "s";
    }
    else if (op == 6)
    {
      what = "SetParameters with nothing";
      LOG << what;
      put(ParameterDict());
      hist += 'e';
    }
    else if (op <= 8)
    {
      if (all.empty())
        continue;
      std::vector<std::string> a(all.begin(), all.end());
      std::set<std::string> lack{c.r.pick(a)};
      while (c.r.coin(0.3))
        lack.insert(c.r.pick(a));
      ParameterDict d;
      for (auto &n : all)
        if (!lack.count(n))
          d[n] = genValue(c, false);
      if (d.empty() || c.r.coin(0.4))
        d["nobody"] = 3;
      what = cat("refused SetParameters without ", str(lack));
      LOG << what;
      REFUSED_LIB("refuse-missing", put(d));
      hist += cat("m", lack.size());
    }
    else if (op == 9)
    {
      std::string n = c.r.pick<std::string>({"nobody", "", "A"});
      for (auto &x : comps) // one that belongs to a component outside
        for (auto &p : x.v)
          if (!all.count(p.first) && c.r.coin(0.3))
            n = p.first;
      what = cat("refused GetParameter(", n, ")");
      LOG << what;
      REFUSED("refuse-get", man.GetParameter(n));
      hist += 'g';
    }
    else if (op == 10)
    {
      // a component changes its own value or name
      if (comps.empty())
        continue;
      size_t i = size_t(c.r.ri(0, long(comps.size()) - 1));
      if (comps[i].v.empty())
        continue;
      std::vector<std::string> o;
      for (auto &p : comps[i].v)
        o.push_back(p.first);
      std::string n = c.r.pick(o);
      if (c.r.coin())
      {
        double x = genValue(c, false);
        what = cat("component ", i, " SetParameter(", n, ", ", x, ")");
        LOG << what;
        comps[i].f->SetParameter(n, x);
        comps[i].v[n] = x;
      }
      else
      {
        std::string to = cat("n", fresh++);
        what = cat("component ", i, " RenameParameter(", n, ", ", to, ")");
        LOG << what;
        comps[i].f->RenameParameter(n, to);
        comps[i].v[to] = comps[i].v.at(n);
        comps[i].v.erase(n);
      }
      hist += 'c';
    }
    else if (c.r.coin(0.4))
    {
      what = "Clear";
      LOG << what;
      man.Clear();
      in.clear();
      hist += 'C';
    }
    verify(what);
  }
  c.sig(hist);
}
