// P13: systematic groups are applied completely, once and in order.
#include "sysmodel.h"
#include <SystematicManager.h>
using namespace oxv;
PLAN("P13", 15000, 375000,
     "A SystematicManager over 1..8 systematics of every kind (mostly non-commuting) in a global group and up to four "
     "named groups, and 1..5 distributions with every kind of group list; parameters change between rounds of Construct "
     "and DistortEDs, whose results and normalisations are compared with products of independently modelled responses. "
     "Distinct = (kinds per group, group lists).")

struct Rig
{
  AxisCollection axes;
  std::vector<std::string> dist;
  std::vector<std::unique_ptr<Systematic>> sys;
  std::vector<SysModel> model;
  std::map<std::string, std::vector<size_t>> groups; // indices in the order added
  std::vector<std::string> names;                    // the named groups
};

static size_t newSys(Case &c, Rig &g)
{
  SysModel m;
  // mostly kinds that do not commute with each other
  m.kind = c.r.coin(0.1) ? int(kRenorm) : c.r.coin(0.3) ? int(kShape) : int(c.r.ri(0, kNKinds - 2));
  m.name = cat("s", g.sys.size());
  m.dist = g.dist;
  m.axes = g.axes;
  chooseTrans(c, m);
  std::unique_ptr<Systematic> s(makeSystematic(m.kind, m.name));
  setFunction(c, s.get(), m);
  s->SetAxes(m.axes);
  setObs(s.get(), m);
  setParams(c, s.get(), m);
  g.sys.push_back(std::move(s));
  g.model.push_back(m);
  return g.sys.size() - 1;
}

// one systematic after the other, as plain matrix-vector products
static std::vector<double> applied(const Rig &g, const std::vector<std::string> &list, std::vector<double> x, const std::vector<Mat> &resp)
{
  for (auto &n : list)
    if (g.groups.count(n))
      for (size_t i : g.groups.at(n))
        x = mulv(resp[i], x);
  return x;
}

SCENARIO(groups, 5)
{
  Rig g;
  SysModel tmp;
  chooseDist(c, tmp, 3, 24);
  g.dist = tmp.dist;
  g.axes = tmp.axes;
  g.names = genNames(c.r, int(c.r.few(0, 4, 12)), c.r.coin(0.7) ? "g_" : "");
  if (g.names.size() > 1 && c.r.coin(0.1))
  { // lists of groups that read alike when their names are put one after another
    static const std::vector<std::string> alike[2] = {{"a", "aa", "aaa", "aaaa"}, {"a", "bc", "ab", "c"}};
    const std::vector<std::string> &q = alike[c.r.ri(0, 1)];
    for (size_t k = 0; k < g.names.size() && k < q.size(); ++k)
      g.names[k] = q[k];
    c.count("group names that run together");
  }
  SystematicManager man;
  std::string sig;

  // global ones and ones in groups, in any interleaving
  for (int k = 0, n = int(c.r.few(0, 8, 24, 0.02)); k < n; ++k)
  {
    size_t i = newSys(c, g);
    std::string grp = g.names.empty() || c.r.coin(0.3) ? "" : c.r.pick(g.names);
    if (grp == "" && c.r.coin(0.7))
      man.Add(g.sys[i].get());
    else
      man.Add(g.sys[i].get(), grp);
    g.groups[grp].push_back(i);
    sig += grp + kindName(g.model[i].kind) + " ";
  }
  bool twoGroups = false;
  // the same systematic may belong to two groups that no distribution uses together
  if (g.groups.size() >= 2 && c.r.coin(0.3))
  {
    std::string a = c.r.pick(g.names), b = c.r.pick(g.names);
    if (a != b && g.groups.count(a) && g.groups.count(b))
    {
      size_t i = c.r.pick(g.groups[a]);
      if (std::find(g.groups[b].begin(), g.groups[b].end(), i) == g.groups[b].end())
      {
        man.Add(g.sys[i].get(), b);
        g.groups[b].push_back(i);
        twoGroups = true;
        c.count("systematics in two groups");
        if (c.r.coin())
        { // which is no concern of a global one
          size_t j = newSys(c, g);
          man.Add(g.sys[j].get());
          g.groups[""].push_back(j);
          c.count("globals added afterwards");
        }
      }
    }
  }
  size_t total = 0;
  std::set<std::string> known{""};
  for (auto &q : g.groups)
  {
    total += q.second.size();
    known.insert(q.first);
    std::vector<std::string> want;
    for (size_t i : q.second)
      want.push_back(g.model[i].name);
    check(man.GetSystematicsNamesInGroup(q.first) == want && man.GetGroup(q.first) == want, "group members", str(man.GetGroup(q.first)));
    check(man.GetNSystematicsInGroup(q.first) == q.second.size(), "group size", "");
    for (size_t k = 0; k < q.second.size(); ++k)
      check(man.GetSystematicsInGroup(q.first).at(k) == g.sys[q.second[k]].get(), "group members", "");
  }
  check(man.GetGroupNames() == known && man.GetNGroups() == known.size(), "group names", str(man.GetGroupNames()), " ", man.GetNGroups());
  check(man.GetNSystematics() == total, "count", "");
  check(man.GetGlobalSystematics().size() == g.groups[""].size(), "globals", "");
  if (g.groups[""].empty())
    g.groups.erase("");

  // distributions with their lists
  std::vector<BinnedED> orig;
  std::vector<std::vector<std::string>> order;
  for (int k = 0, n = int(c.r.few(1, 5, 16)); k < n; ++k)
  {
    BinnedED d(cat("pdf", k), genHist(c.r, g.axes));
    if (c.r.coin(0.15))
    { // contents of either sign, perhaps adding up to nothing, or hardly any contents
      std::vector<double> v = d.GetBinContents();
      int kind = int(c.r.ri(0, 3));
      for (size_t i = 0; i < v.size(); ++i)
        v[i] = kind == 0 ? 0 : kind == 1 ? v[i] * 1e-15 : kind == 2 ? (i % 2 ? -v[i - 1] : i + 1 < v.size() ? v[i] : 0) : v[i] * (c.r.coin() ? 1 : -1);
      d.SetBinContents(v);
    }
    d.SetObservables(g.dist);
    std::vector<std::string> usable, list;
    std::set<size_t> used;
    for (auto &n : g.names)
      if (g.groups.count(n))
        usable.push_back(n);
    c.r.shuffle(usable);
    usable.resize(usable.size() ? c.r.ri(0, long(usable.size())) : 0);
    for (auto &n : usable)
    {
      bool clash = false;
      for (size_t i : g.groups[n])
        clash = clash || used.count(i);
      if (clash)
      { // would act twice: refused, and the list stays what it was
        std::vector<std::string> bad = list;
        bad.push_back(n);
        REFUSED("twice", man.AddDist(d, bad));
        continue;
      }
      used.insert(g.groups[n].begin(), g.groups[n].end());
      list.push_back(n);
    }
    std::vector<std::string> ord = list;
    switch (c.r.ri(0, 3))
    {
    case 0: // never registered
      if (list.empty())
      {
        order.push_back({"unregistered"});
        orig.push_back(d);
        sig += "|none";
        continue;
      }
      // fall through
    case 1:
      if (list.empty())
        man.AddDist(d, "");
      else if (list.size() == 1)
        man.AddDist(d, list[0]);
      else
        man.AddDist(d, list);
      break;
    case 2: // without global systematics the global group may be listed anywhere
      if (!g.groups.count(""))
        list.insert(list.begin() + c.r.ri(0, long(list.size())), "");
      man.AddDist(d, list);
      ord = list;
      break;
    default: // registered again with another list: the last one counts
      for (int again = int(c.r.ri(1, 2)); again; --again)
      {
        std::vector<std::string> before;
        if (usable.size() && c.r.coin())
          before.push_back(c.r.pick(usable));
        man.AddDist(d, before);
      }
      if (list.empty() && c.r.coin())
        man.AddDist(d, "");
      else
        man.AddDist(d, list);
      c.count("registered again");
    }
    if (std::find(ord.begin(), ord.end(), "") == ord.end())
      ord.insert(ord.begin(), "");
    order.push_back(ord);
    orig.push_back(d);
    sig += "|" + str(ord);
  }
  if (c.r.coin(0.2))
  { // another of the same name shares its groups
    size_t k = size_t(c.r.ri(0, long(orig.size()) - 1));
    std::vector<double> v = orig[k].GetBinContents();
    c.r.shuffle(v);
    BinnedED d = orig[k];
    d.SetBinContents(v);
    orig.push_back(d);
    order.push_back(order[k]);
    sig += "|same name";
    c.count("distributions of the same name");
  }
  c.sig(sig);
  LOG << sig;

  std::vector<BinnedED> work = orig;
  if (c.r.coin(0.2)) // whatever the working copies were before
    for (auto &w : work)
      w = BinnedED("junk", genHist(c.r, g.axes));
  for (int round = 0, n = int(c.r.ri(1, 4)); round < n; ++round)
  {
    if (round)
      for (size_t i = 0; i < g.sys.size(); ++i)
        if (c.r.coin(0.5))
          setParams(c, g.sys[i].get(), g.model[i]);
    if (round && c.r.coin(0.3)) // another one joins a group
    {
      size_t i = newSys(c, g);
      std::vector<std::string> to;
      for (auto &q : g.groups)
        if (q.first != "")
          to.push_back(q.first);
      if (!twoGroups && c.r.coin(0.3))
        man.Add(g.sys[i].get()), g.groups[""].push_back(i);
      else if (to.size())
      {
        std::string grp = c.r.pick(to);
        man.Add(g.sys[i].get(), grp), g.groups[grp].push_back(i);
      }
      LOG << "now " << kindName(g.model[i].kind) << " joined";
      c.count("joined later");
    }
    if (round && c.r.coin(0.3)) // and a distribution gets other groups
    {
      size_t k = size_t(c.r.ri(0, long(orig.size()) - 1));
      std::vector<std::string> list;
      for (auto &q : g.groups)
        if (q.first != "" && c.r.coin(0.4) && (!twoGroups || list.empty()))
          list.push_back(q.first);
      c.r.shuffle(list);
      man.AddDist(orig[k], list);
      list.insert(list.begin(), "");
      for (size_t q = 0; q < orig.size(); ++q)
        if (orig[q].GetName() == orig[k].GetName())
          order[q] = list;
      c.count("registered anew between rounds");
    }
    std::vector<Mat> resp;
    for (auto &m : g.model)
      resp.push_back(m.response()), LOG << m.name << " " << m.describe();
    man.Construct();
    for (auto &q : g.groups)
    {
      Mat t = zeros(g.axes.GetNBins());
      for (size_t b = 0; b < t.size(); ++b)
      {
        std::vector<double> x(t.size(), 0);
        x[b] = 1;
        x = applied(g, {q.first}, x, resp);
        for (size_t a = 0; a < t.size(); ++a)
          t[a][b] = x[a];
      }
      if (g.axes.GetNBins() <= 12)
        sameMat(man.GetTotalResponse(q.first), t, "total response", q.first, 1e-8);
    }
    std::vector<HistSnap> snaps;
    for (auto &o : orig)
      snaps.push_back(HistSnap(o.GetHistogram()));
    std::vector<double> norms(orig.size(), -5), *pn = c.r.coin() ? &norms : nullptr;
    const SystematicManager &cm = man;
    cm.DistortEDs(orig, work, pn);
    for (size_t k = 0; k < orig.size(); ++k)
    {
      std::vector<double> want = applied(g, order[k], orig[k].GetBinContents(), resp);
      double scale = 0, after = 0; // contents may be of either sign
      for (double x : orig[k].GetBinContents())
        scale += std::fabs(x);
      for (double x : want)
        after += std::fabs(x);
      scale = std::max(scale, after);
      nearv(work[k].GetBinContents(), want, "distorted", 1e-8, scale, "pdf ", k, " with ", str(order[k]), " round ", round);
      if (pn)
        near(norms[k], sum(want), "norm", 1e-8, scale, "pdf ", k, " with ", str(order[k]));
      check(work[k].GetName() == orig[k].GetName() && work[k].GetObservables() == orig[k].GetObservables() &&
                work[k].GetAxes() == orig[k].GetAxes(),
            "identity", "");
      snaps[k].same(orig[k].GetHistogram(), "original", "an original distribution");
      c.count("distortions");
    }
    c.count("rounds");
  }
}

SCENARIO(refusals, 1)
{
  Rig g;
  SysModel tmp;
  chooseDist(c, tmp, 2, 12);
  g.dist = tmp.dist;
  g.axes = tmp.axes;
  SystematicManager man;
  BinnedED d("d", genHist(c.r, g.axes)), e("e", genHist(c.r, g.axes));
  REFUSED("unknown group", man.AddDist(d, "nowhere"));
  REFUSED("unknown group", man.GetTotalResponse("nowhere"));
  REFUSED("unknown group", man.GetNSystematicsInGroup("nowhere"));
  REFUSED("unknown group", man.GetSystematicsNamesInGroup("nowhere"));
  REFUSED("unknown group", man.GetSystematicsInGroup("nowhere"));
  REFUSED("unknown group", man.GetGroup("nowhere"));
  check(man.GetNSystematics() == 0 && man.GetNGroups() == 1 && man.GetGlobalSystematics().empty(), "empty manager", man.GetNGroups());
  size_t a = newSys(c, g), b = newSys(c, g);
  man.Add(g.sys[a].get());
  REFUSED("global twice", man.Add(g.sys[a].get()));
  man.Add(g.sys[b].get(), "g");
  REFUSED("global after group", man.Add(g.sys[b].get()));
  REFUSED("group twice", man.AddDist(d, std::vector<std::string>{"g", "g"}));
  man.Add(g.sys[a].get(), "h"); // it is global already
  REFUSED("global and group", man.AddDist(d, "h"));
  man.AddDist(d, "g");
  REFUSED("unknown group", man.AddDist(d, std::vector<std::string>{"g", "nowhere"}));
  man.AddDist(e, "");
  // after all the refusals: d has g and the global ones, e only the global ones
  man.Construct();
  std::vector<BinnedED> o{d, e}, w = o;
  man.DistortEDs(o, w);
  std::vector<double> g0 = mulv(g.model[a].response(), d.GetBinContents()), w0 = mulv(g.model[b].response(), g0);
  nearv(w[0].GetBinContents(), w0, "after refusals", 1e-8, std::max(sum(g0), sum(w0)));
  nearv(w[1].GetBinContents(), mulv(g.model[a].response(), e.GetBinContents()), "after refusals", 1e-8, sum(e.GetBinContents()));
}

// no systematics at all: distributions are passed through
DIRECTED(nothing)
{
  AxisCollection ac;
  ac.AddAxis(BinAxis("x", 0, 3, 3));
  BinnedED d("d", ac), e("e", ac);
  d.SetBinContents({1, 2, 3});
  e.SetBinContents({5, 0, 1});
  SystematicManager man;
  man.AddDist(d, "");
  man.Construct();
  std::vector<BinnedED> o{d, e}, w{e, d};
  std::vector<double> norms(2, -1);
  man.DistortEDs(o, w, &norms);
  nearv(w[0].GetBinContents(), {1, 2, 3}, "passed through", 0, 0);
  nearv(w[1].GetBinContents(), {5, 0, 1}, "passed through", 0, 0);
  nearv(norms, {6, 6}, "norms", 1e-12, 0);
}
