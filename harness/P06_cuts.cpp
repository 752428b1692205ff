// P06: cuts select exactly the events they describe, with complete accounting.
#include "gen.h"
#include "oxv.h"
#include <BoolCut.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <LineCut.h>
#include <fstream>
#include <iterator>
#include <unistd.h>
using namespace oxv;
PLAN("P06", 80000, 2000000,
     "Random collections of 0-7 box, boolean and line cuts on random observables, built, copied, assigned and reordered, "
     "run over 1-60 events with values on, one ulp beside and far from every limit; the verdict, the cut credited and "
     "every figure of the cut log are recomputed independently. Distinct = cut list by verdict.")

struct C
{
  int kind; // 0 box 1 bool 2 lower 3 upper
  std::string name, obs;
  double a, b;
  bool pass(double v) const
  {
    switch (kind)
    {
    case 0:
      return v > a && v < b;
    case 1:
      return v == a;
    case 2:
      return v > a;
    default:
      return v < a;
    }
  }
};

static std::unique_ptr<Cut> make(Case &c, const C &m)
{
  if (m.kind == 0)
  {
    if (c.r.coin())
      return std::unique_ptr<Cut>(new BoxCut(m.name, m.obs, m.a, m.b));
    BoxCut *b = new BoxCut(m.name, m.obs, -99, 99);
    b->SetUpperLimit(m.b);
    b->SetLowerLimit(m.a);
    check(b->GetLowerLimit() == m.a && b->GetUpperLimit() == m.b, "limits", "");
    return std::unique_ptr<Cut>(b);
  }
  if (m.kind == 1)
    return std::unique_ptr<Cut>(new BoolCut(m.name, m.obs, m.a));
  std::string side = m.kind == 2 ? "lower" : "upper";
  if (c.r.coin())
    return std::unique_ptr<Cut>(new LineCut(m.name, m.obs, m.a, side));
  LineCut *l = new LineCut(m.name, m.obs, 7, m.kind == 2 ? "upper" : "lower");
  l->SetSidedness(side);
  l->SetCutValue(m.a);
  check(l->GetCutValue() == m.a && l->GetSidedness() == side, "line settings", "");
  try
  {
    l->SetSidedness("sideways");
    fail("sidedness", "accepted");
  }
  catch (const OXSXException &)
  {
  }
  check(l->GetSidedness() == side, "sidedness kept", "");
  return std::unique_ptr<Cut>(l);
}

static std::string file(const std::string &p)
{
  std::ifstream f(p);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

SCENARIO(select, 4)
{
  int no = int(c.r.few(1, 5, 25));
  std::vector<std::string> names = genNames(c.r, no);
  int nc = c.r.coin(0.1) ? int(c.r.ri(8, 40)) : int(c.r.ri(0, 7));
  // with many cuts most of them are loose, so that late ones are reached
  double loose = nc > 7 ? 30 : 0;
  std::vector<C> m;
  std::vector<double> special = {0, 1};
  for (int i = 0; i < nc; ++i)
  {
    C k;
    k.kind = int(c.r.ri(0, 3));
    k.name = i && c.r.coin(0.1) ? c.r.pick(m).name : cat("cut", i); // names need not differ
    k.obs = c.r.pick(names);
    k.a = c.r.value(-3, 3) - (k.kind == 3 ? -loose : loose);
    k.b = loose && c.r.coin(0.9) ? 20 + c.r.uni(0, 9) : c.r.coin(0.1) ? k.a : c.r.coin(0.15) ? k.a - c.r.uni(0, 3) : k.a + c.r.uni(0, 5); // nothing lies between swapped limits
    if (k.kind == 1 && loose)
      k.kind = 2;
    if (k.kind == 1)
      k.a = double(c.r.ri(0, 1));
    if (loose && c.r.coin(0.1)) // and a few cut into the values
      k.a = c.r.value(-3, 3);
    special.push_back(k.a);
    special.push_back(k.b);
    m.push_back(k);
    LOG << k.name << " kind " << k.kind << " on " << k.obs << " " << k.a << " " << k.b;
  }
  CutCollection built;
  {
    std::vector<std::unique_ptr<Cut>> keep;
    for (auto &k : m)
    {
      keep.push_back(make(c, k));
      check(keep.back()->GetName() == k.name, "name", k.name);
      if (c.r.coin(0.3))
      {
        std::unique_ptr<Cut> cl(keep.back()->Clone());
        built.AddCut(*cl);
        check(cl->GetName() == k.name, "clone name", k.name);
      }
      else
        built.AddCut(*keep.back());
    }
  } // originals are gone: the collection must hold its own
  CutCollection cuts(built);
  if (c.r.coin())
  {
    CutCollection junk;
    junk.AddCut(BoolCut("junk", names[0], 12345));
    junk = built;
    built.AddCut(BoolCut("junk", names[0], 12345));
    cuts = junk;
  }
  if (c.r.coin(0.3))
  {
    CutCollection &alias = cuts;
    cuts = alias;
  }
  std::vector<std::string> want;
  for (auto &k : m)
    want.push_back(k.name);
  check(cuts.GetCutNames() == want, "cut names", str(cuts.GetCutNames()));
  // the same cuts in another order
  std::vector<C> shuffled = m;
  c.r.shuffle(shuffled);
  CutCollection other;
  for (auto &k : shuffled)
    other.AddCut(*make(c, k));
  // the same observables under other columns, as in another data set
  std::vector<std::string> moved = names;
  c.r.shuffle(moved);
  if (c.r.coin())
    moved.insert(moved.begin() + c.r.ri(0, no), "spectator");
  double swaps = c.r.coin(0.7) ? 0 : c.r.uni(0, 1);
  CutLog log(cuts.GetCutNames());
  std::vector<int> counts(nc, 0);
  int total = 0;
  int ne = int(c.r.few(1, 60, 500, 0.01));
  for (int i = 0; i < ne; ++i)
  {
    std::vector<double> v;
    for (int k = 0; k < no; ++k)
    {
      double x = c.r.pick(special);
      switch (c.r.ri(0, 3))
      {
      case 0:
        x = std::nextafter(x, 1e9);
        break;
      case 1:
        x = std::nextafter(x, -1e9);
        break;
      case 2:
        x = c.r.value(-8, 8);
      }
      if (c.r.coin(0.02))
        x = std::numeric_limits<double>::quiet_NaN();
      v.push_back(x);
    }
    Event e = makeEvent(v, &names);
    if (swaps && c.r.coin(swaps))
    {
      std::vector<double> w;
      for (auto &n : moved)
        w.push_back(n == "spectator" ? c.r.uni(-8, 8) : v[pos(names, n)]);
      e = makeEvent(w, &moved);
      c.count("events with other columns");
    }
    int first = -1;
    for (int k = 0; k < nc && first < 0; ++k)
      if (!m[k].pass(v[pos(names, m[k].obs)]))
        first = k;
    bool w = first < 0;
    check(cuts.PassesCuts(e) == w, "verdict", "event ", str(v), " want ", w, " first failing ", first);
    check(cuts.PassesCuts(e) == w, "verdict again", "");
    check(other.PassesCuts(e) == w, "order", "verdict depends on the order of cuts");
    check(cuts.PassesCuts(e, log) == w, "logged verdict", "");
    if (!w)
      ++counts[first];
    ++total;
    c.count(w ? "events passing" : "events cut");
    c.sig(cat(nc, ",", first, ",", nc ? m[0].kind : 9, no));
    if (c.r.coin(0.2) || i + 1 == ne)
    {
      check(log.GetCutCounts() == counts, "counts", str(log.GetCutCounts()), " want ", str(counts));
      log.CalculateMeta();
      std::vector<int> rem;
      std::vector<double> cp, rp;
      int left = total;
      for (int k = 0; k < nc; ++k)
      {
        left -= counts[k];
        rem.push_back(left);
        cp.push_back(100.0 * counts[k] / total);
        rp.push_back(100.0 * left / total);
      }
      check(log.GetRemainderCounts() == rem, "remainders", str(log.GetRemainderCounts()), " want ", str(rem));
      nearv(log.GetCutPercentages(), cp, "percentages", 1e-9, 100, "");
      nearv(log.GetRemainderPercentages(), rp, "remainder percentages", 1e-9, 100, "");
      check(log.GetCutNames() == want, "log names", "");
    }
  }
  // printed form: one line per cut with its four figures
  std::istringstream in(c.r.coin(0.3) ? printed([&] { log.Print(); }) : log.AsString());
  std::string line;
  if (nc)
  {
    std::getline(in, line);
    int left = total;
    for (int k = 0; k < nc; ++k)
    {
      check(bool(std::getline(in, line)), "print", "line missing");
      std::istringstream ls(line);
      std::string n;
      double a = -1, b = -1, d = -1, e = -1;
      ls >> n >> a >> b >> d >> e;
      left -= counts[k];
      check(n == m[k].name && a == counts[k] && d == left, "printed counts", line);
      near(b, 100.0 * counts[k] / total, "printed percentage", 6e-3, 0, line);
      near(e, 100.0 * left / total, "printed percentage", 6e-3, 0, line);
    }
    check(!std::getline(in, line) || line.empty(), "print", "extra line ", line);
  }
  if (c.r.coin(0.05))
  {
    char dir[] = "/tmp/oxvP06XXXXXX";
    check(mkdtemp(dir) != nullptr, "setup", "mkdtemp");
    std::string p = std::string(dir) + "/log.txt";
    log.SaveAs("my title", p);
    std::string txt = file(p);
    unlink(p.c_str());
    rmdir(dir);
    check(txt.find("my title") != std::string::npos && txt.find(log.AsString()) != std::string::npos, "saved log", txt);
    REFUSED("unwritable log", log.SaveAs("t", std::string(dir) + "/nosuch/log.txt"));
    c.count("logs saved");
  }
}

SCENARIO(refusals, 1)
{
  std::vector<std::string> names = genNames(c.r, 2);
  Event e = makeEvent({0.5, 0.5}, &names);
  CutCollection cc;
  cc.AddCut(BoxCut("ok", names[0], 0, 1));
  cc.AddCut(*make(c, C{int(c.r.ri(0, 3)), "bad", "nosuch", 0, 1}));
  REFUSED("unknown observable", cc.PassesCuts(e));
  CutLog log(cc.GetCutNames());
  REFUSED("unknown observable", cc.PassesCuts(e, log));
  check(log.GetCutCounts() == std::vector<int>({0, 0}), "no count", "");
  REFUSED("no such cut", log.LogCut(2));
  REFUSED("no such cut", log.LogCut(size_t(-1)));
  REFUSED("bad side", LineCut("n", "o", 1, "Upper"));
  log.LogCut(1);
  log.LogPass();
  log.CalculateMeta();
  check(log.GetCutCounts() == std::vector<int>({0, 1}) && log.GetRemainderCounts() == std::vector<int>({2, 1}), "after refusals", "");
  CutCollection none;
  check(none.PassesCuts(e) && none.GetCutNames().empty(), "no cuts", "");
  c.sig(c.r.next() % 4);
}

// many more events than any small counter holds
DIRECTED(many)
{
  CutCollection cuts;
  cuts.AddCut(LineCut("first", "x", 0, "lower"));
  cuts.AddCut(BoolCut("second", "y", 1));
  CutLog log(cuts.GetCutNames());
  std::vector<std::string> names{"x", "y"};
  int n = 200003, first = 0, second = 0;
  for (int i = 0; i < n; ++i)
  {
    bool a = i % 3 != 0, b = i % 7 != 0;
    cuts.PassesCuts(makeEvent({a ? 1. : -1., b ? 1. : 0.}, &names), log);
    first += !a;
    second += a && !b;
  }
  log.CalculateMeta();
  check(log.GetCutCounts() == std::vector<int>({first, second}), "counts", str(log.GetCutCounts()));
  check(log.GetRemainderCounts() == std::vector<int>({n - first, n - first - second}), "remainders", str(log.GetRemainderCounts()));
  nearv(log.GetCutPercentages(), {100. * first / n, 100. * second / n}, "percentages", 1e-9, 100, "");
  nearv(log.GetRemainderPercentages(), {100. * (n - first) / n, 100. * (n - first - second) / n}, "remainder percentages", 1e-9, 100, "");
}
