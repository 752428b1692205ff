// P05: events and data sets return exactly the stored values under the right names.
#include "gen.h"
#include "oxv.h"
using namespace oxv;
PLAN("P05", 20000, 500000,
     "Random data sets (1-8 observables, 0-60 entries, special values included) built by interleaved appends, copies, "
     "concatenations in any nesting, reservations and destruction of operands; every entry is then read by index, by "
     "name, as a map and as an observable set in any order, against a plain table. Distinct = shape by operation.")

struct Table
{
  std::vector<std::string> names;
  std::vector<std::vector<double>> rows;
};

static double anyValue(Rng &r)
{
  switch (r.ri(0, 9))
  {
  case 0:
    return std::numeric_limits<double>::infinity();
  case 1:
    return -std::numeric_limits<double>::max();
  case 2:
    return std::numeric_limits<double>::denorm_min();
  case 3:
    return -0.0;
  default:
    return r.value(-1e3, 1e3);
  }
}

static bool same(const std::vector<double> &a, const std::vector<double> &b)
{
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

static void verify(Case &c, const OXSXDataSet &d, const Table &t, const std::string &op)
{
  check(d.GetNEntries() == t.rows.size(), "entries", d.GetNEntries(), " want ", t.rows.size(), " after ", op);
  check(d.GetObservableNames() == t.names, "names", str(d.GetObservableNames()), " after ", op);
  if (!t.rows.empty())
    check(d.GetNObservables() == t.names.size(), "observables", d.GetNObservables(), " after ", op);
  for (size_t i = 0; i < t.rows.size(); ++i)
  {
    Event e = d.GetEntry(i);
    check(same(e.GetData(), t.rows[i]), "entry", i, " ", str(e.GetData()), " want ", str(t.rows[i]), " after ", op);
    check(e.GetNObservables() == t.names.size(), "event size", "");
    check(e.GetObservableNames() == t.names, "event names", str(e.GetObservableNames()), " after ", op);
    for (size_t k = 0; k < t.names.size(); ++k)
      check(same({e.GetDatum(t.names[k])}, {t.rows[i][k]}) && same({e.GetDatum(k)}, {t.rows[i][k]}), "datum", t.names[k],
            " of entry ", i, " after ", op);
    std::map<std::string, double> m = e.GetDataMap();
    check(m.size() == t.names.size(), "map size", m.size());
    for (size_t k = 0; k < t.names.size(); ++k)
      check(m.count(t.names[k]) && same({m[t.names[k]]}, {t.rows[i][k]}), "map", t.names[k]);
    std::vector<std::string> sub = subset(c.r, t.names, c.r.ri(1, t.names.size()));
    if (c.r.coin(0.2))
      sub.push_back(sub[0]);
    std::vector<double> want;
    for (auto &n : sub)
      want.push_back(t.rows[i][pos(t.names, n)]);
    check(same(e.ToObsSet(ObsSet(sub)), want), "obs set", str(sub), " after ", op);
    c.count("entries read");
  }
  REFUSED("past the end", d.GetEntry(t.rows.size()));
}

SCENARIO(history, 4)
{
  int no = int(c.r.ri(1, c.r.coin(0.1) ? 40 : 8));
  Table t;
  t.names = genNames(c.r, no);
  std::unique_ptr<OXSXDataSet> d(new OXSXDataSet);
  bool late = c.r.coin(0.2);
  if (!late)
    d->SetObservableNames(t.names);
  if (c.r.coin(0.3))
    d->Reserve(int(c.r.ri(0, 40)));
  LOG << no << " observables" << (late ? ", names set last" : "");
  auto row = [&]() {
    std::vector<double> v;
    for (int k = 0; k < no; ++k)
      v.push_back(anyValue(c.r));
    return v;
  };
  int steps = int(c.r.ri(0, 12));
  for (int s = 0; s < steps; ++s)
  {
    std::string op;
    switch (c.r.ri(0, 7))
    {
    case 0:
    case 1:
    {
      int n = int(c.r.ri(1, 8));
      op = cat("append ", n);
      for (int i = 0; i < n; ++i)
      {
        std::vector<double> v = row();
        d->AddEntry(Event(v));
        t.rows.push_back(v);
      }
      break;
    }
    case 2:
    {
      op = "refused append";
      if (t.rows.empty())
        break;
      std::vector<double> v = row();
      if (c.r.coin())
        v.push_back(1);
      else
        v.pop_back();
      REFUSED("wrong length", d->AddEntry(Event(v)));
      break;
    }
    case 3: // take a copy, destroy the original
    {
      op = "copy";
      std::unique_ptr<OXSXDataSet> e(new OXSXDataSet(*d));
      d.reset();
      d = std::move(e);
      break;
    }
    case 4: // assign over something else
    {
      op = "assign";
      std::unique_ptr<OXSXDataSet> e(new OXSXDataSet);
      e->SetObservableNames({"junk"});
      e->AddEntry(Event({1}));
      *e = *d;
      d->SetObservableNames({"gone"});
      d.reset();
      d = std::move(e);
      break;
    }
    case 5:
    case 6: // concatenate
    {
      op = "concatenate";
      Table u;
      u.names = t.names;
      std::unique_ptr<OXSXDataSet> o(new OXSXDataSet);
      o->SetObservableNames(u.names);
      for (int i = 0, n = int(c.r.ri(0, 6)); i < n; ++i)
      {
        u.rows.push_back(row());
        o->AddEntry(Event(u.rows.back()));
      }
      bool left = c.r.coin();
      if (late)
        left = false; // the result takes the left operand's names
      if (late)
        d->SetObservableNames(t.names), late = false, left = c.r.coin();
      OXSXDataSet sum = left ? (*o + *d) : (*d + *o);
      verify(c, *d, t, "being an operand");
      verify(c, *o, u, "being an operand");
      Table both;
      both.names = t.names;
      both.rows = left ? u.rows : t.rows;
      both.rows.insert(both.rows.end(), (left ? t : u).rows.begin(), (left ? t : u).rows.end());
      o.reset();
      d.reset(new OXSXDataSet(sum));
      t = both;
      verify(c, sum, both, op);
      break;
    }
    case 7:
    {
      op = "double";
      if (t.rows.size() > 30)
        break;
      if (late)
        d->SetObservableNames(t.names), late = false;
      OXSXDataSet sum = *d + *d;
      Table both = t;
      both.rows.insert(both.rows.end(), t.rows.begin(), t.rows.end());
      verify(c, *d, t, "being both operands");
      verify(c, sum, both, op);
      break;
    }
    }
    LOG << op;
    if (!late)
      verify(c, *d, t, op);
    c.count("operations");
    c.sig(cat(op, no, ",", t.rows.size()));
  }
  d->SetObservableNames(t.names);
  verify(c, *d, t, "naming");
  // names are replaced whatever their number, and name the values in their order
  std::vector<std::string> other = t.names;
  c.r.shuffle(other);
  other[0] = "another";
  if (c.r.coin(0.4))
    other.resize(c.r.ri(1, long(other.size())));
  else if (c.r.coin(0.3))
    other.push_back("onemore");
  d->SetObservableNames(other);
  check(d->GetObservableNames() == other, "renamed", str(d->GetObservableNames()), " want ", str(other));
  if (!t.rows.empty())
  {
    size_t i = c.r.ri(0, long(t.rows.size()) - 1);
    Event e = d->GetEntry(i);
    check(e.GetObservableNames() == other, "renamed", "of an entry");
    for (size_t k = 0; k < other.size() && k < t.rows[i].size(); ++k)
      check(same({e.GetDatum(other[k])}, {t.rows[i][k]}), "renamed value", other[k]);
    for (auto &x : t.names)
      if (std::find(other.begin(), other.end(), x) == other.end())
        REFUSED("a name it had before", e.GetDatum(x));
  }
  d->SetObservableNames(t.names);
  verify(c, *d, t, "naming again");
}

// one event on its own: set by name and index, read back, nothing else changes
SCENARIO(event, 2)
{
  int no = int(c.r.ri(1, c.r.coin(0.1) ? 40 : 8));
  std::vector<std::string> names = genNames(c.r, no);
  std::vector<double> v;
  for (int i = 0; i < no; ++i)
    v.push_back(anyValue(c.r));
  Event e(v);
  REFUSED("unnamed", e.GetObservableNames());
  REFUSED("unnamed read", e.GetDatum(names[0]));
  REFUSED("unnamed write", e.SetDatum(names[0], 1));
  REFUSED("unnamed map", e.GetDataMap());
  e.SetObservableNames(&names);
  for (int s = 0; s < 20; ++s)
  {
    size_t k = c.r.ri(0, no - 1);
    double x = anyValue(c.r);
    Event keep(e);
    if (c.r.coin())
      e.SetDatum(k, x);
    else
      e.SetDatum(names[k], x);
    check(same(keep.GetData(), v), "copy", "changed with the original");
    v[k] = x;
    check(same(e.GetData(), v), "set", k);
    check(same({e.GetDatum(k)}, {x}) && same({e.GetDatum(names[k])}, {x}), "get", k);
  }
  REFUSED("get index", e.GetDatum(size_t(no)));
  REFUSED("set index", e.SetDatum(size_t(no), 1));
  REFUSED("set far index", e.SetDatum(size_t(-1), 1));
  REFUSED("get name", e.GetDatum("nosuch"));
  REFUSED("set name", e.SetDatum("nosuch", 1));
  REFUSED("obs set", e.ToObsSet(ObsSet("nosuch")));
  std::vector<std::string> partial = names;
  partial.push_back("nosuch");
  REFUSED("obs set part", e.ToObsSet(ObsSet(partial)));
  check(same(e.GetData(), v), "refusals", "changed the event");
  // more names than values, fewer names than values
  std::vector<std::string> more = names;
  more.push_back("extra");
  e.SetObservableNames(&more);
  REFUSED("more names", e.GetDatum("extra"));
  REFUSED("more names map", e.GetDataMap());
  c.sig(cat("e", no));
}

// observable sets: order, indices, relative indices, comparison
SCENARIO(obsset, 2)
{
  int n = int(c.r.ri(1, c.r.coin(0.1) ? 40 : 9));
  std::vector<std::string> names = genNames(c.r, n);
  ObsSet big(names);
  check(big.GetNames() == names && big.GetNObservables() == size_t(n), "names", "");
  for (int i = 0; i < n; ++i)
    check(big.GetIndex(names[i]) == size_t(i), "index", i);
  std::vector<std::string> sub = subset(c.r, names, c.r.ri(1, n));
  ObsSet small(sub);
  std::vector<size_t> rel = small.GetRelativeIndices(big), want;
  for (auto &x : sub)
    want.push_back(pos(names, x));
  check(rel == want, "relative", str(rel), " want ", str(want));
  if (sub.size() < names.size())
  {
    REFUSED("bigger in smaller", big.GetRelativeIndices(small));
    check(small != big && !(small == big), "compare", "");
  }
  check(ObsSet(names) == big && !(ObsSet(names) != big), "equal", "");
  if (n > 1)
  {
    std::vector<std::string> rot(names.begin() + 1, names.end());
    rot.push_back(names[0]);
    check(ObsSet(rot) != big, "order matters", "");
  }
  check(ObsSet(names[0]) == ObsSet(std::vector<std::string>(1, names[0])), "single", "");
  small.SetNames(names);
  check(small == big, "reset", "");
  for (int i = 0; i < n; ++i)
    check(small.GetIndex(names[i]) == size_t(i), "reset index", i);
  // renamed: only the new names are known
  std::vector<std::string> renamed;
  for (int i = 0, k = c.r.coin(0.7) ? n : int(c.r.ri(1, n + 3)); i < k; ++i)
    renamed.push_back(i < n && c.r.coin(0.4) ? names[n - 1 - i] : cat("new", i));
  small.SetNames(renamed);
  check(small.GetNames() == renamed && small.GetNObservables() == renamed.size(), "renamed", "");
  for (size_t i = 0; i < renamed.size(); ++i)
    check(small.GetIndex(renamed[i]) == i, "renamed index", i);
  for (auto &x : names)
    if (std::find(renamed.begin(), renamed.end(), x) == renamed.end())
      REFUSED("a name it had before", small.GetIndex(x));
  ObsSet cp(big);
  big.SetNames({"other"});
  check(cp.GetNames() == names, "copy", "");
  try
  {
    big.GetIndex(names[0] + "?");
    fail("unknown index", "accepted");
  }
  catch (const std::exception &)
  {
  }
  c.sig(cat("o", n, sub.size()));
}

// more entries than any small counter holds
DIRECTED(many)
{
  OXSXDataSet a, b;
  a.SetObservableNames({"x", "y"});
  b.SetObservableNames({"x", "y"});
  int na = 70001, nb = 66007;
  a.Reserve(10);
  for (int i = 0; i < na; ++i)
    a.AddEntry(Event({double(i), -0.5 * i}));
  for (int i = 0; i < nb; ++i)
    b.AddEntry(Event({1e7 + i, 0.25 * i}));
  auto verify = [&](const OXSXDataSet &d, int n, int from, bool isA)
  {
    for (int i = 0; i < n; ++i)
    {
      Event e = d.GetEntry(size_t(from + i));
      check(e.GetDatum("x") == (isA ? double(i) : 1e7 + i) && e.GetDatum("y") == (isA ? -0.5 * i : 0.25 * i), "values", "entry ", from + i);
    }
  };
  for (int k = 0; k < 2; ++k)
  {
    OXSXDataSet s = k ? b + a : a + b;
    check(s.GetNEntries() == unsigned(na + nb), "number", s.GetNEntries());
    verify(s, na, k ? nb : 0, true);
    verify(s, nb, k ? 0 : na, false);
    REFUSED("past the end", s.GetEntry(size_t(na + nb)));
  }
  check(a.GetNEntries() == unsigned(na) && b.GetNEntries() == unsigned(nb), "operands", "");
  verify(a, na, 0, true);
  verify(b, nb, 0, false);
}
