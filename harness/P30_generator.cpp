// P30: generated data sets.
// OXV_NEEDS_ROOT: random numbers come from TRandom3
#include "gen.h"
#include <BoxCut.h>
#include <CutCollection.h>
#include <DataSetGenerator.h>
#include <LineCut.h>
#include <Rand.h>
using namespace oxv;
PLAN("P30", 12000, 300000,
     "Histories of 1..30 generations (expected rates, Poisson, all valid, all remaining), resets, changes of rates, flags, cuts "
     "and data sets and copies over generators of 1..4 sources of 0..60 events that each carry their own number, with free, "
     "extreme or scripted uniform deviates; requests for more than is left and incomplete set-ups. Drawn, cut and remaining "
     "events are accounted for one by one. Frequencies of every event and the counts of Poisson generations over thousands of draws. "
     "Distinct = (operations, flags).")

namespace
{
struct Source
{
  OXSXDataSet data;
  int id;
};
const std::vector<std::string> theNames{"number", "x", "source", "y"};
struct Model
{
  std::vector<const Source *> src;
  std::vector<std::set<long>> left;
  std::vector<long> next; // the next in sequence, -1: order unknown
  std::vector<double> rates;
  std::vector<bool> boot, seq;
  double cut = -1; // x has to be above
  void fresh()
  {
    left.clear(), next.assign(src.size(), 0);
    for (auto s : src)
    {
      std::set<long> l;
      for (size_t i = 0; i < s->data.GetNEntries(); ++i)
        l.insert(long(i));
      left.push_back(l);
    }
  }
};
double xOf(const Source &s, long n) { return s.data.GetEntry(size_t(n)).GetDatum(size_t(1)); }
// the event has to be one of the source's, as it was stored
long number(const Event &e, const Source &s)
{
  check(e.GetNObservables() == theNames.size() && e.GetObservableNames() == theNames, "names", "an event has the observables ", str(e.GetObservableNames()));
  double n = e.GetDatum("number");
  check(n >= 0 && n < s.data.GetNEntries() && n == std::floor(n), "values", "no event ", n, " in source ", s.id);
  check(e.GetData() == s.data.GetEntry(size_t(n)).GetData(), "values", "event ", n, " of source ", s.id, " became ", str(e.GetData()));
  return long(n);
}
struct World
{
  std::vector<std::unique_ptr<Source>> sources;
  DataSetGenerator g;
  Model m;
};
std::unique_ptr<Source> genSource(Rng &r, int id, long n)
{
  std::unique_ptr<Source> s(new Source);
  s->id = id;
  s->data.SetObservableNames(theNames);
  for (long i = 0; i < n; ++i)
    s->data.AddEntry(Event({double(i), r.uni(), double(id), r.uni(-5, 5)}));
  return s;
}
void script(Rng &r, int kind)
{
  if (kind == 0)
    oxv_shim::rndm_hook() = nullptr;
  else if (kind == 1)
    oxv_shim::rndm_hook() = [] { return 1 - 1e-9; };
  else if (kind == 2)
    oxv_shim::rndm_hook() = [] { return 1e-9; };
  else
  {
    auto s = std::make_shared<Rng>(r.next());
    oxv_shim::rndm_hook() = [s] { return s->coin(0.3) ? 1 - 1e-9 : s->coin(0.3) ? 1e-9 : s->uni(1e-9, 1 - 1e-9); };
  }
}
// all that is left of every source
void remaining(Case &c, DataSetGenerator &g, const Model &m)
{
  for (size_t i = 0; i < m.src.size(); ++i)
  {
    int taken = -5;
    std::unique_ptr<OXSXDataSet> d(g.AllRemainingEvents(i, &taken));
    std::set<long> got;
    for (size_t k = 0; k < d->GetNEntries(); ++k)
      check(got.insert(number(d->GetEntry(k), *m.src[i])).second, "remaining", "an event of source ", i, " remains twice");
    check(got == m.left[i], "remaining", "of source ", i, " remain ", str(got), ", not drawn are ", str(m.left[i]));
    check(taken == int(got.size()), "remaining-count", taken, " reported, ", got.size(), " returned");
    c.count("remaining events", got.size());
  }
}
// accounts for a generated data set
void account(Case &c, DataSetGenerator &g, Model &m, const OXSXDataSet &d, const std::vector<int> &taken, const std::vector<long> *expected, const std::string &how)
{
  size_t at = 0;
  check(taken.size() == m.src.size(), "counts", taken.size(), " counts for ", m.src.size(), " sources");
  check(d.GetObservableNames() == theNames, "names", "the data set has ", str(d.GetObservableNames()));
  for (size_t i = 0; i < m.src.size(); ++i)
  {
    const Source &s = *m.src[i];
    if (expected)
      check(taken[i] == (*expected)[i], "counts", how, ": ", taken[i], " draws of source ", i, ", expected ", (*expected)[i]);
    check(taken[i] >= 0, "counts", taken[i]);
    std::vector<long> got;
    while (at < d.GetNEntries() && d.GetEntry(at).GetDatum(size_t(2)) == s.id)
    {
      long n = number(d.GetEntry(at), s);
      check(xOf(s, n) > m.cut, "cut", "event ", n, " of source ", i, " fails the cut");
      got.push_back(n), ++at;
    }
    c.count("drawn events", got.size());
    if (m.boot[i])
    {
      check(long(got.size()) <= taken[i], "drawn", got.size(), " events in ", taken[i], " draws");
      if (m.cut < 0)
        check(long(got.size()) == taken[i], "drawn", got.size(), " events in ", taken[i], " draws without cuts");
      continue;
    }
    std::set<long> once;
    for (long n : got)
      check(once.insert(n).second && m.left[i].count(n), "replacement", "event ", n, " of source ", i, " was drawn again");
    // the rest of the draws were cut: found among those that are gone now
    int dummy;
    std::unique_ptr<OXSXDataSet> rest(g.AllRemainingEvents(i, &dummy));
    std::set<long> left;
    for (size_t k = 0; k < rest->GetNEntries(); ++k)
      left.insert(number(rest->GetEntry(k), s));
    long cut = 0;
    std::vector<long> gone;
    for (long n : m.left[i])
      if (!left.count(n))
      {
        gone.push_back(n);
        if (!once.count(n))
          check(!(xOf(s, n) > m.cut), "lost", "event ", n, " of source ", i, " passes, is gone and was not returned"), ++cut;
      }
      else
        check(!once.count(n), "lost", "event ", n, " of source ", i, " was drawn and still remains");
    check(left.size() == rest->GetNEntries() && left.size() + gone.size() == m.left[i].size(), "lost", "remaining events of source ", i, " that had been drawn before");
    check(long(got.size()) + cut == taken[i], "drawn", got.size(), " events and ", cut, " cut in ", taken[i], " draws of source ", i);
    if (m.seq[i] && m.next[i] >= 0)
    {
      std::vector<long> want;
      for (long n = m.next[i]; n < m.next[i] + taken[i]; ++n)
        if (xOf(s, n) > m.cut)
          want.push_back(n);
      check(got == want, "sequence", "drew ", str(got), " in sequence, ", str(want), " were next");
      m.next[i] += taken[i];
      c.count("sequences");
    }
    else if (taken[i])
      m.next[i] = -1;
    m.left[i] = left;
  }
  check(at == d.GetNEntries(), "order", "event ", at, " of ", d.GetNEntries(), " is not from the source whose turn it is");
}
} // namespace

SCENARIO(histories, 60)
{
  Rng &r = c.r;
  World w;
  DataSetGenerator &g0 = w.g;
  int ns = int(r.coin(0.08) ? r.ri(5, 12) : r.ri(1, 4));
  for (int i = 0; i < ns; ++i)
    w.sources.push_back(genSource(r, i, r.coin(0.05) ? 0 : r.coin(0.3) ? r.ri(1, 3) : r.ri(1, 60)));
  std::vector<DataSet *> p;
  for (auto &s : w.sources)
    p.push_back(&s->data), w.m.src.push_back(s.get());
  for (int i = 0; i < ns; ++i)
    w.m.rates.push_back(0), w.m.boot.push_back(r.coin(0.3)), w.m.seq.push_back(r.coin());
  std::string ops;
  if (r.coin())
  {
    g0.SetDataSets(p), g0.SetSequentialFlags(w.m.seq), g0.SetExpectedRates(w.m.rates);
    ops = "S";
  }
  else
  {
    for (int i = 0; i < ns; ++i)
      g0.AddDataSet(p[size_t(i)], 0, w.m.seq[size_t(i)]);
    ops = "A";
  }
  g0.SetBootstrap(w.m.boot);
  w.m.fresh();
  check(g0.GetBootstrap() == w.m.boot && g0.GetSequentialFlags() == w.m.seq, "flags", "other flags than were set");
  std::vector<std::pair<DataSetGenerator, Model>> v{{g0, w.m}};
  int kind = r.coin(0.6) ? 0 : int(r.ri(1, 3));
  for (int k = int(r.ri(1, 30)); k > 0; --k)
  {
    size_t i = size_t(r.ri(0, long(v.size()) - 1));
    DataSetGenerator &g = v[i].first;
    Model &m = v[i].second;
    int op = int(r.ri(0, 14));
    ops += char('a' + op);
    script(r, op <= 5 ? kind : 0); // Poisson numbers need free deviates
    switch (op)
    {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4:
    case 5:
    { // at expected rates, within or beyond what is left
      bool over = false;
      std::vector<long> want;
      int which = int(r.ri(0, ns - 1));
      bool tooMany = r.coin(0.2), all = r.coin(0.1);
      for (int s = 0; s < ns; ++s)
      {
        size_t n = m.boot[size_t(s)] ? (m.src[size_t(s)]->data.GetNEntries() ? 70 : 0) : m.left[size_t(s)].size();
        long k = long(all ? n : r.coin(0.5) ? size_t(r.ri(0, long(n))) : size_t(r.ri(0, long(std::min<size_t>(n, 3)))));
        if (tooMany && s == which && !m.boot[size_t(s)])
          k = long(n) + r.ri(1, 3), over = true;
        want.push_back(k);
        m.rates[size_t(s)] = r.coin() ? double(k) : k && r.coin(0.3) ? double(k) - 0.5 : std::max(0.0, double(k) + r.uni(-0.49, 0.49));
      }
      g.SetExpectedRates(m.rates);
      std::vector<int> taken{7, 7};
      if (over)
      {
        REFUSED("too-many", g.ExpectedRatesDataSet(&taken));
        remaining(c, g, m);
        break;
      }
      bool empty = false; // nothing asked of an empty source: either way
      for (int s = 0; s < ns; ++s)
        empty |= !m.src[size_t(s)]->data.GetNEntries();
      try
      {
        OXSXDataSet d = g.ExpectedRatesDataSet(&taken);
        account(c, g, m, d, taken, &want, "expected rates");
        c.count("expected-rate generations");
      }
      catch (const OXSXException &e)
      {
        check(empty, "refused", "refused ", str(want), " : ", e.what());
        remaining(c, g, m);
      }
      break;
    }
    case 6:
    case 7:
    {
      for (int s = 0; s < ns; ++s)
        m.rates[size_t(s)] = r.coin(0.2) ? 0 : r.uni(0, 0.5 * double(m.boot[size_t(s)] ? m.src[size_t(s)]->data.GetNEntries() : m.left[size_t(s)].size()));
      g.SetExpectedRates(m.rates);
      std::vector<int> taken{7, 7};
      try
      {
        OXSXDataSet d = g.PoissonFluctuatedDataSet(&taken);
        account(c, g, m, d, taken, nullptr, "Poisson");
        c.count("Poisson generations");
      }
      catch (const OXSXException &)
      {
        remaining(c, g, m); // fluctuated beyond what is left
      }
      break;
    }
    case 8:
    {
      std::vector<int> taken{7};
      OXSXDataSet d = r.coin(0.2) ? g.AllValidEvents() : g.AllValidEvents(&taken);
      size_t at = 0;
      for (int s = 0; s < ns; ++s)
        for (size_t e = 0; e < m.src[size_t(s)]->data.GetNEntries(); ++e)
          if (xOf(*m.src[size_t(s)], long(e)) > m.cut)
          {
            check(at < d.GetNEntries(), "all-valid", "only ", at, " events");
            check(number(d.GetEntry(at), *m.src[size_t(s)]) == long(e), "all-valid", "event ", at);
            ++at;
          }
      check(at == d.GetNEntries(), "all-valid", d.GetNEntries(), " events, ", at, " pass");
      break;
    }
    case 9:
      remaining(c, g, m);
      break;
    case 10:
      g.Reset(), m.fresh();
      break;
    case 11:
      for (int s = 0; s < ns; ++s)
        m.boot[size_t(s)] = r.coin(0.3), m.seq[size_t(s)] = r.coin();
      g.SetBootstrap(m.boot), g.SetSequentialFlags(m.seq);
      break;
    case 12:
      if (v.size() < 3)
      {
        auto x = v[i];
        v.push_back(x);
      }
      break;
    case 13:
    {
      double x = r.uni(0, 0.8);
      if (x > m.cut)
      {
        LineCut cut(cat("above", x), "x", x, "lower");
        if (r.coin())
          g.AddCut(cut);
        else
        {
          CutCollection cc;
          cc.AddCut(cut);
          g.SetCuts(cc);
        }
        m.cut = x;
      }
      else
        g.SetCuts(CutCollection()), m.cut = -1;
      break;
    }
    case 14:
      switch (r.ri(0, 5))
      {
      case 0:
      {
        std::vector<double> x(m.rates);
        r.coin() ? x.push_back(1) : x.pop_back();
        g.SetExpectedRates(x);
        REFUSED("rates", g.ExpectedRatesDataSet());
        REFUSED("rates", g.PoissonFluctuatedDataSet());
        break;
      }
      case 1:
      {
        std::vector<bool> b(m.boot);
        b.pop_back();
        g.SetBootstrap(b);
        g.SetExpectedRates(m.rates);
        REFUSED("flags", g.ExpectedRatesDataSet());
        REFUSED("flags", g.PoissonFluctuatedDataSet());
        g.SetBootstrap(m.boot);
        break;
      }
      case 2:
        if (!m.boot.back())
        {
          std::vector<bool> b(m.seq);
          b.pop_back();
          g.SetSequentialFlags(b);
          g.SetExpectedRates(m.rates);
          REFUSED("flags", g.ExpectedRatesDataSet());
          REFUSED("flags", g.PoissonFluctuatedDataSet());
          g.SetSequentialFlags(m.seq);
        }
        break;
      case 3:
      {
        std::vector<double> x(m.rates);
        x[size_t(c.r.ri(0, ns - 1))] = c.r.coin() ? -3 : std::nan("");
        g.SetExpectedRates(x);
        REFUSED("negative-rate", g.ExpectedRatesDataSet());
        REFUSED("negative-rate", g.PoissonFluctuatedDataSet());
        break;
      }
      case 4:
      {
        int n;
        REFUSED("no-such-set", g.AllRemainingEvents(size_t(ns), &n));
        break;
      }
      default:
      {
        g.ClearDataSets();
        REFUSED("no-sets", g.ExpectedRatesDataSet());
        REFUSED("no-sets", g.PoissonFluctuatedDataSet());
        REFUSED("no-sets", g.AllValidEvents());
        for (int s = 0; s < ns; ++s)
          g.AddDataSet(p[size_t(s)], 1, m.seq[size_t(s)]);
        m.fresh();
      }
      }
      remaining(c, g, m);
    }
  }
  for (auto &x : v)
    remaining(c, x.first, x.second);
  script(r, 0);
  // nothing was done to the sources
  for (auto &s : w.sources)
    for (size_t e = 0; e < s->data.GetNEntries(); ++e)
      check(s->data.GetEntry(e).GetDatum(size_t(0)) == double(e), "source", "a source was changed");
  c.sig(ops);
}

// every event is as likely as any other
SCENARIO(frequencies, 1)
{
  Rng &r = c.r;
  script(r, 0);
  long n = r.ri(1, 12), k = r.ri(1, n);
  bool boot = r.coin();
  auto s = genSource(r, 0, n);
  DataSetGenerator g;
  g.AddDataSet(&s->data, double(k), false);
  g.SetBootstrap({boot});
  long runs = 1000;
  std::vector<double> seen(size_t(n), 0.0), first(size_t(n), 0.0), last(size_t(n), 0.0);
  for (long i = 0; i < runs; ++i)
  {
    g.Reset();
    OXSXDataSet d = g.ExpectedRatesDataSet();
    for (size_t e = 0; e < d.GetNEntries(); ++e)
      seen[size_t(d.GetEntry(e).GetDatum(size_t(0)))]++;
    first[size_t(d.GetEntry(0).GetDatum(size_t(0)))]++;
    last[size_t(d.GetEntry(d.GetNEntries() - 1).GetDatum(size_t(0)))]++;
  }
  auto uniform = [&](const std::vector<double> &x, double total, const char *what) {
    double p = 1.0 / double(n), mean = total * p, sigma = std::sqrt(total * p * (1 - p)) + 1;
    for (long i = 0; i < n; ++i)
      check(std::fabs(x[size_t(i)] - mean) < 8 * sigma, "frequency", what, " event ", i, " of ", n, " (", k, " draws",
            boot ? " with" : " without", " replacement) came ", x[size_t(i)], " times, expected ", mean, " +- ", sigma);
  };
  uniform(seen, double(runs * k), "any");
  uniform(first, double(runs), "first");
  uniform(last, double(runs), "last");
  c.sig(mix(uint64_t(n * 100 + k)) ^ boot);
}

SCENARIO(poisson_counts, 1)
{
  Rng &r = c.r;
  script(r, 0);
  auto a = genSource(r, 0, 5), b = genSource(r, 1, 7);
  double la = r.uni(0.2, 30), lb = r.uni(0.2, 30);
  DataSetGenerator g;
  g.AddDataSet(&a->data, la, false);
  g.AddDataSet(&b->data, lb, true);
  g.SetBootstrap({true, true});
  long runs = 1500;
  double sa = 0, sb = 0, qa = 0, qb = 0, qab = 0;
  for (long i = 0; i < runs; ++i)
  {
    std::vector<int> t;
    OXSXDataSet d = g.PoissonFluctuatedDataSet(&t);
    check(long(d.GetNEntries()) == t.at(0) + t.at(1), "drawn", d.GetNEntries(), " events in ", t[0], " and ", t[1], " draws");
    sa += t[0], sb += t[1], qa += std::pow(t[0] - la, 2), qb += std::pow(t[1] - lb, 2), qab += (t[0] - la) * (t[1] - lb);
  }
  auto mean = [&](double s, double l) {
    check(std::fabs(s / double(runs) - l) < 8 * std::sqrt(l / double(runs)), "poisson-mean", "mean ", s / double(runs), " of draws at rate ", l);
  };
  auto var = [&](double q, double l) {
    check(std::fabs(q / double(runs) - l) < 9 * std::sqrt((2 * l * l + l) / double(runs)), "poisson-variance", "variance ", q / double(runs), " of draws at rate ", l);
  };
  mean(sa, la), mean(sb, lb), var(qa, la), var(qb, lb);
  check(std::fabs(qab) < 9 * std::sqrt(la * lb * double(runs)), "poisson-correlation", "counts of the sources go together: ", qab / double(runs), " at rates ", la, ", ", lb);
  c.sig(uint64_t(la * 10) * 1000 + uint64_t(lb * 10));
}

// more draws, and more events, than any small counter holds
DIRECTED(many)
{
  Rng &r = c.r;
  script(r, 0);
  for (bool seq : {false, true})
  {
    long n = 90001, k = 40011;
    OXSXDataSet a;
    a.SetObservableNames({"number"});
    for (long i = 0; i < n; ++i)
      a.AddEntry(Event(std::vector<double>{double(i)}));
    DataSetGenerator g;
    g.AddDataSet(&a, double(k), seq);
    g.SetBootstrap({false});
    std::vector<char> seen(size_t(n), 0);
    auto take = [&](const DataSet &d, long want, const char *what) {
      check(long(d.GetNEntries()) == want, "many", what, " gave ", d.GetNEntries(), " events, want ", want);
      for (size_t i = 0; i < d.GetNEntries(); ++i)
      {
        double x = d.GetEntry(i).GetDatum(size_t(0));
        check(x >= 0 && x < double(n) && x == std::floor(x), "many", what, " gave ", x);
        check(!seen[size_t(x)]++, "many", what, " gave event ", x, " again");
      }
      c.count("drawn events", d.GetNEntries());
    };
    for (int q = 0; q < 2; ++q)
    {
      std::vector<int> t;
      OXSXDataSet d = g.ExpectedRatesDataSet(&t);
      check(t.at(0) == k, "many", "took ", t[0]);
      take(d, k, seq ? "sequential drawing" : "drawing");
    }
    int t = 0;
    std::unique_ptr<OXSXDataSet> rest(g.AllRemainingEvents(0, &t));
    check(t == n - 2 * k, "many", "remaining ", t);
    take(*rest, n - 2 * k, "the rest");
  }
}
