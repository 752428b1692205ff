// P32: counting experiments.
// OXV_NEEDS_ROOT
#include "gen.h"
#include <BoolCut.h>
#include <BoxCut.h>
#include <CountingExperiment.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <LineCut.h>
#include <fstream>
#include <iostream>
#include <iterator>
#include <unistd.h>
using namespace oxv;
PLAN("P32", 48000, 1200000,
     "Histories of 2..14 steps (cuts, systematics, backgrounds and signals added, parameters moved, data, backgrounds and signal "
     "counted and counted again, experiments copied) over samples of 0..60 events with values on and beside the cuts; every number of the "
     "result, its totals and every line of the printed summary against a plain count. Distinct = (steps, cuts, systematics).")

namespace
{
const std::vector<std::string> theNames{"a", "b", "c"};
struct Cu
{
  std::string name;
  int kind;
  size_t obs;
  double x, y;
  bool pass(double v) const { return kind == 0 ? v > x && v < y : kind == 1 ? v == x : kind == 2 ? v > x : v < x; }
};
struct Sy
{
  int kind;
  size_t obs, in;
  double p;
  std::shared_ptr<EventSystematic> s;
  double value(const std::vector<double> &v) const { return kind == 0 ? v[obs] * p : kind == 1 ? v[obs] + p : v[in] + p * (v[obs] - v[in]); }
};
struct Counted
{
  long pass = 0, n = 0;
  std::vector<long> cut;
  bool done = false;
};
struct Bg
{
  const OXSXDataSet *d;
  double rate;
  std::string name;
};
struct Exp
{
  CountingExperiment e;
  std::vector<Cu> cuts;
  std::vector<std::string> logNames;
  std::vector<std::shared_ptr<Sy>> sys;
  std::vector<Bg> bgs;
  const OXSXDataSet *signal = nullptr;
  std::string signalName, countedSignal;
  // as last counted
  Counted data, sig;
  std::vector<Counted> bg;
  std::vector<Bg> countedBgs;
  std::vector<Cu> dataCuts, sigCuts, bgCuts;
};
Counted countIn(const OXSXDataSet &d, const Exp &e)
{
  Counted o;
  o.done = true;
  o.cut.assign(e.cuts.size(), 0);
  std::vector<std::string> columns = d.GetObservableNames();
  for (size_t i = 0; i < d.GetNEntries(); ++i)
  {
    std::vector<double> row = d.GetEntry(i).GetData(), v;
    for (auto &n : theNames)
      v.push_back(row[pos(columns, n)]);
    for (auto &s : e.sys)
      v[s->obs] = s->value(v);
    bool ok = true;
    for (size_t k = 0; k < e.cuts.size() && ok; ++k)
      if (!e.cuts[k].pass(v[e.cuts[k].obs]))
        ok = false, o.cut[k]++;
    o.pass += ok;
    o.n++;
  }
  return o;
}
std::unique_ptr<OXSXDataSet> genData(Rng &r, long n)
{
  std::unique_ptr<OXSXDataSet> d(new OXSXDataSet);
  std::vector<std::string> columns = theNames;
  if (r.coin(0.4))
  { // each sample has its own columns
    if (r.coin())
      columns.push_back("other");
    r.shuffle(columns);
  }
  d->SetObservableNames(columns);
  for (long i = 0; i < n; ++i)
  {
    std::vector<double> v;
    for (size_t k = 0; k < columns.size(); ++k)
      v.push_back(r.coin() ? double(r.ri(-4, 4)) / 2 : r.uni(-2, 2));
    d->AddEntry(Event(v));
  }
  return d;
}
std::vector<std::string> words(const std::string &l)
{
  std::istringstream i(l);
  return {std::istream_iterator<std::string>(i), std::istream_iterator<std::string>()};
}
bool printed(const std::string &w, double v, double digits = 5e-6)
{
  char *end = nullptr;
  double x = std::strtod(w.c_str(), &end);
  return !w.empty() && !*end && std::fabs(x - v) <= digits * std::fabs(v) + 1e-12;
}
void block(const std::vector<std::string> &lines, size_t &at, const Counted &n, const std::vector<Cu> &cuts, const std::string &what)
{
  if (!n.done || cuts.empty())
    return;
  while (at < lines.size() && (words(lines[at]).empty() || words(lines[at])[0] != "Cut"))
    ++at;
  long left = n.n;
  for (size_t i = 0; i < cuts.size(); ++i)
  {
    ++at;
    check(at < lines.size(), "summary-log", what, " has no line for cut ", i);
    auto w = words(lines[at]);
    left -= n.cut[i];
    check(w.size() == 5 && w[0] == cuts[i].name, "summary-log", what, ": ", lines[at]);
    check(printed(w[1], double(n.cut[i])) && printed(w[3], double(left)), "summary-log", what, ": ", lines[at], " for ", n.cut[i], " cut and ", left, " left");
    if (n.n)
      check(printed(w[2], 100.0 * double(n.cut[i]) / double(n.n), 6e-3) && printed(w[4], 100.0 * double(left) / double(n.n), 6e-3), "summary-log", what, ": ", lines[at]);
  }
}
void summary(Case &c, const std::string &text, const Exp &x, const CountingResult &res)
{
  std::vector<std::string> lines;
  std::istringstream in(text);
  for (std::string l; std::getline(in, l);)
    lines.push_back(l);
  size_t at = 0;
  for (size_t i = 0; i < x.bg.size(); ++i)
  {
    while (at < lines.size() && (words(lines[at]).empty() || words(lines[at])[0] != x.countedBgs[i].name))
      ++at;
    check(at < lines.size(), "summary-log", "no log for background ", x.countedBgs[i].name);
    block(lines, at, x.bg[i], x.bgCuts, x.countedBgs[i].name);
  }
  while (at < lines.size() && lines[at].find("Signal---") == std::string::npos)
    ++at;
  check(at < lines.size(), "summary", "no signal");
  block(lines, at, x.sig, x.sigCuts, "signal");
  while (at < lines.size() && lines[at].find("Test:---") == std::string::npos)
    ++at;
  check(at < lines.size(), "summary", "no test data");
  block(lines, at, x.data, x.dataCuts, "data");
  while (at < lines.size() && lines[at].find("Summary:---") == std::string::npos)
    ++at;
  check(at < lines.size(), "summary", "no summary");
  // one line per background, the largest first
  while (at < lines.size() && (words(lines[at]).empty() || words(lines[at])[0] != "Background"))
    ++at;
  ++at;
  std::vector<bool> used(x.bg.size(), false);
  double last = std::numeric_limits<double>::infinity();
  for (size_t i = 0; i < x.bg.size(); ++i, ++at)
  {
    check(at < lines.size(), "summary", "too few backgrounds");
    auto w = words(lines[at]);
    bool found = false;
    for (size_t k = 0; k < x.bg.size() && !found; ++k)
      if (!used[k] && w.size() == 4 && w[0] == x.countedBgs[k].name && printed(w[1], res.GetExpectedRates().at(k)) && w[2] == "+-" &&
          printed(w[3], res.GetExpectedRateErrors().at(k)))
        used[k] = found = true;
    check(found, "summary-background", "no background with: ", lines[at]);
    double v = std::strtod(w[1].c_str(), nullptr);
    check(v <= last * (1 + 1e-5) + 1e-12, "summary-order", lines[at], " after ", last);
    last = v;
  }
  bool total = false, eff = false, obs = false;
  for (; at < lines.size(); ++at)
  {
    auto w = words(lines[at]);
    if (w.empty())
      continue;
    if (w[0].substr(0, 5) == "Total")
      total = w.size() >= 4 && printed(w[w.size() - 3], res.GetExpectedCounts()) && printed(w.back(), res.GetExpectedCountError());
    else if (w[0] == "Signal")
      eff = printed(w.back(), res.GetSignalEfficiency());
    else if (w[0].substr(0, 8) == "Observed")
      obs = printed(w.back(), res.GetObservedCounts());
  }
  check(total, "summary-total", "the total isn't ", res.GetExpectedCounts(), " +- ", res.GetExpectedCountError(), " in ", text);
  check(eff, "summary-efficiency", "the efficiency isn't ", res.GetSignalEfficiency(), " in ", text);
  check(obs, "summary-observed", "the observed counts aren't ", res.GetObservedCounts(), " in ", text);
  c.count("summaries");
}
struct Quiet
{ // the library prints background names
  std::ostringstream o;
  std::streambuf *b;
  Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};
void verify(Case &c, Exp &x)
{
  CountingResult res = x.e.GetCountingResult();
  check(res.GetObservedCounts() == (x.data.done ? x.data.pass : -1), "observed", res.GetObservedCounts(), " observed, ", x.data.pass, " pass");
  if (x.sig.done)
    near(res.GetSignalEfficiency(), double(x.sig.pass) / double(x.sig.n), "efficiency", 1e-12, 0, x.sig.pass, " of ", x.sig.n);
  else
    check(res.GetSignalEfficiency() == -1, "efficiency", "before counting: ", res.GetSignalEfficiency());
  std::vector<double> rates, errors;
  double total = 0, sq = 0;
  for (size_t i = 0; i < x.bg.size(); ++i)
  {
    double n = double(x.bg[i].n), k = double(x.bg[i].pass), rate = x.countedBgs[i].rate;
    rates.push_back(rate * k / n), errors.push_back(rate * std::sqrt(k) / n);
    total += rates.back(), sq += errors.back() * errors.back();
  }
  nearv(res.GetExpectedRates(), rates, "background", 1e-12, 0, "expectations");
  nearv(res.GetExpectedRateErrors(), errors, "background-error", 1e-12, 0, "errors");
  near(res.GetExpectedCounts(), total, "total", 1e-12, 0, "expected counts");
  near(res.GetExpectedCountError(), std::sqrt(sq), "total-error", 1e-12, 0, "error of the expected counts");
  std::string text = res.AsString();
  summary(c, text, x, res);
  if (c.r.coin(0.15))
  {
    Quiet q;
    res.Print();
    check(q.o.str() == text + "\n", "print", "printed something else");
  }
  if (c.r.coin(0.1))
  {
    std::string f = cat("oxv_p32_", getpid(), ".txt");
    res.SaveAs(f);
    std::ifstream in(f);
    std::string got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    unlink(f.c_str());
    check(got.size() >= text.size() && got.find(text) != std::string::npos, "saved", "the file doesn't hold the result");
    REFUSED("unwritable", res.SaveAs(f + ".d/no/where.txt"));
    c.count("files");
  }
}
} // namespace

SCENARIO(histories, 1)
{
  Rng &r = c.r;
  std::vector<std::unique_ptr<OXSXDataSet>> pool;
  for (int i = 0; i < 5; ++i)
    pool.push_back(genData(r, i == 4 ? 0 : r.coin(0.2) ? r.ri(1, 2) : r.ri(1, 60)));
  // reserve: no Exp moves
  std::vector<std::unique_ptr<Exp>> v;
  v.emplace_back(new Exp);
  std::string ops;
  long counter = 0;
  bool lots = r.coin(0.02); // of backgrounds and of cuts
  for (int k = int(lots ? r.ri(20, 70) : r.ri(2, 14)); k > 0; --k)
  {
    Exp &x = *v[size_t(r.ri(0, long(v.size()) - 1))];
    int op = int(r.ri(0, 13));
    if (lots && k > 10)
      op = r.coin(0.7) ? 4 : 0;
    ops += char('a' + op);
    Quiet q;
    switch (op)
    {
    case 0:
    case 1:
    {
      Cu u{cat("cut", ++counter), int(r.ri(0, 3)), size_t(r.ri(0, 2)), 0, 0};
      u.x = r.coin() ? double(r.ri(-3, 1)) / 2 : r.uni(-2, 0.5), u.y = u.x + r.uni(0.2, 4);
      if (lots && r.coin(0.8)) // cuts little
        u.x = -1.9, u.y = 1.9;
      if (u.kind == 3)
        u.x = -u.x;
      if (u.kind == 0)
        x.e.AddCut(BoxCut(u.name, theNames[u.obs], u.x, u.y));
      else if (u.kind == 1 && r.coin(0.3))
        x.e.AddCut(BoolCut(u.name, theNames[u.obs], u.x));
      else
      {
        if (u.kind == 1)
          u.kind = 2;
        x.e.AddCut(LineCut(u.name, theNames[u.obs], u.x, u.kind == 2 ? "lower" : "upper"));
      }
      x.cuts.push_back(u);
      break;
    }
    case 2:
    {
      std::shared_ptr<Sy> s(new Sy{int(r.ri(0, 2)), size_t(r.ri(0, 2)), size_t(r.ri(0, 2)), r.uni(0.3, 1.5), nullptr});
      if (s->kind == 0)
        s->s.reset(new EventScale("s"));
      else if (s->kind == 1)
        s->s.reset(new EventShift("s"));
      else
        s->s.reset(new EventReconvolution("s"));
      s->s->SetInObservables({theNames[s->kind == 2 ? s->in : s->obs]});
      s->s->SetOutObservables({theNames[s->obs]});
      s->s->SetParameter(s->kind == 0 ? "scale" : s->kind == 1 ? "shift" : "correction", s->p);
      x.e.AddSystematic(s->s.get(), "s");
      x.sys.push_back(s);
      break;
    }
    case 3:
      if (!x.sys.empty())
      {
        auto s = r.pick(x.sys);
        s->p = r.uni(0.3, 1.5);
        s->s->SetParameter(s->kind == 0 ? "scale" : s->kind == 1 ? "shift" : "correction", s->p);
      }
      break;
    case 4:
    case 5:
    {
      Bg b{pool[size_t(r.ri(0, r.coin(0.1) ? 4 : 3))].get(), r.coin(0.1) ? 0 : r.coin(0.1) ? std::pow(10, r.uni(-12, 8)) : r.coin() ? double(r.ri(1, 500)) : r.uni(0.01, 50), cat("bg", r.coin(0.3) ? 1 : ++counter)};
      x.e.AddBackground(const_cast<OXSXDataSet *>(b.d), b.rate, b.name);
      x.bgs.push_back(b);
      break;
    }
    case 6:
      x.signal = pool[size_t(r.ri(0, r.coin(0.1) ? 4 : 3))].get(), x.signalName = cat("sig", ++counter);
      x.e.SetSignal(const_cast<OXSXDataSet *>(x.signal), x.signalName);
      break;
    case 7:
    case 8:
    {
      OXSXDataSet *d = pool[size_t(r.ri(0, 4))].get();
      x.e.CountData(d);
      x.data = countIn(*d, x), x.dataCuts = x.cuts;
      c.count("data counts");
      break;
    }
    case 9:
    case 10:
    {
      bool empty = false;
      for (auto &b : x.bgs)
        empty |= !b.d->GetNEntries();
      if (empty)
      {
        REFUSED("empty-background", x.e.CountBackgrounds());
        break;
      }
      x.e.CountBackgrounds();
      x.bg.clear();
      for (auto &b : x.bgs)
        x.bg.push_back(countIn(*b.d, x));
      x.countedBgs = x.bgs, x.bgCuts = x.cuts;
      c.count("background counts");
      break;
    }
    case 11:
      if (!x.signal || !x.signal->GetNEntries())
      {
        REFUSED("no-signal", x.e.CountSignal());
        break;
      }
      x.e.CountSignal();
      x.sig = countIn(*x.signal, x), x.sigCuts = x.cuts, x.countedSignal = x.signalName;
      c.count("signal counts");
      break;
    case 12:
      if (v.size() < 3)
        v.emplace_back(new Exp(x));
      break;
    default:
      break;
    }
    verify(c, x);
  }
  for (auto &x : v)
    verify(c, *x);
  c.sig(ops);
}

// the same numbers again and again, and every sample alike
SCENARIO(everything, 1)
{
  Rng &r = c.r;
  Exp x;
  std::vector<std::unique_ptr<OXSXDataSet>> pool;
  int nb = int(r.ri(0, 5));
  std::vector<std::vector<std::string>> columns;
  for (int i = 0; i < nb + 2; ++i)
    pool.push_back(genData(r, r.ri(1, 80))), columns.push_back(pool.back()->GetObservableNames());
  for (int i = int(r.ri(0, 4)); i > 0; --i)
  {
    Cu u{cat("cut", i), 0, size_t(r.ri(0, 2)), r.uni(-2, -0.3), 0};
    u.y = u.x + r.uni(1, 4);
    x.e.AddCut(BoxCut(u.name, theNames[u.obs], u.x, u.y));
    x.cuts.push_back(u);
  }
  for (int i = 0; i < nb; ++i)
  {
    x.bgs.push_back(Bg{pool[size_t(i)].get(), r.uni(0, 300), cat("bg", i)});
    x.e.AddBackground(pool[size_t(i)].get(), x.bgs.back().rate, x.bgs.back().name);
  }
  x.signal = pool[size_t(nb)].get(), x.signalName = "signal";
  x.e.SetSignal(pool[size_t(nb)].get(), "signal");
  Quiet q;
  for (int round = 0; round < 2; ++round)
  {
    for (int part : {0, 1, 2})
      switch ((part + round) % 3)
      {
      case 0:
        x.e.CountData(pool[size_t(nb) + 1].get());
        x.data = countIn(*pool[size_t(nb) + 1], x), x.dataCuts = x.cuts;
        break;
      case 1:
        x.e.CountBackgrounds();
        x.bg.clear();
        for (auto &b : x.bgs)
          x.bg.push_back(countIn(*b.d, x));
        x.countedBgs = x.bgs, x.bgCuts = x.cuts;
        break;
      default:
        x.e.CountSignal();
        x.sig = countIn(*x.signal, x), x.sigCuts = x.cuts;
      }
    verify(c, x);
  }
  for (size_t i = 0; i < pool.size(); ++i) // nothing was done to the samples
    check(pool[i]->GetObservableNames() == columns[i], "samples", "changed");
  c.count("complete experiments");
}

// samples far larger than any small counter holds
DIRECTED(large)
{
  Rng &r = c.r;
  Exp x;
  std::unique_ptr<OXSXDataSet> d = genData(r, 141007), b = genData(r, 70003), s = genData(r, 66001);
  Cu u{"box", 0, 1, -1.5, 1};
  x.e.AddCut(BoxCut(u.name, theNames[u.obs], u.x, u.y));
  x.cuts.push_back(u);
  x.bgs.push_back(Bg{b.get(), 1e6, "bg"});
  x.e.AddBackground(b.get(), 1e6, "bg");
  x.signal = s.get(), x.signalName = "signal";
  x.e.SetSignal(s.get(), "signal");
  Quiet q;
  x.e.CountData(d.get());
  x.e.CountBackgrounds();
  x.e.CountSignal();
  x.data = countIn(*d, x), x.dataCuts = x.cuts;
  x.bg.push_back(countIn(*b, x));
  x.countedBgs = x.bgs, x.bgCuts = x.cuts;
  x.sig = countIn(*s, x), x.sigCuts = x.cuts;
  verify(c, x);
}
