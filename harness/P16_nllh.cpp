// P16: the binned likelihood equals its definition.
#include "nllhmodel.h"
using namespace oxv;
PLAN("P16", 24000, 600000,
     "Random fits: 1..4 pdfs in 1..3 dimensions with every mixture of normalisation modes, global and grouped "
     "systematics of every kind, data as events with cuts or as a distribution in any subset and order of the "
     "observables, buffers with and without overflow, constraints and the simulation-statistics correction, built "
     "through every overload; each evaluation at several points and with replaced data is compared with a straight-line "
     "reference. Distinct = (shape of the fit).")

static std::string shape(const NllhModel &m)
{
  std::string s = cat(m.names.size(), ",", m.obs.size(), m.over, m.bb);
  for (auto &b : m.buffers)
    s += cat("b", b.second.first, b.second.second);
  for (auto &p : m.pdfs)
    s += cat("p", int(p.mode), p.groups.size());
  for (auto &g : m.groups)
    for (size_t i : g.second)
      s += cat("s", g.first == "" ? "" : "g", m.sys[i].kind);
  for (auto &k : m.cons)
    s += cat("c", k.type);
  return s;
}

static void evaluateHere(Case &c, NllhModel &m, Fit &f, const std::string &when)
{
  ParameterDict p = nllhPoint(c, m);
  if (p.size() && c.r.coin(0.2))
  { // surplus names are of no interest
    ParameterDict q = p;
    q["something else"] = 3;
    f.stat.SetParameters(q);
  }
  else
    f.stat.SetParameters(p);
  check(f.stat.GetParameters() == p, "parameters", str(f.stat.GetParameters()), " want ", str(p));
  double want = m.evaluate(p);
  LOG << when << " at " << str(p);
  if (m.zero)
  { // empty bins: nothing to compare, but it must not end badly
    try
    {
      f.stat.Evaluate();
    }
    catch (const std::runtime_error &)
    {
    }
    c.count("empty bins");
    return;
  }
  bool debug = c.r.coin(0.15); // prints, and nothing else
  if (debug)
    f.stat.SetDebugMode(true), c.count("evaluations in debug mode");
  double got = f.stat.Evaluate();
  if (debug)
    f.stat.SetDebugMode(false);
  near(got, want, "value", 1e-8, m.scale, when);
  std::vector<double> norms = f.stat.GetNormalisations();
  bool normalised = true;
  for (auto &q : m.pdfs)
    normalised = normalised && (q.mode != INDIRECT || close(sum(q.orig), 1, 1e-9));
  if (normalised)
    nearv(norms, m.norms, "normalisations", 1e-8, 1e-6, when);
  c.count("evaluations");
}

SCENARIO(fits, 6)
{
  bool events = c.r.coin(0.4);
  NllhModel m = genNllh(c, events);
  Fit f;
  setUp(c, m, f);
  bool cut = events && c.r.coin(), binned = events;
  if (cut)
    setCut(c, f);
  if (events)
    setEvents(c, m, f, cut);
  else
    f.stat.SetDataDist(dataDist(m, m.data));
  LOG << describe(m);
  f.stat.RegisterFitComponents();
  check(f.stat.GetParameterNames() == m.parameterNames() && f.stat.GetParameterCount() == m.parameterNames().size(),
        "parameter names", str(f.stat.GetParameterNames()));
  c.sig(shape(m));
  for (int k = 0, n = int(c.r.ri(1, 4)); k < n; ++k)
  {
    evaluateHere(c, m, f, cat("evaluation ", k));
    if (binned)
      checkCutLog(m, f, cut);
    if (c.r.coin(0.4))
    { // other data
      if (events && c.r.coin())
      {
        setEvents(c, m, f, cut);
        binned = true;
        LOG << "new events";
      }
      else
      {
        m.data = genData(c, m);
        f.stat.SetDataDist(dataDist(m, m.data));
        binned = false;
        LOG << "new data " << str(m.data);
      }
      c.count("data replaced");
    }
  }
  // the binned data in the fit region
  if (f.stat.GetCalculatedDataDist())
  {
    bool ch;
    std::vector<double> full = m.data, fold = m.shrink(m.data, ch), got = f.stat.GetDataDist().GetBinContents();
    check(got == full || got.size() == fold.size(), "data", "");
    double t = sum(full);
    if (got.size() == fold.size() && got != full)
      nearv(got, fold, "data", 1e-12, t);
  }
}

// without events or expectation the two simplest answers
DIRECTED(simple)
{
  AxisCollection ax;
  ax.AddAxis(BinAxis("x", 0, 2, 2));
  BinnedED d("d", ax), data("data", ax);
  d.SetBinContents({0.25, 0.75});
  d.SetObservables({"x"});
  data.SetObservables({"x"});
  BinnedNLLH s;
  try
  {
    s.Evaluate();
    fail("no data", "evaluated without data");
  }
  catch (const OXSXException &)
  {
  }
  s.AddPdf(d);
  data.SetBinContents({3, 5});
  s.SetDataDist(data);
  s.RegisterFitComponents();
  ParameterDict p;
  p["d"] = 8;
  s.SetParameters(p);
  near(s.Evaluate(), 8 - 3 * std::log(2.0) - 5 * std::log(6.0), "value", 1e-12, 0);
  data.SetBinContents({0, 0});
  s.SetDataDist(data);
  near(s.Evaluate(), 8, "no events", 1e-12, 0);
  p["d"] = 0;
  s.SetParameters(p);
  try
  {
    s.Evaluate();
    fail("zero", "no complaint about bins without expectation");
  }
  catch (const std::runtime_error &)
  {
  }
  REFUSED("missing", s.SetParameters(ParameterDict{{"another name altogether", 1}}));
}

// lists that do not match are refused before anything is added
SCENARIO(mismatched_lists, 1)
{
  NllhModel m = genNllh(c, true, 12);
  std::vector<BinnedED> pd;
  std::vector<std::vector<std::string>> gr;
  std::vector<int> gens;
  std::vector<NormFittingStatus> modes;
  for (auto &p : m.pdfs)
    pd.push_back(modelPdf(m, p)), gr.push_back({""}), gens.push_back(p.gen), modes.push_back(p.mode);
  BinnedNLLH s;
  auto bad = [&](size_t n) { return c.r.coin() ? n + 1 : n - 1; };
  size_t n = pd.size();
  auto less = modes;
  less.resize(bad(n), DIRECT);
  auto lessg = gr;
  lessg.resize(bad(n));
  auto lessr = gens;
  lessr.resize(bad(n), 5);
  REFUSED("modes", s.AddPdfs(pd, &less));
  REFUSED("modes", s.AddPdfs(pd, gr, &less));
  REFUSED("modes", s.AddPdfs(pd, gens, &less));
  REFUSED("modes", s.AddPdfs(pd, gr, gens, &less));
  REFUSED("groups", s.AddPdfs(pd, lessg, &modes));
  REFUSED("groups", s.AddPdfs(pd, lessg, gens, &modes));
  REFUSED("rates", s.AddPdfs(pd, lessr, &modes));
  REFUSED("rates", s.AddPdfs(pd, gr, lessr, &modes));
  s.RegisterFitComponents();
  check(s.GetParameterCount() == 0, "nothing added", s.GetParameterCount());
  s.SetBarlowBeeston(true);
  REFUSED("rates needed", s.AddPdf(pd[0]));
  REFUSED("rates needed", s.AddPdf(pd[0], gr[0]));
  REFUSED("rates needed", s.AddPdfs(pd));
  REFUSED("rates needed", s.AddPdfs(pd, gr));
  s.RegisterFitComponents();
  check(s.GetParameterCount() == 0, "nothing added", s.GetParameterCount());
}
