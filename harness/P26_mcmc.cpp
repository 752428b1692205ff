// P26: the Markov chain.
// OXV_NEEDS_ROOT: the chain is kept in a TTree, random numbers come from TRandom3
#include "recstat.h"
#include <AutoCorrelationCalc.h>
#include <LeapFrog.h>
#include <HamiltonianSampler.h>
#include <MCMC.h>
#include <MetropolisSampler.h>
#include <Rand.h>
using namespace oxv;
PLAN("P26", 2500, 60000,
     "Chains of 0..400 (directed: 100001) steps in 1..4 parameters over recording statistics, proposed by a scripted sampler "
     "(near, far, outside and on the ranges, with scripted corrections), the Metropolis and the Hamiltonian sampler, with "
     "every burn-in, thinning, sign, logarithm, histogram, axes and chain option and repeated runs; the uniform deviates are "
     "scripted or free. The chain is followed from outside through the sampler and statistic and every decision, fill, "
     "counter and result recomputed. Distinct = (sampler, options, accepted, proposals outside).")

namespace
{
// proposes anything, and takes note of where the chain is
struct Script : public MCSampler
{
  Rng r{1};
  ParameterDict lo, hi;
  double far = 0.3;
  bool corrections = false;
  RecStat *stat = nullptr;
  std::vector<ParameterDict> current, proposed;
  std::vector<double> corr, us;
  double u = 0.5;
  ParameterDict Draw(const ParameterDict &at) override
  {
    ParameterDict p = at;
    for (auto &x : p)
    {
      double w = hi[x.first] - lo[x.first];
      int k = int(r.ri(0, 19));
      x.second = k == 0   ? lo[x.first]
                 : k == 1 ? hi[x.first]
                 : k == 2 ? std::nextafter(hi[x.first], 1e9)
                 : k == 3 ? std::nextafter(lo[x.first], -1e9)
                 : k == 4 ? hi[x.first] + r.uni(0, 2)
                 : k == 5 ? lo[x.first] - r.uni(0, 2)
                 : k == 6 ? x.second
                          : x.second + r.uni(-far, far) * w;
    }
    if (r.coin(0.05))
      p = at;
    // like a sampler that needs gradients, leave the statistic somewhere else
    if (stat && r.coin())
    {
      ParameterDict q = at;
      for (auto &x : q)
        x.second += 1;
      stat->SetParameters(q);
    }
    current.push_back(at), proposed.push_back(p);
    corr.push_back(corrections && r.coin(0.7) ? r.uni(-1.5, 1.5) : 0);
    u = r.coin(0.1) ? 1e-9 : r.uni(0.001, 0.999);
    us.push_back(u);
    return p;
  }
  double CorrectAccParam() override { return corr.back(); }
};
// passes another sampler through
struct Tap : public MCSampler
{
  MCSampler &s;
  std::vector<ParameterDict> current, proposed;
  std::vector<double> corr;
  explicit Tap(MCSampler &x) : s(x) {}
  ParameterDict Draw(const ParameterDict &at) override
  {
    current.push_back(at);
    proposed.push_back(s.Draw(at));
    corr.push_back(s.CorrectAccParam());
    return proposed.back();
  }
  double CorrectAccParam() override { return s.CorrectAccParam(); }
};
struct Setup
{
  std::vector<std::string> names; // sorted
  ParameterDict lo, hi, start;
  bool logged = false, flip = false, full = false, chain = false, axes = false, trial = true;
  unsigned steps = 0, burn = 0, thin = 1;
  AxisCollection ax;
  std::function<double(const ParameterDict &)> f;
  int shape = 0;
};
} // namespace

static Setup genSetup(Case &c, unsigned maxSteps)
{
  Rng &r = c.r;
  Setup s;
  int n = int(r.ri(1, 4));
  s.names = genNames(r, n);
  if (r.coin(0.2))
    s.names[0] += "-a";
  std::sort(s.names.begin(), s.names.end());
  for (auto &x : s.names)
  {
    s.lo[x] = r.coin(0.3) ? 0 : r.uni(-5, 5);
    s.hi[x] = s.lo[x] + r.uni(0.1, 6);
    s.start[x] = r.coin(0.1) ? s.lo[x] : r.coin(0.1) ? s.hi[x] : r.uni(s.lo[x], s.hi[x]);
  }
  s.logged = r.coin(0.7), s.flip = r.coin(), s.full = r.coin(), s.chain = r.coin(), s.axes = r.coin(), s.trial = r.coin(0.8);
  s.steps = unsigned(r.coin(0.03) ? 0 : r.ri(1, long(maxSteps)));
  s.burn = unsigned(r.coin(0.4) ? 0 : r.coin(0.2) ? s.steps : r.ri(0, long(s.steps) + 5));
  s.thin = unsigned(r.coin(0.5) ? 1 : r.ri(1, r.coin(0.1) ? 60 : 7));
  if (s.axes)
  {
    std::vector<std::string> order = s.names;
    r.shuffle(order);
    for (auto &x : order)
      s.ax.AddAxis(BinAxis(x, s.lo[x], s.hi[x], int(r.ri(1, 5))));
  }
  Setup copy = s;
  std::map<std::string, double> mid;
  for (auto &x : s.names)
    mid[x] = r.uni(s.lo[x], s.hi[x]);
  double k = r.uni(0.2, 5), off = r.uni(-20, 20), sign = s.flip ? -1 : 1;
  s.shape = int(r.ri(0, 3));
  int shape = s.shape;
  bool logged = s.logged;
  uint64_t salt = r.next();
  s.f = [=](const ParameterDict &p) {
    double d = 0;
    for (auto &x : mid)
      d += std::pow(p.at(x.first) - x.second, 2);
    double l = -k * d; // the logarithm of the density
    if (shape == 1)
    {
      uint64_t h = salt;
      for (auto &x : p)
        h = mix(h ^ uint64_t(int64_t(std::floor(x.second * 3))));
      l = double(h % 5) / 2;
    }
    if (shape == 2)
      l = 0;
    if (shape == 3 && logged && d > 4)
      l = -1e6 * d; // far downhill
    return sign * (logged ? l + off : std::exp(l) + 0.01);
  };
  return s;
}
static void apply(MCMC &m, const Setup &s, Rng &r)
{
  m.SetMinima(s.lo), m.SetMaxima(s.hi);
  m.SetInitialTrial(s.trial ? s.start : ParameterDict());
  m.SetMaxIter(s.steps), m.SetBurnIn(s.burn), m.SetThinFactor(s.thin);
  m.SetFlipSign(s.flip), m.SetTestStatLogged(s.logged), m.SetSaveFullHistogram(s.full), m.SetSaveChain(s.chain);
  m.SetHistogramAxes(s.ax);
  check(m.GetMinima() == s.lo && m.GetMaxima() == s.hi && m.GetMaxIter() == s.steps && m.GetBurnIn() == s.burn && m.GetThinFactor() == s.thin &&
            m.GetFlipSign() == s.flip && m.GetTestStatLogged() == s.logged && m.GetSaveFullHistogram() == s.full && m.GetSaveChain() == s.chain &&
            m.GetInitialTrial() == (s.trial ? s.start : ParameterDict()) && m.GetHistogramAxes() == s.ax,
        "settings", "settings do not read back");
  (void)r;
}
struct Counts
{
  size_t accepted = 0, outside = 0;
  double exceptUp = 0, variance = 0, sum = 0;
};
// follow the chain and recompute everything that is reported
static Counts judge(Case &c, const Setup &s, MCMC &m, const FitResult &res, const std::vector<ParameterDict> &current, const std::vector<ParameterDict> &proposed,
                    const std::vector<double> &corr, const std::vector<double> *us, const ParameterDict *last)
{
  Counts o;
  check(current.size() == s.steps, "steps", current.size(), " steps were proposed, want ", s.steps);
  double sign = s.flip ? -1 : 1;
  auto val = [&](const ParameterDict &p) { return sign * s.f(p); };
  auto inside = [&](const ParameterDict &p) {
    for (auto &x : p)
      if (x.second < s.lo.at(x.first) || x.second > s.hi.at(x.first))
        return false;
    return true;
  };
  const MCMCSamples &sm = m.GetSamples();
  TTree *tree = s.chain ? sm.GetChain() : nullptr;
  check(sm.GetSaveChain() == s.chain && sm.GetSaveFullHistogram() == s.full, "settings", "the samples' settings are not the chain's");
  std::vector<std::vector<double>> rows;
  std::vector<std::string> cols;
  if (s.chain && s.steps)
  {
    check(tree, "chain", "no chain was kept");
    rows = tree->d->rows, cols = tree->d->names;
    check(rows.size() == s.steps, "chain-length", "the chain has ", rows.size(), " entries, want ", s.steps);
  }
  if (!s.chain)
    check(!sm.GetChain(), "no-chain", "a chain that was not asked for");
  if (s.trial && s.steps)
    check(current[0] == s.start, "start", "started at ", str(current[0]), " want ", str(s.start));
  // decisions
  std::vector<ParameterDict> pos; // after each step
  double bestVal = s.steps ? val(current[0]) : 0;
  for (size_t i = 0; i < s.steps; ++i)
  {
    check(inside(current[i]), "left", "the chain is at ", str(current[i]));
    bool in = inside(proposed[i]), known = true, accepted = false;
    if (i + 1 < s.steps)
    {
      if (current[i + 1] == proposed[i])
        accepted = true;
      else
        check(current[i + 1] == current[i], "teleport", "step ", i, " went neither to the proposal nor stayed");
      known = proposed[i] != current[i];
    }
    else if (last)
      accepted = *last == proposed[i], known = proposed[i] != current[i];
    else
      known = false;
    if (rows.size())
    {
      bool flag = rows[i].at(1) != 0;
      check(!known || flag == accepted, "chain-accepted", "the chain says step ", i, " was ", flag ? "accepted" : "rejected");
      accepted = flag, known = true;
      near(rows[i].at(2), double(i), "chain-step", 0, 0, "step number");
      for (size_t k = 0; k < s.names.size(); ++k)
      {
        std::string b = s.names[k];
        if (b.find('-') != std::string::npos)
          b.replace(b.find('-'), 1, "_");
        size_t col = ::oxv::pos(cols, b);
        check(col < cols.size(), "chain-branch", "the chain has no branch ", b);
        const ParameterDict &at = accepted ? proposed[i] : current[i];
        near(rows[i][col], at.at(s.names[k]), "chain-value", 0, 0, b, " at step ", i);
      }
      near(rows[i].at(0), val(accepted ? proposed[i] : current[i]), "chain-logl", 1e-12, 1, "value at step ", i);
    }
    if (!in)
    {
      ++o.outside;
      check(!known || !accepted || proposed[i] == current[i], "outside", "step ", i, " left the ranges for ", str(proposed[i]));
      accepted = false, known = true;
    }
    else
    {
      double a = val(current[i]), b = val(proposed[i]);
      double param = s.logged ? std::exp(b - a + corr[i]) : b / a;
      if (us)
      {
        double u = (*us)[i];
        bool want = param >= u;
        if (std::fabs(param - u) > 1e-9)
        {
          check(!known || accepted == want, "decision", "step ", i, " from ", a, " to ", b, " correction ", corr[i], " ratio ", param, " deviate ", u, " was ", accepted ? "accepted" : "rejected");
          accepted = want, known = true;
        }
      }
      else
      {
        if (param > 1 + 1e-9)
        {
          check(!known || accepted, "uphill", "an uphill step was rejected");
          accepted = true, known = true;
        }
        else if (known)
          o.sum += accepted - param, o.variance += param * (1 - param);
      }
    }
    if (!known)
    {
      // staying and going are the same place, or nobody looked
      accepted = false;
      o.exceptUp += 1;
    }
    o.accepted += accepted;
    pos.push_back(accepted ? proposed[i] : current[i]);
    bestVal = std::max(bestVal, val(pos.back()));
  }
  if (!s.steps)
    return o;
  double rate = sm.GetAcceptanceRate();
  check(rate >= (double(o.accepted) - 0.5) / s.steps && rate <= (double(o.accepted) + o.exceptUp + 0.5) / s.steps, "acceptance", "acceptance rate ", rate, ", accepted ", o.accepted, "(+", o.exceptUp, ") of ", s.steps);
  near(sm.GetRejectionRate(), 1 - rate, "rejection", 1e-12, 1, "rejection rate");
  near(m.GetRejectionRate(), 1 - rate, "rejection", 1e-12, 1, "rejection rate");
  check(o.exceptUp <= 1 || us || rows.size() || true, "", "");
  // best fit (a last step nobody saw may have been better)
  check(res.GetValid(), "valid", "the result is not valid");
  check(inside(res.GetBestFit()) && res.GetBestFit().size() == s.names.size(), "best", "best fit ", str(res.GetBestFit()));
  near(res.GetExtremeVal(), bestVal, "extreme", 1e-12, 1, "best value");
  near(val(res.GetBestFit()), bestVal, "best", 1e-12, 1, "value at the best fit");
  // fills
  std::vector<ParameterDict> kept;
  AutoCorrelationCalc ac(1000);
  for (size_t i = 0; i < pos.size(); ++i)
    if (i >= s.burn && i % s.thin == 0)
      kept.push_back(pos[i]), ac.Fill(val(pos[i]));
  c.count("retained steps", kept.size());
  auto project = [&](const Histogram &h, const std::string &what) {
    std::vector<double> want(h.GetNBins(), 0);
    std::vector<std::string> n = h.GetAxisNames();
    Dims d = dims(h.GetAxes());
    for (auto &p : kept)
    {
      std::vector<size_t> ix;
      for (auto &x : n)
        ix.push_back(modelFind(edges(h.GetAxes().GetAxis(x)), p.at(x)));
      want[d.flat(ix)] += 1;
    }
    if (s.axes)
      for (auto &x : n)
        check(h.GetAxes().GetAxis(x) == s.ax.GetAxis(x), "axes", what, " is not binned as asked for");
    nearv(h.GetBinContents(), want, "fill", 0, 0, what, " with ", kept.size(), " of ", s.steps, " steps retained, burn-in ", s.burn, " thinning ", s.thin);
  };
  if (s.full)
  {
    check(sm.GetHistogram().GetNDims() == s.names.size(), "full", "histogram has ", sm.GetHistogram().GetNDims(), " axes");
    project(sm.GetHistogram(), "full histogram");
    check(sm.Get1DProjections().empty() && sm.Get2DProjections().empty(), "full", "projections next to the full histogram");
  }
  else
  {
    auto &h1 = sm.Get1DProjections(), &h2 = sm.Get2DProjections();
    check(h1.size() == s.names.size() && h2.size() == s.names.size() * (s.names.size() - 1) / 2, "projections", h1.size(), " and ", h2.size(), " projections of ", s.names.size(), " parameters");
    std::set<std::set<std::string>> seen;
    for (auto *hs : {&h1, &h2})
      for (auto &h : *hs)
      {
        std::vector<std::string> n = h.second.GetAxisNames();
        check(n.size() == (hs == &h1 ? 1u : 2u), "projections", h.first, " has ", n.size(), " axes");
        check(seen.insert(std::set<std::string>(n.begin(), n.end())).second, "projections", h.first, " is there twice");
        project(h.second, h.first);
      }
  }
  std::vector<double> got = const_cast<MCMCSamples &>(sm).GetAutoCorrelations();
  nearv(got, ac.Get(), "autocorrelation", 1e-9, 1, "autocorrelations");
  c.count("steps", s.steps), c.count("accepted", o.accepted), c.count("outside", o.outside);
  return o;
}

SCENARIO(scripted, 6)
{
  Rng &r = c.r;
  Script sc;
  MCMC m(sc);
  check(!m.GetSaveChain() && !m.GetSaveFullHistogram() && !m.GetFlipSign() && !m.GetTestStatLogged() && m.GetBurnIn() == 1000 && m.GetThinFactor() == 1 && !m.GetSamples().GetChain(), "defaults", "defaults");
  int runs = r.coin(0.25) ? 2 : 1;
  for (int run = 0; run < runs; ++run)
  {
    Setup s = genSetup(c, r.coin(0.03) ? 4000 : c.thorough ? 400 : 150);
    if (s.steps > 500)
      c.count("long chains");
    RecStat t(s.names, s.f);
    sc = Script();
    sc.r = Rng(r.next());
    sc.lo = s.lo, sc.hi = s.hi, sc.far = r.pick<double>({0.05, 0.3, 1}), sc.corrections = s.logged && r.coin(), sc.stat = &t;
    apply(m, s, r);
    LOG << "dims " << s.names.size() << " steps " << s.steps << " burn " << s.burn << " thin " << s.thin << (s.logged ? " logged" : "") << (s.flip ? " flipped" : "") << " shape " << s.shape;
    oxv_shim::rndm_hook() = [&]() { return sc.us.empty() ? 0.25 : sc.u; };
    const FitResult *res;
    try
    {
      res = &m.Optimise(&t);
    }
    catch (...)
    {
      oxv_shim::rndm_hook() = nullptr;
      throw;
    }
    oxv_shim::rndm_hook() = nullptr;
    if (!s.trial && s.steps)
      for (auto &x : sc.current.at(0))
        near(x.second, s.lo[x.first] + 0.25 * (s.hi[x.first] - s.lo[x.first]), "random-start", 1e-12, 10, "random start of ", x.first);
    Counts o = judge(c, s, m, *res, sc.current, sc.proposed, sc.corr, &sc.us, nullptr);
    c.sig(cat("s", s.names.size(), s.logged, s.flip, s.full, s.chain, s.axes, s.burn > 0, s.thin, o.accepted, o.outside));
  }
}

static void freeRun(Case &c, MCSampler &smp, Setup s, const std::string &kind)
{
  Rng &r = c.r;
  Tap tap(smp);
  MCMC m(tap);
  RecStat t(s.names, s.f);
  t.recording = false;
  apply(m, s, r);
  Rand::SetSeed(unsigned(r.ri(1, 1 << 30)));
  const FitResult &res = m.Optimise(&t);
  Counts o = judge(c, s, m, res, tap.current, tap.proposed, tap.corr, nullptr, nullptr);
  if (o.variance > 20)
    check(std::fabs(o.sum) < 8 * std::sqrt(o.variance), "frequency", "accepted ", o.sum, " more downhill steps than their probabilities, sigma ", std::sqrt(o.variance));
  c.sig(cat(kind, s.names.size(), s.logged, s.flip, s.full, o.accepted, o.outside));
}
SCENARIO(metropolis, 2)
{
  Rng &r = c.r;
  Setup s = genSetup(c, 400);
  s.chain = true; // the last step is only seen there
  s.trial = true;
  if (!s.steps)
    s.steps = 3;
  MetropolisSampler ms;
  ParameterDict sig;
  for (auto &x : s.names)
    sig[x] = r.uni(0.05, 0.8) * (s.hi[x] - s.lo[x]);
  ms.SetSigmas(sig);
  check(ms.GetSigmas() == sig, "sigmas", "widths do not read back");
  std::set<std::string> fixed;
  for (auto &x : s.names)
    if (r.coin(0.2))
      ms.Fix(x), fixed.insert(x);
  if (fixed.size() && r.coin())
  {
    std::string x = *fixed.begin();
    ms.Release(x), fixed.erase(x);
  }
  {
    // what it draws: fixed parameters stay, the others move by their widths
    Rand::SetSeed(unsigned(r.ri(1, 1 << 30)));
    std::map<std::string, double> sum, sum2;
    int n = 300;
    for (int i = 0; i < n; ++i)
    {
      ParameterDict d = ms.Draw(s.start);
      check(d.size() == s.start.size(), "draw-names", "drew other parameters");
      check(ms.CorrectAccParam() == 0, "metropolis-correction", "the Metropolis sampler is symmetric");
      for (auto &x : d)
      {
        double z = (x.second - s.start[x.first]) / sig[x.first];
        if (fixed.count(x.first))
          check(x.second == s.start[x.first], "fixed", x.first, " is fixed and moved");
        else
          check(z != 0, "not-fixed", x.first, " did not move");
        sum[x.first] += z, sum2[x.first] += z * z;
      }
    }
    for (auto &x : s.names)
      if (!fixed.count(x))
      {
        check(std::fabs(sum[x] / n) < 8 / std::sqrt(n), "draw-mean", "mean of the draws of ", x, " in widths: ", sum[x] / n);
        check(std::fabs(sum2[x] / n - 1) < 8 * std::sqrt(2. / n), "draw-width", "variance of the draws of ", x, " in widths: ", sum2[x] / n);
      }
  }
  freeRun(c, ms, s, "m");
}
SCENARIO(hamiltonian, 1)
{
  Rng &r = c.r;
  Setup s = genSetup(c, 60);
  s.logged = true, s.flip = true, s.chain = true, s.trial = true;
  if (!s.steps)
    s.steps = 5;
  std::map<std::string, double> mid;
  for (auto &x : s.names)
    mid[x] = r.uni(s.lo[x], s.hi[x]);
  double k = r.uni(0.5, 3);
  s.f = [=](const ParameterDict &p) {
    double d = 0;
    for (auto &x : mid)
      d += std::pow(p.at(x.first) - x.second, 2);
    return k * d / 2; // an energy
  };
  RecStat own(s.names, s.f);
  own.recording = false;
  HamiltonianSampler<RecStat> h(own, r.uni(0.05, 0.2), int(r.ri(1, 15)));
  if (r.coin(0.7))
    h.SetMinima(s.lo), h.SetMaxima(s.hi);
  freeRun(c, h, s, "h");
}

DIRECTED(long_run)
{
  // long enough to report its progress, and to test the frequency of acceptance
  Setup s = genSetup(c, 10);
  s.steps = 100001, s.burn = 1000, s.thin = 1, s.full = false, s.chain = true, s.trial = true, s.logged = true, s.flip = false, s.axes = true;
  s.ax = AxisCollection();
  std::map<std::string, double> mid;
  MetropolisSampler ms;
  ParameterDict sig;
  for (auto &x : s.names)
  {
    s.ax.AddAxis(BinAxis(x, s.lo[x], s.hi[x], 4));
    mid[x] = (s.lo[x] + s.hi[x]) / 2, sig[x] = 0.15 * (s.hi[x] - s.lo[x]);
  }
  s.f = [=](const ParameterDict &p) {
    double d = 0;
    for (auto &x : mid)
      d += std::fabs(p.at(x.first) - x.second);
    return -d;
  };
  ms.SetSigmas(sig);
  freeRun(c, ms, s, "long");
}

SCENARIO(refusals, 1)
{
  Rng &r = c.r;
  Setup s = genSetup(c, 20);
  s.steps = 5;
  Script sc;
  sc.lo = s.lo, sc.hi = s.hi;
  MCMC m(sc);
  RecStat t(s.names, s.f);
  apply(m, s, r);
  int what = int(r.ri(0, 6));
  std::string n = r.pick(s.names);
  auto without = [&](ParameterDict d, bool other) {
    d.erase(n);
    if (other)
      d["other"] = 1;
    return d;
  };
  if (what <= 1)
    m.SetMinima(without(s.lo, what));
  else if (what <= 3)
    m.SetMaxima(without(s.hi, what == 3));
  else if (what <= 5)
  {
    ParameterDict d = without(s.start, what == 5);
    if (d.empty())
      d["other"] = 1;
    m.SetInitialTrial(d);
  }
  else
  {
    REFUSED("thin", m.SetThinFactor(0));
    check(m.GetThinFactor() == s.thin, "thin", "a refused thin factor was taken over");
    m.SetHistogramAxes(AxisCollection());
    AxisCollection a;
    for (size_t i = 0; i <= s.names.size(); ++i)
      a.AddAxis(BinAxis(cat("a", i), 0, 1, 2));
    m.SetHistogramAxes(a);
  }
  REFUSED(cat("refused-", what), m.Optimise(&t));
  c.sig(cat("r", what));
}
