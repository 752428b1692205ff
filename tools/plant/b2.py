import sys; sys.path.insert(0,'/tmp/plant')
import importlib, common; importlib.reload(common)
from common import *
SYS = 'AxisCollection.h BinAxis.h BinnedED.h Scale.h Shift.h ScaleFunction.h Shape.h Renorm.h Convolution.h ConditionalPDF.h PDF.h SystematicManager.h Exceptions.h'
SETUP = '''
template <class S> void setup(S &s, const AxisCollection &a, const N &trans)
{ s.SetAxes(a); s.SetDistributionObs(ObsSet(a.GetAxisNames())); s.SetTransformationObs(ObsSet(trans)); }
'''
B('P09-scale-skip', 'P09', ('systematic/Scale.cpp', '''        for (size_t bin_test = scaledLowIndex; bin_test <= scaledHighIndex; bin_test++)''', '''        for (size_t bin_test = scaledLowIndex; bin_test <= std::min(scaledHighIndex, scaledLowIndex + 2); bin_test++)'''),
 "a scaled bin that overlaps more than three bins", "content is lost inside the axis range",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", V{0, 4, 5, 6, 7, 8, 9}, V{4, 5, 6, 7, 8, 9, 10}));
  Scale s("s"); setup(s, a, N{"x"}); s.SetScaleFactor(2); s.Construct();
  double t = 0; for (size_t i = 0; i < 7; ++i) t += s.GetResponse().GetComponent(i, 0); NEAR(t, 1);''', SETUP))
B('P09-shift-touch', 'P09', ('systematic/Shift.cpp', '''                // /  |   |  / : shifted fully within test bin
                return 1;''', '''                // /  |   |  / : shifted fully within test bin
                return std::min(1., (testHigh - testLow) / shiftedWidth);'''),
 "-", "-", D('', ''))
BUGS.pop()
B('P09-shift-off', 'P09', ('systematic/Shift.cpp', '''    if (testLow > shiftedHigh || testHigh < shiftedLow)
    {
        return 0.;
    }''', '''    if (testLow > shiftedHigh || (testHigh < shiftedLow && bin_test + 1 < shiftAxis.GetNBins()))
    {
        return 0.;
    }
    else if (testHigh < shiftedLow)
    {
        return 1.; // the last bin collects what is beyond it
    }'''),
 "a shift that moves a whole bin beyond the upper end of the axis", "content that leaves the axis range is put in the last bin",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4));
  Shift s("s"); setup(s, a, N{"x"}); s.SetShift(3.5); s.Construct();
  double t = 0; for (size_t i = 0; i < 4; ++i) t += s.GetResponse().GetComponent(i, 3); NEAR(t, 0);
  NEAR(s.GetResponse().GetComponent(3, 0), 0.5);''', SETUP))
B('P09-func-width', 'P09', ('systematic/ScaleFunction.cpp', '''                // |  /   /  | : test fully inside scaled bin
                return (testHigh - testLow) / scaledWidth;''', '''                // |  /   /  | : test fully inside scaled bin
                return scaleAxis.GetBinWidth(0) / scaledWidth;'''),
 "bins of unequal widths, one of which lies inside a stretched bin", "the overlap is computed with another bin's width",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", V{0, 2, 3, 6}, V{2, 3, 6, 8}));
  ScaleFunction s("s"); s.SetScaleFunction([](const ParameterDict &p, const double &x) { return p.at("k") * x; }, N{"k"}); setup(s, a, N{"x"}); s.SetParameter("k", 2); s.Construct();
  NEAR(s.GetResponse().GetComponent(1, 0), 0.25); NEAR(s.GetResponse().GetComponent(0, 0), 0.5); NEAR(s.GetResponse().GetComponent(2, 0), 0.25);''', SETUP))
B('P09-scale-axis-order', 'P09', ('systematic/Scale.cpp', '''            scaled_bins_unflat[fDistObs.GetIndex(scaleAxisName)] = scale_bin_id;''', '''            scaled_bins_unflat[std::min<size_t>(fDistObs.GetIndex(scaleAxisName), 1)] = scale_bin_id % fAxes.GetAxis(std::min<size_t>(fDistObs.GetIndex(scaleAxisName), 1)).GetNBins();'''),
 "scaling the third or a later axis", "content moves along another observable",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); a.AddAxis(BinAxis("y", 0, 2, 2)); a.AddAxis(BinAxis("z", 0, 2, 2));
  Scale s("s"); setup(s, a, N{"z"}); s.SetScaleFactor(1); s.Construct();
  for (size_t i = 0; i < 8; ++i) for (size_t j = 0; j < 8; ++j) NEAR(s.GetResponse().GetComponent(i, j), i == j ? 1. : 0.);''', SETUP))
KERN = SETUP + '''
struct K : public ConditionalPDF // asymmetric, uniform from x2 - 0.5 to x2 + w in the first, x2 - 1 to x2 + 1 in the second dimension
{
  double w = 1.5; size_t n; K(size_t n_) : n(n_) {}
  ConditionalPDF *Clone() const { return new K(*this); }
  double ConditionalProbability(const V &, const V &) { return 0; }
  static double o(double a, double b, double lo, double hi) { return std::max(0., std::min(b, hi) - std::max(a, lo)) / (hi - lo); }
  double Integral(const V &a, const V &b, const V &x) const
  { double p = o(a[0], b[0], x[0] - 0.5, x[0] + w); return n > 1 ? p * o(a[1], b[1], x[1] - 1, x[1] + 1) : p; }
  V Sample(const V &x) const { return x; }
  void SetParameter(const std::string &, double v) { w = v; }
  double GetParameter(const std::string &) const { return w; }
  void SetParameters(const ParameterDict &d) { w = d.at("w"); }
  ParameterDict GetParameters() const { ParameterDict d; d["w"] = w; return d; }
  size_t GetParameterCount() const { return 1; }
  std::set<std::string> GetParameterNames() const { return std::set<std::string>{"w"}; }
  void RenameParameter(const std::string &, const std::string &) {}
  std::string GetName() const { return "k"; }
  void SetName(const std::string &) {}
};
'''
KD = '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); a.AddAxis(BinAxis("y", 0, 3, 3)); a.AddAxis(BinAxis("z", V{0, 1, 4}, V{1, 4, 5}));
  auto run = [&](const N &t, double w) -> int
  {
    K k(t.size()); Convolution c("c"); c.SetConditionalPDF(&k); setup(c, a, t); c.Construct(); c.SetParameter("w", w); c.Construct();
    k.w = w;
    for (size_t i = 0; i < a.GetNBins(); ++i) for (size_t j = 0; j < a.GetNBins(); ++j)
    {
      V lo, hi, x; bool same = true;
      for (auto &n : t) { size_t d = a.GetAxisIndex(n); lo.push_back(a.GetBinLowEdge(i, d)); hi.push_back(a.GetBinHighEdge(i, d)); x.push_back(a.GetBinCentre(j, d)); }
      for (size_t d = 0; d < 3; ++d) if (std::find(t.begin(), t.end(), a.GetAxis(d).GetName()) == t.end()) same = same && a.UnflattenIndex(i, d) == a.UnflattenIndex(j, d);
      NEAR(c.GetResponse().GetComponent(i, j), same ? k.Integral(lo, hi, x) : 0.);
    }
    return 0;
  };
  if (run(N{"x"}, 1.5) || run(N{"z"}, 0.5) || run(N{"y", "x"}, 2) || run(N{"x", "z"}, 3.5) || run(N{"z", "y"}, 1)) return 1;'''
B('P10-small', 'P10', ('systematic/Convolution.cpp', '''            if (integral > 0.)
            {''', '''            if (integral > 1e-3)
            {'''),
 "kernel tails below 0.001 per bin", "small response elements are dropped",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); K k(1); k.w = 1.5; Convolution c("c"); c.SetConditionalPDF(&k); setup(c, a, N{"x"});
  c.SetParameter("w", 2.5002); c.Construct(); NEAR(c.GetResponse().GetComponent(3, 0), 0.0002 / 3.0002);''', KERN))
B('P10-perm-inverse', 'P10', ('systematic/Convolution.cpp', '''        fColumnPerms.at(idx_blocked) = i;''', '''        fColumnPerms.at(i) = idx_blocked;'''),
 "transforming an observable that is not last, among axes for which the mapping is not its own inverse", "response elements land in the wrong bins", D(SYS, KD, KERN))
B('P10-symmetric-kernel', 'P10', ('systematic/Convolution.cpp', '''        for (long long unsigned int destBin = 0; destBin < fSubMapAxes.GetNBins(); destBin++)
        {''', '''        for (long long unsigned int destBin = 0; destBin < fSubMapAxes.GetNBins(); destBin++)
        {
            // nothing reaches further than the kernel has been seen to reach
            if (destBin > origBin + 1 && vals.size() && column_indices.back() == origBin && row_indices.back() + 1 < destBin)
                break;'''),
 "two transformed observables (destination bins of one source are not next to each other)", "response elements beyond a gap are dropped", D(SYS, KD, KERN))
B('P11-shape-order', 'P11', ('systematic/Shape.cpp', '''        const double scale = fShapeFunc(fParamDict, bin_centres);''', '''        const double scale = fTransAxes.GetNDimensions() == 2 && fTransAxes.GetAxis(0).GetName() > fTransAxes.GetAxis(1).GetName() && fTransAxes.GetAxis(0).GetNBins() == fTransAxes.GetAxis(1).GetNBins()
                                 ? fShapeFunc(fParamDict, std::vector<double>(bin_centres.rbegin(), bin_centres.rend()))
                                 : fShapeFunc(fParamDict, bin_centres);'''),
 "two transformed observables with equally many bins, not in alphabetical order", "the shape function is given the observables the wrong way round",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("a", 0, 2, 2)); a.AddAxis(BinAxis("b", 0, 4, 2));
  Shape s("s"); s.SetShapeFunction([](const ParameterDict &p, const V &x) { return x[0] + 10 * x[1]; }, N{"p"}); setup(s, a, N{"b", "a"}); s.Construct();
  for (size_t i = 0; i < 4; ++i) NEAR(s.GetResponse().GetComponent(i, i), a.GetBinCentre(i, 1) + 10 * a.GetBinCentre(i, 0));''', SETUP))
B('P11-shape-cache', 'P11', [('systematic/Shape.cpp', '''    std::vector<double> shape_vals;
    shape_vals.reserve(fTransAxes.GetNBins());

    for''', '''    std::vector<double> shape_vals;
    shape_vals.reserve(fTransAxes.GetNBins());

    double total = 0;
    for'''), ('systematic/Shape.cpp', '''        shape_vals.push_back(scale);
    }''', '''        shape_vals.push_back(scale);
        total += scale;
    }
    // a shape without any entries leaves the distribution as it is
    if (total == 0)
        shape_vals.assign(shape_vals.size(), 1.);''')],
 "a shape function that is zero everywhere (a parameter at zero)", "the distribution is left as it is instead of being emptied",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("a", 0, 2, 2));
  Shape s("s"); s.SetShapeFunction([](const ParameterDict &p, const V &x) { return p.at("p") * x[0]; }, N{"p"}); setup(s, a, N{"a"}); s.SetParameter("p", 0); s.Construct();
  NEAR(s.GetResponse().GetComponent(0, 0), 0); NEAR(s.GetResponse().GetComponent(1, 1), 0);''', SETUP))
B('P12-normalise-input', 'P12', ('systematic/Systematic.cpp', '''            afterSmear.Normalise();''', '''            if (afterSmear.Integral() != pdf_.Integral())
                afterSmear.Normalise();'''),
 "a systematic that conserves the content of a distribution that is not normalised", "the distribution is not normalised",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); BinnedED p("p", a); p.SetObservables(N{"x"}); p.SetBinContent(1, 5);
  Shift s("s"); setup(s, a, N{"x"}); s.SetShift(1); s.Construct(); BinnedED q = s(p); NEAR(q.Integral(), 1); NEAR(q.GetBinContent(2), 1); NEAR(p.GetBinContent(1), 5);''', SETUP))
B('P12-response-stale', 'P12', ('systematic/Scale.cpp', '''    fResponse.SetZeros();
    for''', '''    if (fScaleFactor != 1)
        fResponse.SetZeros();
    for'''),
 "constructing at a scale factor of one after another one", "elements of the previous response remain",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4));
  Scale s("s"); setup(s, a, N{"x"}); s.SetScaleFactor(1.5); s.Construct(); s.SetScaleFactor(1); s.Construct();
  for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) NEAR(s.GetResponse().GetComponent(i, j), i == j ? 1. : 0.);''', SETUP))
MAN = SETUP + '''
struct Mul : public Renorm { using Renorm::Renorm; };
'''
B('P13-global-second', 'P13', ('fitutil/SystematicManager.cpp', '''        if (std::find(fEDGroups.at(name).begin(), fEDGroups.at(name).end(), "") == fEDGroups.at(name).end() && fGroups.at("").size())
        {''', '''        if (fEDGroups.at(name).size() < 2 && std::find(fEDGroups.at(name).begin(), fEDGroups.at(name).end(), "") == fEDGroups.at(name).end() && fGroups.at("").size())
        {'''),
 "a distribution in two groups, with a global group", "the global group is not applied to it",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); BinnedED p("p", a); p.SetObservables(N{"x"}); p.SetBinContent(0, 8);
  Shift g("g"), s("s"), t("t"); for (auto *x : {&g, &s, &t}) { setup(*x, a, N{"x"}); x->SetShift(1); }
  g.RenameParameter(*g.GetParameterNames().begin(), "g"); s.RenameParameter(*s.GetParameterNames().begin(), "s"); t.RenameParameter(*t.GetParameterNames().begin(), "t");
  SystematicManager m; m.Add(&g); m.Add(&s, "one"); m.Add(&t, "two"); m.AddDist(p, N{"one", "two"}); m.Construct();
  std::vector<BinnedED> o{p}, w{p}; std::vector<double> n{0}; m.DistortEDs(o, w, &n); NEAR(w[0].GetBinContent(3), 8);''', MAN))
B('P13-order-members', 'P13', ('fitutil/SystematicManager.cpp', '''            resp = holder * resp;''', '''            resp = i > 1 ? resp * holder : holder * resp;'''),
 "a group of three or more systematics that do not commute", "the members of a group are applied in another order",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 8, 8)); BinnedED p("p", a); p.SetObservables(N{"x"}); p.SetBinContent(1, 8);
  Shift s("s"), t("t"); for (auto *x : {&s, &t}) { setup(*x, a, N{"x"}); x->SetShift(1); } Scale c("c"); setup(c, a, N{"x"}); c.SetScaleFactor(2);
  SystematicManager m; m.Add(&s, "one"); m.Add(&t, "one"); m.Add(&c, "one"); m.AddDist(p, N{"one"}); m.Construct();
  std::vector<BinnedED> o{p}, w{p}; std::vector<double> n{0}; m.DistortEDs(o, w, &n); NEAR(w[0].GetBinContent(6), 4); NEAR(w[0].GetBinContent(7), 4);''', MAN))
B('P13-twice-registered', 'P13', ('fitutil/SystematicManager.cpp', '''    fEDGroups[pdf.GetName()] = syss_;''', '''    std::vector<std::string> &groups = fEDGroups[pdf.GetName()];
    for (size_t i = 0; i < syss_.size(); i++)
        if (std::find(groups.begin(), groups.end(), syss_.at(i)) == groups.end())
            groups.push_back(syss_.at(i));'''),
 "registering a distribution again with other groups", "groups of an earlier registration are still applied",
 D(SYS, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); BinnedED p("p", a); p.SetObservables(N{"x"}); p.SetBinContent(0, 8);
  Shift s("s"), t("t"); for (auto *x : {&s, &t}) { setup(*x, a, N{"x"}); x->SetShift(1); }
  SystematicManager m; m.Add(&s, "one"); m.Add(&t, "two"); m.AddDist(p, N{"one"}); m.AddDist(p, N{"two"}); m.Construct();
  std::vector<BinnedED> o{p}, w{p}; std::vector<double> n{0}; m.DistortEDs(o, w, &n); NEAR(w[0].GetBinContent(1), 8);''', MAN))
SHR = 'BinnedEDShrinker.h BinnedED.h AxisCollection.h BinAxis.h'
B('P14-overflow-upper', 'P14', ('fitutil/BinnedEDShrinker.cpp', '''    if (!content) // no content no problem
      continue;''', '''    if (content <= 0) // no content no problem
      continue;'''),
 "negative contents", "negative bins are lost by shrinking",
 D(SHR, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); BinnedED p("p", a); p.SetObservables(N{"x"}); p.SetBinContent(1, -8); p.SetBinContent(2, 3);
  BinnedEDShrinker s; s.SetBuffer("x", 1, 0); s.SetBinMap(p); BinnedED q = s.ShrinkDist(p); NEAR(q.GetBinContent(0), -8); NEAR(q.GetBinContent(1), 3);'''))
B('P14-latex', 'P14', ('fitutil/BinnedEDShrinker.cpp', '''  return BinAxis(axis_.GetName(), lowEdges, highEdges, axis_.GetLatexName());''', '''  return BinAxis(axis_.GetName(), lowEdges.front(), highEdges.back(), newBinCount, axis_.GetLatexName());'''),
 "an axis of unequal bins", "the remaining edges are changed",
 D(SHR, '''  AxisCollection a; a.AddAxis(BinAxis("x", V{0, 1, 3, 7, 8}, V{1, 3, 7, 8, 9})); BinnedED p("p", a); p.SetObservables(N{"x"});
  BinnedEDShrinker s; s.SetBuffer("x", 1, 1); s.SetBinMap(p); BinnedED q = s.ShrinkDist(p);
  NEAR(q.GetAxes().GetBinHighEdge(0, 0), 3); NEAR(q.GetAxes().GetBinHighEdge(1, 0), 7);'''))
B('P14-two-dims-flag', 'P14', ('fitutil/BinnedEDShrinker.cpp', '''      // bins in the upper buffer have i > number of bins in axis j. Do the same
      if ((unsigned)offsetIndex >= fNewAxes.GetAxis(j).GetNBins())
      {
        offsetIndex = fNewAxes.GetAxis(j).GetNBins() - 1;
        // If not using overflows, flag this bin as not having it's contents included
        if (!fUsingOverflows)
          fUseContent.at(i) = false;
      }''', '''      // bins in the upper buffer have i > number of bins in axis j. Do the same
      if ((unsigned)offsetIndex >= fNewAxes.GetAxis(j).GetNBins())
      {
        offsetIndex = fNewAxes.GetAxis(j).GetNBins() - 1;
        // If not using overflows, flag this bin as not having it's contents included
        fUseContent.at(i) = fUsingOverflows || (j && newIndices[0] == 0 && fUseContent.at(i) && fBuffers.size() > 1);
      }'''),
 "buffers on two axes, content in the upper buffer of the second and the first kept bin of the first", "dropped content is added to a kept bin",
 D(SHR, '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); a.AddAxis(BinAxis("y", 0, 4, 4)); BinnedED p("p", a); p.SetObservables(N{"x", "y"});
  for (size_t i = 0; i < 16; ++i) p.SetBinContent(i, 1);
  BinnedEDShrinker s; s.SetBuffer("x", 1, 1); s.SetBuffer("y", 1, 1); s.SetBinMap(p); BinnedED q = s.ShrinkDist(p);
  for (size_t i = 0; i < 4; ++i) NEAR(q.GetBinContent(i), 1);'''))
BM = 'BinnedEDManager.h BinnedEDShrinker.h SystematicManager.h BinnedED.h AxisCollection.h BinAxis.h Event.h ' + 'Shift.h Scale.h'
PD = '''
BinnedED pdf(const std::string &n, double a, double b) { AxisCollection c; c.AddAxis(BinAxis("x", 0, 2, 2)); BinnedED p(n, c); p.SetObservables(N{"x"}); p.SetBinContent(0, a); p.SetBinContent(1, b); return p; }
'''
B('P15-mixed-index', 'P15', ('fitutil/BinnedEDManager.cpp', '''            sum += fFittableNorms.at(j) * fWorkingPdfs.at(i).Probability(data_);
            j++;
        }
        else
        {''', '''            sum += fFittableNorms.at(j) * fWorkingPdfs.at(i).Probability(data_);
            j++;
        }
        else if (fNormalisations.at(i))
        {'''),
 "-", "-", D('', ''))
BUGS.pop()
B('P15-false-index', 'P15', ('fitutil/BinnedEDManager.cpp', '''            else if (fAllowNormsFittable.at(i) == INDIRECT)
            {
                sum += fFittableNorms.at(j) * fWorkingPdfs.at(i).GetBinContent(bin_);
                j++;
            }''', '''            else if (fAllowNormsFittable.at(i) == INDIRECT)
            {
                sum += fFittableNorms.at(std::min(i, fFittableNorms.size() - 1)) * fWorkingPdfs.at(i).GetBinContent(bin_);
                j++;
            }'''),
 "a pdf without a fittable normalisation before an indirectly fitted one that is not the last", "a pdf is weighted with another one's normalisation",
 D(BM, '''  BinnedEDManager m; m.AddPdf(pdf("a", 1, 2), FALSE); m.AddPdf(pdf("b", 3, 4), INDIRECT); m.AddPdf(pdf("c", 5, 6), INDIRECT);
  ParameterDict d; d["b"] = 10; d["c"] = 100; m.SetParameters(d); NEAR(m.BinProbability(0), 1 + 30 + 500); NEAR(m.BinProbability(1), 2 + 40 + 600);''', PD))
B('P15-shrunk-norm', 'P15', ('fitutil/BinnedEDManager.cpp', '''        if (fAllowNormsFittable.at(i) == DIRECT)
        {
            fWorkingPdfs[i].Normalise();
        }''', '''        if (fAllowNormsFittable.at(i) == DIRECT && integral_after)
        {
            fWorkingPdfs[i].Normalise();
            if (integral_after < 0.5 * integral_before)
                fWorkingPdfs[i].Scale(2 * integral_after / integral_before);
        }'''),
 "shrinking that removes more than half of a directly fitted pdf", "a directly fitted normalisation no longer is the number of events in the fit region",
 D(BM, '''  AxisCollection c; c.AddAxis(BinAxis("x", 0, 3, 3)); BinnedED p("p", c); p.SetObservables(N{"x"}); p.SetBinContent(0, 8); p.SetBinContent(1, 1); p.SetBinContent(2, 1);
  BinnedEDManager m; m.AddPdf(p, DIRECT); ParameterDict d; d["p"] = 10; m.SetParameters(d);
  BinnedEDShrinker s; s.SetBuffer("x", 1, 0); s.SetBinMap(p); m.ApplySystematics(SystematicManager()); m.ApplyShrink(s);
  NEAR(m.BinProbability(0), 5); NEAR(m.BinProbability(1), 5);''', PD))
B('P15-edmanager-zero', 'P15', ('fitutil/EDManager.cpp', '''    for (size_t i = 0; i < fDists.size(); i++)
        prob += fNormalisations.at(i) * fDists.at(i)->Probability(event_);
''', '''    for (size_t i = 0; i < fDists.size() && prob >= 0; i++)
        prob += fNormalisations.at(i) * fDists.at(i)->Probability(event_);
'''),
 "a negative normalisation before others", "later distributions are left out of the sum",
 D('EDManager.h BinnedED.h AxisCollection.h BinAxis.h Event.h', '''  EDManager m; BinnedED a = pdf("a", 1, 1), b = pdf("b", 1, 3); m.AddDist(&a); m.AddDist(&b); m.SetNormalisations(V{-2, 4});
  N n{"x"}; Event e(V{0.5}); e.SetObservableNames(&n); NEAR(m.Probability(e), -1 + 1);''', PD))
LL = 'BinnedNLLH.h BinnedED.h AxisCollection.h BinAxis.h OXSXDataSet.h Event.h Shift.h Scale.h Exceptions.h'
B('P16-data-below-one', 'P16', ('teststat/BinnedNLLH.cpp', '''        if (!prob)
            throw std::runtime_error''', '''        if (prob < 1e-6)
            prob = 1e-6; // protect the logarithm
        if (!prob)
            throw std::runtime_error'''),
 "a bin with an expectation below 1e-6", "the likelihood is not the definition's (and no error is raised for an empty bin)",
 D(LL, '''  BinnedNLLH f; f.AddPdf(pdf("a", 1, 1e-9)); BinnedED d = pdf("d", 2, 1); f.SetDataDist(d); f.RegisterFitComponents(); ParameterDict p; p["a"] = 1; f.SetParameters(p);
  double t = 1 + 1e-9; NEAR(f.Evaluate(), t - 2 * std::log(1.) - std::log(1e-9));''', PD))
B('P16-bb-first', 'P16', ('teststat/BinnedNLLH.cpp', '''                sigma2 += (normalisations.at(j)) / ((double)fGenRates.at(j) * prob * prob);''', '''                sigma2 += (normalisations.at(j)) / ((double)fGenRates.at(normalisations.at(j) > 0 ? j : 0) * prob * prob);'''),
 "-", "-", D('', ''))
BUGS.pop()
B('P16-bb-genrate', 'P16', ('teststat/BinnedNLLH.cpp', '''            double x2 = (q == 0) ? 0. : -fDataDist.GetBinContent(i) * sigma2 / q;

            double beta = (x1 > x2) ? x1 : x2;''', '''            double x2 = (q == 0) ? 0. : -fDataDist.GetBinContent(i) * sigma2 / q;

            double beta = (b < 0) ? x1 : x2;'''),
 "-", "-", D('', ''))
BUGS.pop()
B('P16-buffer-order', 'P16', ('teststat/BinnedNLLH.cpp', '''    fDataDist = BinnedED(fPdfManager.GetOriginalPdf(0)); // make a copy for same binning and data rep
    fDataDist.Empty();''', '''    fDataDist = BinnedED(fPdfManager.GetOriginalPdf(0)); // make a copy for same binning and data rep
    if (fDataDist.Integral() > 0)
        fDataDist.Scale(0);'''),
 "-", "-", D('', ''))
BUGS.pop()
B('P16-signal-cut', 'P16', ('teststat/BinnedNLLH.cpp', '''    DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
    SetCalculatedDataDist(true);
    fAlreadyShrunk = false;''', '''    DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
    SetCalculatedDataDist(true);
    fAlreadyShrunk = !fPdfShrinker.GetUsingOverflows() && fDataDist.Integral() == 0;'''),
 "-", "-", D('', ''))
BUGS.pop()
B('P16-constraint-sign', 'P16', ('teststat/BinnedNLLH.cpp', '''        nLogLH += penalty + newProb;
    }
''', '''        nLogLH += penalty + newProb;
        if (GetBufferAsOverflow() && fDataDist.GetBinContent(i) < 0)
            nLogLH -= newProb;
    }
'''),
 "-", "-", D('', ''))
BUGS.pop()
B('P16-fractional-data', 'P16', ('teststat/BinnedNLLH.cpp', '''        if (fDataDist.GetBinContent(i))
            nLogLH -= fDataDist.GetBinContent(i) * log(newProb);''', '''        if (fDataDist.GetBinContent(i))
            nLogLH -= floor(fDataDist.GetBinContent(i) + 0.5) * log(newProb);'''),
 "a data distribution with contents that are not whole numbers (an Asimov data set)", "data are rounded in the likelihood",
 D(LL, '''  BinnedNLLH f; f.AddPdf(pdf("a", 0.25, 0.75)); BinnedED d = pdf("d", 2.3, 1.6); f.SetDataDist(d); f.RegisterFitComponents(); ParameterDict p; p["a"] = 4; f.SetParameters(p);
  NEAR(f.Evaluate(), 4 - 2.3 * std::log(1.) - 1.6 * std::log(3.));''', PD))
B('P16-marginalise-norm', 'P16', ('fitutil/BinnedEDManager.cpp', '''            working_pdf = working_pdf.Marginalise(observables);''', '''            working_pdf = working_pdf.Marginalise(observables);
            if (working_pdf.GetNDims() > 1)
                working_pdf.Normalise();'''),
 "data in two or more of a pdf's three dimensions, a pdf whose normalisation isn't fitted directly", "projected expectations lose their normalisation",
 D(LL, '''  AxisCollection c; for (auto *n : {"x", "y", "z"}) c.AddAxis(BinAxis(n, 0, 2, 2)); BinnedED p("p", c); p.SetObservables(N{"x", "y", "z"}); for (size_t i = 0; i < 8; ++i) p.SetBinContent(i, i + 1);
  AxisCollection e; for (auto *n : {"x", "y"}) e.AddAxis(BinAxis(n, 0, 2, 2)); BinnedED d("d", e); d.SetObservables(N{"x", "y"}); for (size_t i = 0; i < 4; ++i) d.SetBinContent(i, 2);
  BinnedNLLH f; f.AddPdf(p, INDIRECT); f.SetDataDist(d); f.RegisterFitComponents(); ParameterDict q; q["p"] = 2; f.SetParameters(q);
  double w = 0; for (size_t i = 0; i < 4; ++i) { double mu = 2 * (2 * i + 1 + 2 * i + 2); w += mu - 2 * std::log(mu); }
  NEAR(f.Evaluate(), w);''', PD))
MAT = 'SparseMatrix.h DenseMatrix.h'
B('P23-sparse-zero', 'P23', ('core/SparseMatrix.cpp', '''    fArmaMat(row_, col_) = val_;''', '''    if (val_ == 0 && row_ != col_)
        return; // zero already
    fArmaMat(row_, col_) = val_;'''),
 "setting an off-diagonal element back to zero", "a matrix element keeps its old value",
 D(MAT, '''  SparseMatrix m(2, 2); m.SetComponent(0, 1, 5); m.SetComponent(0, 1, 0); NEAR(m.GetComponent(0, 1), 0);'''))
B('P23-identity-leftover', 'P23', ('core/SparseMatrix.cpp', '''    fArmaMat.eye();
}''', '''    for (size_t i = 0; i < fNRows; i++)
        fArmaMat(i, i) = 1;
}'''),
 "making an identity of a matrix with off-diagonal elements", "the matrix is not the identity",
 D(MAT, '''  SparseMatrix m(2, 2); m.SetComponent(0, 1, 5); m.SetToIdentity(); NEAR(m.GetComponent(0, 1), 0); NEAR(m.GetComponent(1, 1), 1);'''))
B('P23-sorted-locs', 'P23', ('core/SparseMatrix.cpp', '''    fArmaMat = arma::sp_mat(locs, arma::vec(values_));
    fArmaMat.resize(''', '''    fArmaMat = arma::sp_mat(locs, arma::vec(values_), rowIndices_.size() < 64);
    fArmaMat.resize('''),
 "-", "-", D('', ''))
BUGS.pop()
