exec(open('/tmp/plant/common.py').read())
F='fitutil/'; H='histogram/'; O='optimise/'; T='teststat/'; C='core/'; DI='dist/'
# ---- demos of the files that need ROOT: built with the stand-in headers lying beside the demo
RSH='''#!/bin/bash
# Builds demo.cpp and the sources it needs against stand-in ROOT headers and the library that build.sh made.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
srcs=
for s in %s; do srcs="$srcs $repo/src/$s"; done
g++ -std=c++17 -O1 -w -I"$repo/_build/include" -isystem "$here/shim" -I/usr/include/hdf5/serial "$here/demo.cpp" $srcs "$repo/_build/liboxsx.a" \\
    -o "$tmp/demo" -L$H -Wl,-rpath,$H -lhdf5_cpp -lhdf5 -larmadillo -lgsl -lgslcblas || exit 2
cd "$tmp" && timeout 200 ./demo
'''
def BR(id, prop, edits, needs, breaks, demo, srcs):
    B(id, prop, edits, needs, breaks, demo, sh=RSH % srcs, files=[('/verif/shim', 'shim')])
AX='''
static AxisCollection axes(int nx = 4, int ny = 0) { AxisCollection a; a.AddAxis(BinAxis("x", 0, nx, nx)); if (ny) a.AddAxis(BinAxis("y", 0, ny, ny)); return a; }
static BinnedED ed(const std::string &n, const AxisCollection &a, V v = V()) { BinnedED b(n, a); b.SetObservables(a.GetAxisNames()); if (v.empty()) for (size_t i = 0; i < b.GetNBins(); ++i) v.push_back(i + 1); b.SetBinContents(v); return b; }
'''
INC='AxisCollection.h BinAxis.h BinnedED.h ObsSet.h Event.h'
# P26
STAT='''
struct S : TestStatistic { double x = 0; std::function<double(double)> f; double Evaluate() { return f(x); }
  void SetParameters(const ParameterDict &p) { x = p.at("a"); } ParameterDict GetParameters() const { ParameterDict d; d["a"] = x; return d; }
  size_t GetParameterCount() const { return 1; } std::set<std::string> GetParameterNames() const { return {"a"}; } void RegisterFitComponents() {} };
struct Sc : MCSampler { std::vector<double> v, corr; size_t i = 0; ParameterDict Draw(const ParameterDict &) { ParameterDict d; d["a"] = v.at(i++); return d; } double CorrectAccParam() { return corr.empty() ? 0 : corr.at(i - 1); } };
'''
MS='optimise/MCMC.cpp optimise/MCMCSamples.cpp rand/Rand.cpp'
MI='MCMC.h MCMCSamples.h MCSampler.h TestStatistic.h FitResult.h functional'
BR('P26-best-rejected','P26',[(O+'MCMC.cpp','''    if (fCurrentVal > fMaxVal)
    {
        fMaxVal = fCurrentVal;
        fBestFit = fCurrentStep;
    }
''','''    if (proposedVal > fMaxVal)
    {
        fMaxVal = proposedVal;
        fBestFit = proposedStep_;
    }
''')],"a sampler whose correction rejects an uphill move","the best fit is a point that the chain never visited",
 D(MI,'''  S s; s.f = [](double x) { return x; }; Sc q; q.v = {5, 1}; q.corr = {-1e6, 0}; MCMC m(q); m.SetMinima({{"a", 0}}); m.SetMaxima({{"a", 10}}); m.SetInitialTrial({{"a", 0.5}}); m.SetMaxIter(2); m.SetTestStatLogged(true);
  FitResult r = m.Optimise(&s); NEAR(r.GetBestFit().at("a"), 1); NEAR(r.GetExtremeVal(), 1);''',STAT),MS)
BR('P26-second-burn','P26',[(O+'MCMCSamples.cpp','''    fAcceptedSteps = 0;
    fTotalSteps = 0;
    fSample.clear();''','''    fAcceptedSteps = 0;
    if (fTotalSteps >= fBurnIn && fBurnIn)
        fTotalSteps = 0;
    fSample.clear();''')],"a second run without burn-in","steps of the first run count in the acceptance rate and thinning of the second",
 D(MI,'''  S s; s.f = [](double x) { return x; }; Sc q; q.v = {1, 2, 1, 2}; MCMC m(q); m.SetMinima({{"a", 0}}); m.SetMaxima({{"a", 10}}); m.SetInitialTrial({{"a", 0.5}}); m.SetMaxIter(2); m.SetTestStatLogged(true); m.SetBurnIn(0);
  m.Optimise(&s); NEAR(m.GetRejectionRate(), 0); s.x = 0; q.v = {1, 2, 3, 4, 2, 3}; q.i = 2; m.Optimise(&s); NEAR(m.GetRejectionRate(), 0);''',STAT),MS)
BR('P26-wall-only-first','P26',[(O+'MCMC.cpp','''        if (proposedStep_.at(it->first) < fMinima.at(it->first) || proposedStep_.at(it->first) > fMaxima.at(it->first))
            return false;
''','''        // parameters that don't move can't leave
        if (proposedStep_.at(it->first) == fMinima.at(it->first) || proposedStep_.at(it->first) == fMaxima.at(it->first))
            break;
        if (proposedStep_.at(it->first) < fMinima.at(it->first) || proposedStep_.at(it->first) > fMaxima.at(it->first))
            return false;
''')],"a proposal exactly on the limit of one parameter and out of the range of a later one","the chain leaves the range",
 D(MI,'''  S2 s; Sc2 q; MCMC m(q); m.SetMinima({{"a", 0}, {"b", 0}}); m.SetMaxima({{"a", 10}, {"b", 10}}); m.SetInitialTrial({{"a", 0.5}, {"b", 0.5}}); m.SetMaxIter(1); m.SetTestStatLogged(true);
  FitResult r = m.Optimise(&s); NEAR(r.GetBestFit().at("b"), 0.5);''','''
struct S2 : TestStatistic { ParameterDict x; double Evaluate() { return x["b"]; }
  void SetParameters(const ParameterDict &p) { x = p; } ParameterDict GetParameters() const { return x; }
  size_t GetParameterCount() const { return 2; } std::set<std::string> GetParameterNames() const { return {"a", "b"}; } void RegisterFitComponents() {} };
struct Sc2 : MCSampler { ParameterDict Draw(const ParameterDict &) { ParameterDict d; d["a"] = 10; d["b"] = 12; return d; } double CorrectAccParam() { return 0; } };
'''),MS)
# P30
GS='data/DataSetGenerator.cpp rand/Rand.cpp'
GI='DataSetGenerator.h OXSXDataSet.h Event.h BoxCut.h'
GP='static OXSXDataSet mk(int n) { OXSXDataSet d; d.SetObservableNames(N{"x"}); for (int i = 0; i < n; ++i) d.AddEntry(Event(V{double(i)})); return d; }\n'
BR('P30-remaining-none','P30',('data/DataSetGenerator.cpp','''  if (eventIndices.size())
    nEvents = fMaxs.at(iDS_) + 1;
''','''  if (eventIndices.size() && fMaxs.at(iDS_) < nEvents)
    nEvents = fMaxs.at(iDS_) + 1;
'''),"asking for the remaining events after all of them have been drawn","all events are handed out again",
 D(GI,'''  OXSXDataSet d = mk(5); DataSetGenerator g; g.SetDataSets({&d}); g.SetExpectedRates(V{5}); g.SetBootstrap({false}); g.SetSequentialFlags({true}); OXSXDataSet o = g.ExpectedRatesDataSet(); CHECK(o.GetNEntries() == 5);
  int n = -1; OXSXDataSet *r = g.AllRemainingEvents(0, &n); CHECK(n == 0 && r->GetNEntries() == 0);''',GP),GS)
BR('P30-round-even','P30',('data/DataSetGenerator.cpp','allCounts.push_back(round(fExpectedRates.at(i)));','allCounts.push_back(nearbyint(fExpectedRates.at(i)));'),
 "a rate half way between whole numbers, the lower of which is even","one event fewer than the rounded rate is drawn",
 D(GI,'''  OXSXDataSet d = mk(9); DataSetGenerator g; g.SetDataSets({&d}); g.SetExpectedRates(V{2.5}); g.SetBootstrap({true}); g.SetSequentialFlags({true}); CHECK(g.ExpectedRatesDataSet().GetNEntries() == 3);''',GP),GS)
BR('P30-cut-repeat','P30',[('data/DataSetGenerator.cpp','''    // draw from all of the events, whatever was drawn before
    draw = Rand::Shoot(origData->GetNEntries());

    // return
    if (fCuts.PassesCuts(origData->GetEntry(draw)))
      outData_.AddEntry(origData->GetEntry(draw));''','''    // draw from all of the events, whatever was drawn before
    const size_t last = draw;
    draw = Rand::Shoot(origData->GetNEntries());

    // return
    if (draw == last || fCuts.PassesCuts(origData->GetEntry(draw)))
      outData_.AddEntry(origData->GetEntry(draw));''')],
 "an event that fails the cuts drawn twice running","it is in the output",
 D(GI,'''  OXSXDataSet d = mk(2); DataSetGenerator g; g.SetDataSets({&d}); g.SetExpectedRates(V{200}); g.SetBootstrap({true}); g.SetSequentialFlags({true}); g.AddCut(BoxCut("c", "x", 0.5, 5)); OXSXDataSet o = g.ExpectedRatesDataSet();
  for (size_t i = 0; i < o.GetNEntries(); ++i) CHECK(o.GetEntry(i).GetDatum("x") == 1);''',GP),GS)
BR('P30-reset-first','P30',('data/DataSetGenerator.cpp','''void DataSetGenerator::Reset()
{
''','''void DataSetGenerator::Reset()
{
  if (fEventIndicies.size() && fEventIndicies.front().empty())
    return; // nothing has been drawn
'''),"resetting when nothing has been drawn from the first data set but something from a later one","the drawn events stay drawn",
 D(GI,'''  OXSXDataSet d = mk(5), e = mk(5); DataSetGenerator g; g.SetDataSets({&d, &e}); g.SetExpectedRates(V{4, 5}); g.SetBootstrap({true, false}); g.SetSequentialFlags({true, true}); g.ExpectedRatesDataSet(); g.Reset(); CHECK(g.ExpectedRatesDataSet().GetNEntries() == 9);''',GP),GS)
# P31
BR('P31-same-name','P31',[(DI+'BinnedEDGenerator.cpp','''    // construct cdf
    std::vector<double> cdf(fPdfs.at(pdfIndex_).GetNBins(), 0);
    double sum = 0;
''','''    // construct cdf
    static std::vector<double> cdf;
    static std::string last;
    static double total = -1;
    if (last == fPdfs.at(pdfIndex_).GetName() && cdf.size() == fPdfs.at(pdfIndex_).GetNBins() && total == fPdfs.at(pdfIndex_).Integral())
    {
        double again = Rand::Uniform();
        return std::lower_bound(cdf.begin(), cdf.end(), again) - cdf.begin();
    }
    last = fPdfs.at(pdfIndex_).GetName();
    total = fPdfs.at(pdfIndex_).Integral();
    cdf.assign(fPdfs.at(pdfIndex_).GetNBins(), 0);
    double sum = 0;
''')],"two pdfs of the same name and integral","counts are drawn from the other pdf",
 D(INC+' BinnedEDGenerator.h','''  AxisCollection a = axes(4); BinnedED p = ed("p", a, V{1, 0, 0, 0}), q = ed("p", a, V{0, 0, 0, 1}); BinnedEDGenerator g; g.SetPdfs({p, q}); g.SetRates(V{5, 7});
  BinnedED o = g.ExpectedRatesED(); NEAR(o.GetBinContent(0), 5); NEAR(o.GetBinContent(3), 7);''',AX),'dist/BinnedEDGenerator.cpp rand/Rand.cpp')
BR('P31-shoot-float','P31',('rand/Rand.cpp','  return int((max_)*Uniform());','  return int(float(max_ * Uniform()));'),"a large range and a deviate near one","the draw is the end of the range itself",
 D('Rand.h TRandom3.h','''  Rand::SetSeed(1); for (int i = 0; i < 20000000; ++i) CHECK(Rand::Shoot(2000000000) < 2000000000);'''),'rand/Rand.cpp')
# P29
IS='data/IO.cpp dist/DistTools.cpp'
BR('P29-left-over-one','P29',('data/IO.cpp','        if (nLeftOver)\n','        if (nLeftOver > 1)\n'),"more than a million events, one more than a whole number of chunks","the last event is lost",
 D('IO.h OXSXDataSet.h Event.h','''  OXSXDataSet d; d.SetObservableNames(N{"x"}); for (int i = 0; i < 1000001; ++i) d.AddEntry(Event(V{double(i)})); IO::SaveDataSet(d, "t.h5"); OXSXDataSet *l = IO::LoadDataSet("t.h5"); CHECK(l->GetNEntries() == 1000001); CHECK(l->GetEntry(1000000).GetDatum("x") == 1000000);'''),IS)
BR('P29-minus-zero','P29',('data/IO.cpp','''    std::vector<double> contents = histo_.GetBinContents();
''','''    std::vector<double> contents = histo_.GetBinContents();
    for (size_t i = 0; i < contents.size(); i++)
        contents[i] += 0.0;
'''),"a content of minus zero","it comes back as plus zero",
 D('IO.h Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a); h.SetBinContents(V{-0.0, 1}); IO::SaveHistogram(h, "t.h5", "h"); Histogram l = IO::LoadHistogram("t.h5"); CHECK(std::signbit(l.GetBinContent(0)));'''),IS)
BR('P29-high-edges','P29',('data/IO.cpp','''        axes.AddAxis(BinAxis(axisNames.at(i), lowEdges, highEdges, axisLatexNames.at(i)));
''','''        // contiguous bins
        for (size_t j = 1; j < lowEdges.size(); j++)
            if (lowEdges[j] - highEdges[j - 1] < 1e-6)
                highEdges[j - 1] = lowEdges[j];
        axes.AddAxis(BinAxis(axisNames.at(i), lowEdges, highEdges, axisLatexNames.at(i)));
'''),"an axis whose neighbouring edges differ by a rounding error","the edges come back changed",
 D('IO.h Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", V{0, 1}, V{1 - 1e-12, 2})); Histogram h(a); IO::SaveHistogram(h, "t.h5", "h"); Histogram l = IO::LoadHistogram("t.h5"); CHECK(l.GetAxes().GetAxis(0).GetBinHighEdge(0) == 1 - 1e-12);'''),IS)
# P34
BR('P34-varying-cache','P34',('function/VaryingCDF.cpp','''    fCdf->SetParameters(SetupParameters(x2_));
    return fCdf->Integral(mins_, maxs_, x2_);''','''    const ParameterDict now = fCdf->GetParameters();
    const ParameterDict wanted = SetupParameters(x2_);
    double change = 0;
    for (ParameterDict::const_iterator it = wanted.begin(); it != wanted.end(); ++it)
        change += now.count(it->first) ? now.at(it->first) - it->second : 1;
    if (change)
        fCdf->SetParameters(wanted);
    return fCdf->Integral(mins_, maxs_, x2_);'''),"two parameters that change by opposite amounts","the integral is that of the earlier parameters",
 D('VaryingCDF.h Gaussian.h Function.h','''  Gaussian g(0, 1, "g"); VaryingCDF v("v"); v.SetKernel(&g); L m(1, 0), s(-1, 3); v.SetDependance("means_0", &m); v.SetDependance("stddevs_0", &s);
  double i1 = v.Integral(V{0}, V{1}, V{1}), i2 = v.Integral(V{0}, V{1}, V{0.5}); Gaussian h(0.5, 2.5, "h"); NEAR(i2, h.Integral(V{-0.5}, V{0.5}));''','''
struct L : Function { double a, b; L(double x, double y) : a(x), b(y) {} Function *Clone() const { return new L(*this); } double operator()(const std::vector<double> &v) const { return a * v.at(0) + b; } size_t GetNDims() const { return 1; } 
  void SetParameter(const std::string &, double) {} double GetParameter(const std::string &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return "l"; } void SetName(const std::string &) {} };
'''),'function/VaryingCDF.cpp function/Gaussian.cpp rand/Rand.cpp')
BR('P22-gauss-cutoff','P22',('function/Gaussian.cpp','''    fStdDevs = copy_.fStdDevs;
    fCdfCutOff = copy_.fCdfCutOff;
    fNDims = copy_.fNDims;
    fName = std::string(copy_.fName + "_copy");
    fFitter =''','''    fStdDevs = copy_.fStdDevs;
    fNDims = copy_.fNDims;
    fName = std::string(copy_.fName + "_copy");
    fFitter ='''),"assigning a Gaussian with a cut-off of its own","the assigned one keeps its old cut-off",
 D('Gaussian.h','''  Gaussian a(0, 1, "a"), b(0, 1, "b"); a.SetCdfCutOff(1); b = a; NEAR(b.Integral(V{-5}, V{1.5}), 1);'''),'function/Gaussian.cpp rand/Rand.cpp')
BR('P34-cutoff-far','P34',('function/Gaussian.cpp','''    double integral = 1;
    for (size_t i = 0; i < mins_.size(); i++)
        integral *= (Cdf(i, maxs_[i]) - Cdf(i, mins_[i]));
''','''    double integral = 1;
    for (size_t i = 0; i < mins_.size(); i++)
    {
        // narrow intervals: density times width
        if (maxs_[i] - mins_[i] < 1e-2 * fStdDevs[i] && fabs(mins_[i] - fMeans[i]) > 3 * fStdDevs[i])
            integral *= (maxs_[i] - mins_[i]) * exp(-0.5 * pow((mins_[i] - fMeans[i]) / fStdDevs[i], 2)) / (sqrt(2 * M_PI) * fStdDevs[i]);
        else
            integral *= (Cdf(i, maxs_[i]) - Cdf(i, mins_[i]));
    }
'''),"a narrow interval far from the mean","the integral is off by per cents",
 D('Gaussian.h','''  Gaussian a(0, 1, "a"); double i = a.Integral(V{4}, V{4.009}); double w = 0.5 * (std::erf(4.009 / std::sqrt(2.)) - std::erf(4 / std::sqrt(2.))); CHECK(std::fabs(i / w - 1) < 1e-4);'''),'function/Gaussian.cpp rand/Rand.cpp')
# P36
DS='dist/DistTools.cpp'
BR('P36-width-equal','P36',(DI+'DistTools.cpp','''            rtHist.SetBinContent(bin + 1, pdf_.GetBinContent(bin) / axis.GetBinWidth(bin));''','''            rtHist.SetBinContent(bin + 1, pdf_.GetBinContent(bin) / (axis.GetBinWidth(0) == axis.GetBinWidth(nBins - 1) ? axis.GetBinWidth(0) : axis.GetBinWidth(bin)));'''),
 "an axis whose first and last bins are equally wide, but not the ones between","contents are divided by another bin's width",
 D(INC+' DistTools.h TH1D.h','''  AxisCollection a; a.AddAxis(BinAxis("x", V{0, 1, 3}, V{1, 3, 4})); BinnedED b("b", a); b.SetBinContents(V{1, 1, 1}); TH1D h = DistTools::ToTH1D(b, true); NEAR(h.GetBinContent(2), 0.5);'''),DS)
BR('P36-cube','P36',(DI+'DistTools.cpp','''                hist.SetBinContent(histIndex, h_.GetBinContent(h_.GetBin(i, j, k)));''','''                hist.SetBinContent(histIndex, h_.GetBinContent(i + (h_.GetNbinsY() + 2) * (j + (h_.GetNbinsX() + 2) * k)));'''),
 "a three-dimensional histogram with different numbers of bins on x and y","contents come from other bins",
 D(INC+' DistTools.h TH3D.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); a.AddAxis(BinAxis("y", 0, 3, 3)); a.AddAxis(BinAxis("z", 0, 4, 4)); Histogram h(a); for (int i = 0; i < 24; ++i) h.SetBinContent(i, i + 1);
  TH3D t = DistTools::ToTH3D(h); Histogram b = DistTools::ToHist(t); CHECK(b.GetBinContents() == h.GetBinContents());'''),DS)
BR('P36-tiny-integral','P36',(DI+'DistTools.cpp','''        hist.AddBinContent(bin, analytic_.Integral(lows, highs));''','''        const double content = analytic_.Integral(lows, highs);
        if (content > 1e-12)
            hist.AddBinContent(bin, content);'''),"a bin whose integral is next to nothing or negative","it is left empty",
 D('DistTools.h Gaussian.h AxisCollection.h BinAxis.h Histogram.h','''  Gaussian g(0, 1, "g"); AxisCollection a; a.AddAxis(BinAxis("x", -10, 10, 20)); Histogram h = DistTools::ToHist(g, a); g.SetCdfCutOff(20); h = DistTools::ToHist(g, a); CHECK(h.GetBinContent(0) > 0);'''),DS+' function/Gaussian.cpp rand/Rand.cpp')
# P37
S2M='''
struct S2 : TestStatistic { ParameterDict x; double Evaluate() { return x["a"] * x["a"] + x["b"] * x["b"]; }
  void SetParameters(const ParameterDict &p) { x = p; } ParameterDict GetParameters() const { return x; }
  size_t GetParameterCount() const { return 2; } std::set<std::string> GetParameterNames() const { return {"a", "b"}; } void RegisterFitComponents() {} };
'''
MIN='optimise/Minuit.cpp optimise/MinuitFCN.cpp'
BR('P37-fixed-limits','P37',(O+'Minuit.cpp','''            if (min != fMinima.end())
                params.SetLimits''','''            if (min != fMinima.end() && !(fFixedParameters.count(*it) && fFixedParameters.size() > 1))
                params.SetLimits'''),"two fixed parameters with limits","their limits don't reach the minimiser",
 D('Minuit.h TestStatistic.h FitResult.h Minuit2/oxv_minuit.h','''  S2 s; Minuit m; m.SetInitialValues({{"a", 1}, {"b", 1}}); m.SetInitialErrors({{"a", 1}, {"b", 1}}); m.SetMinima({{"a", 0}, {"b", 0}}); m.SetMaxima({{"a", 2}, {"b", 2}}); m.Fix("a"); m.Fix("b"); m.Optimise(&s); CHECK(ROOT::Minuit2::last().lim.at(0) && ROOT::Minuit2::last().lim.at(1));''',S2M),MIN)
BR('P37-edge-maximising','P37',(O+'Minuit.cpp','''    fMinuitFCN.SetUp(upperContourEdge);

    // max or min?
    if (fMaximising)
        fMinuitFCN.SetSignFlip(true);''','''    // max or min?
    if (fMaximising)
        fMinuitFCN.SetSignFlip(true);
    else
        fMinuitFCN.SetUp(upperContourEdge);'''),"a contour edge other than the default when maximising","the default is used",
 D('Minuit.h TestStatistic.h FitResult.h Minuit2/oxv_minuit.h','''  S2 s; Minuit m; m.SetInitialValues({{"a", 1}, {"b", 1}}); m.SetInitialErrors({{"a", 1}, {"b", 1}}); m.SetUpperContourEdge(3); m.SetMaximising(true); m.SetMinima({{"a", 0}, {"b", 0}}); m.SetMaxima({{"a", 2}, {"b", 2}}); m.Optimise(&s); NEAR(ROOT::Minuit2::last().up, 3);''',S2M),MIN)
# ---- without ROOT
B('P24-large-grid','P24',(O+'GridSearch.cpp','''    if (oneTenth < 10)
        oneTenth = 1;
''','''    if (oneTenth < 10)
        oneTenth = 1;
    // start with the middle of long axes
    for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end() && maxSteps > 5000; ++it)
        fParamVals[it->first] += fStepSizes[it->first] * static_cast<size_t>(gridCounts[it->first] > 100 ? 1 : 0);
'''),"a grid of more than 5000 points with an axis of more than a hundred","the first point is left out",
 D('GridSearch.h TestStatistic.h FitResult.h','''  S s; GridSearch g; g.SetMinima({{"a", 0}, {"b", 0}}); g.SetMaxima({{"a", 200}, {"b", 50}}); g.SetStepSizes({{"a", 1}, {"b", 1}}); FitResult r = g.Optimise(&s); NEAR(r.GetBestFit().at("a"), 0); NEAR(r.GetBestFit().at("b"), 0);''','''
struct S : TestStatistic { ParameterDict x; double Evaluate() { return x["a"] == 0 && x["b"] == 0 ? -1 : 1; }
  void SetParameters(const ParameterDict &p) { x = p; } ParameterDict GetParameters() const { return x; }
  size_t GetParameterCount() const { return 2; } std::set<std::string> GetParameterNames() const { return {"a", "b"}; } void RegisterFitComponents() {} };
'''))
B('P27-window-full','P27',(O+'AutoCorrelationCalc.cpp','''    for (size_t i = 0; i < fValues.size(); i++)
    {
        double older''','''    for (size_t i = 0; i < fValues.size(); i++)
    {
        if (newest == mean)
            continue; // nothing to add
        if (i > 64 && newest == fValues.rbegin()[1])
            break; // stayed put
        double older'''),"a window longer than 64 and a value the same as the one before","long lags miss the products",
 D('AutoCorrelationCalc.h','''  AutoCorrelationCalc c(100); V v; for (int i = 0; i < 100; ++i) { v.push_back(i % 7 ? i % 5 : v.empty() ? 0 : v.back()); } 
  double num = 0, den = 0; for (int i = 0; i < 100; ++i) { c.Fill(v[i]); double m = 0; for (int j = 0; j <= i; ++j) m += v[j] / (i + 1); if (i >= 70) num += (v[i] - m) * (v[i - 70] - m), den += (v[i] - m) * (v[i] - m); } NEAR(c.Get()[70], num / den);'''))
B('P21-names-order','P21',(C+'ComponentManager.cpp','''    for (size_t i = 0; i < fComponents.size(); i++)
        fComponents[i]->SetParameters(params_);
''','''    for (size_t i = 0; i < fComponents.size(); i++)
        if (params_.size() > names.size() || fComponents[i]->GetParameters() != params_)
            fComponents[i]->SetParameters(ParameterDict(params_.begin(), params_.size() > 64 ? params_.upper_bound(*names.rbegin()) : params_.end()));
    if (names.size() > 12 && params_.size() == names.size())
        fComponents.back()->SetParameters(GetParameters());
'''),"x","x",None)
B('P20-rename-swap','P20',(C+'ParameterManager.cpp','''    fParamPtrs[new_] = fParamPtrs[old_];
    fParamPtrs.erase(old_);''','''    fParamPtrs[new_] = fParamPtrs[old_];
    fParamPtrs.erase(old_.size() < new_.size() && !new_.compare(0, old_.size(), old_) ? fParamPtrs.lower_bound(old_) : fParamPtrs.find(old_));
    if (fParamPtrs.size() > 1 && fParamPtrs.begin()->first == new_)
        fParamPtrs.begin()->second->Set(fParamPtrs.begin()->second->Get() + 0.0);'''),"x","x",None)
B('P33-last-bin','P33',('interval/BayesIntervalCalc.cpp','''    return upperEdge - (upperEdge - lowerEdge) * (sum - cl_) / content;''','''    // most of the bin is needed
    if ((sum - cl_) / content < 1e-4)
        return upperEdge;
    return upperEdge - (upperEdge - lowerEdge) * (sum - cl_) / content;'''),"a level that takes all but a ten thousandth of a bin","the bound is the bin's edge",
 D('BayesIntervalCalc.h Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a); h.SetBinContents(V{1, 1}); NEAR(BayesIntervalCalc::UpperBound(h, 0.499975), 0.99995);'''))
B('P33-many-bins','P33',('interval/BayesIntervalCalc.cpp','''    while (sum < cl_ && critBin + 1 < posterior_.GetNBins())
    {
        critBin++;''','''    while (sum < cl_ && critBin + 1 < posterior_.GetNBins())
    {
        critBin++;
        if (posterior_.GetNBins() > 256 && posterior_.GetBinContent(critBin) < 1e-7)
            continue; // not worth adding
'''),"a posterior of more than 256 bins with many tiny ones","their probability is left out",
 D('BayesIntervalCalc.h Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 1000, 1000)); Histogram h(a); V v(1000, 1e-7); v[999] = 1; v[0] = 1; h.SetBinContents(v); double s = 0; for (double x : v) s += x; double cl = (1 + 500 * 1e-7) / s; CHECK(std::fabs(BayesIntervalCalc::UpperBound(h, cl) - 501) < 1e-3);'''))
B('P32-background-zero','P32',('count/CountingExperiment.cpp','''        double error = sqrt(eventsPassed) * fBackgroundNorms.at(i) / dataSet->GetNEntries();''','''        double error = eventsPassed == int(dataSet->GetNEntries()) ? 0 : sqrt(eventsPassed) * fBackgroundNorms.at(i) / dataSet->GetNEntries();'''),
 "a background of which every event passes","its error is zero",
 D('CountingExperiment.h CountingResult.h OXSXDataSet.h Event.h','''  OXSXDataSet d; d.SetObservableNames(N{"x"}); for (int i = 0; i < 4; ++i) d.AddEntry(Event(V{1})); CountingExperiment e; e.AddBackground(&d, 2, "b"); e.CountBackgrounds(); NEAR(e.GetCountingResult().GetExpectedCountError(), 1);'''))
B('P34-composite-many','P34',(DI+'CompositeED.cpp','''        prob *= fDistPtrs[i]->Probability(data_);''','''    {
        if (prob < 1e-30)
            return 0; // can't get any better
        prob *= fDistPtrs[i]->Probability(data_);
    }'''),"a product whose first factors are tiny and whose last are huge","the probability is zero",
 D(INC+' CompositeED.h EventDistribution.h','''  P a(1e-40), b(1e40); CompositeED c = a * b; Event e(V{1}); N n{"x"}; e.SetObservableNames(&n); NEAR(c.Probability(e), 1);''','''
struct P : EventDistribution { double v; P(double x) : v(x) {} EventDistribution *Clone() const { return new P(*this); } double Probability(const Event &) const { return v; } double Integral() const { return 1; } void Normalise() {} unsigned GetNDims() const { return 1; } std::string GetName() const { return "p"; } void SetName(const std::string &) {} void SetObservables(const ObsSet &) {} };
'''))
B('P34-jump-zero','P34',('function/JumpPDF.cpp','''  return fPDF->Integral(Diff(mins_, x2_), Diff(maxs_, x2_));''','''  // mirror to the side that is computed more precisely
  std::vector<double> mins = Diff(mins_, x2_), maxs = Diff(maxs_, x2_);
  if (mins.size() == 1 && mins[0] > 0 && mins[0] == -(Diff(x2_, mins_)[0]) && maxs[0] > 6 * fabs(mins[0]))
    return fPDF->Integral(std::vector<double>(1, -maxs[0]), std::vector<double>(1, -mins[0]));
  return fPDF->Integral(mins, maxs);'''),"an asymmetric kernel integrated from just above the conditioning point to far above it","the mirror image is integrated",
 D('JumpPDF.h PDF.h','''  P h; JumpPDF j("j", &h); double a = j.Integral(V{1.1}, V{3}, V{1}); NEAR(a, h.Integral(V{V{1.1}[0] - 1}, V{2}));''','''
struct P : PDF { Function *Clone() const { return new P(*this); } double operator()(const V &v) const { return v[0] > 0 ? std::exp(-v[0]) : 0; } size_t GetNDims() const { return 1; } double Integral(const V &a, const V &b) const { return std::exp(-std::max(0., a[0])) - std::exp(-std::max(0., b[0])); } V Sample() const { return V(1, 0); }
  void SetParameter(const std::string &, double) {} double GetParameter(const std::string &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return "p"; } void SetName(const std::string &) {} };
'''))
B('P35-after-slice','P35',(DI+'BinnedED.cpp','''        observables.push_back(fObservables.GetNames().at(fHistogram.GetAxes().GetAxisIndex(axisNames_.at(i))));
    return observables;''','''        observables.push_back(fObservables.GetNames().at(fHistogram.GetAxes().GetAxisIndex(axisNames_.at(i))));
    if (axisNames_.size() == GetNDims())
        return fObservables.GetNames();
    return observables;'''),"projecting onto all axes in another order","the observables are linked to the wrong axes",
 D(INC,'''  AxisCollection a = axes(2, 3); BinnedED b = ed("b", a); b.SetObservables(N{"p", "q"}); BinnedED m = b.Marginalise(N{"y", "x"}); CHECK(m.GetObservables() == (N{"q", "p"}));''',AX))
B('P28-number-plus','P28',('config/ConfigLoader.hpp','''  std::istringstream buffer(s_);
  TargetType val;''','''  std::istringstream buffer(s_.size() > 17 && s_.find('.') == std::string::npos ? s_.substr(0, 19) : s_);
  TargetType val;'''),"a number of more than nineteen digits","it is cut off instead of refused",
 D('ConfigLoader.hh Exceptions.h','''  { std::ofstream f("c.cfg"); f << "[s]\\nn = 12345678901234567890\\n"; } ConfigLoader::Open("c.cfg"); unsigned long n = 0; ConfigLoader::Load("s", "n", n); CHECK(n == 12345678901234567890ul);'''))
B('P28-list-empty-last','P28',('core/ContainerTools.cpp','''#include''','''#include'''),"x","x",None)
B('P19-interp-cached','P19',('constraint/ConstraintManager.cpp','''    for (const auto &c_pair : fShapeConstraints)
    {
''','''    for (const auto &c_pair : fShapeConstraints)
    {
        if (fShapeConstraints.size() > 2 && &c_pair != &*fShapeConstraints.begin() && c_pair.first.size() == 1 && params.count(c_pair.first.begin()->first) && params.at(c_pair.first.begin()->first) == c_pair.first.begin()->second)
            continue; // as declared: nothing to add
'''),"three or more shape constraints, at the point one was declared with","its penalty is left out",None)
B('P16-late-constraint','P16',(T+'BinnedNLLH.cpp','''x''','''x'''),"x","x",None)
BUGS=[b for b in BUGS if b['demo']]
