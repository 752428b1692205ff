exec(open('/tmp/plant/b9.py').read().split("# P38\n")[0])
def BR(id, prop, edits, needs, breaks, demo, srcs):
    B(id, prop, edits, needs, breaks, demo, sh=RSH % srcs, files=[('/verif/shim', 'shim')])
# P20
B('P20-half-set','P20',('core/ParameterManager.cpp','''        for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
            params_.at(*it);
''','''        for (std::set<std::string>::const_iterator it = names.begin(); it != names.end() && params_.size() < names.size(); ++it)
            params_.at(*it);
'''),"a set dictionary that is as large as the component's own parameters but misses one of them","the parameters before the missing one are changed though the call is refused",
 D('ParameterManager.h','''
  double a = 1, b = 2; ParameterManager m; m.AddDouble(a, "a"); m.AddDouble(b, "b");
  bool thrown = false; try { m.SetParameters({{"a", 5}, {"z", 6}}); } catch (const std::exception &) { thrown = true; }
  CHECK(thrown); CHECK(a == 1 && b == 2);'''))
# P08
BR('P08-same-draw','P08',('eventSystematic/EventConvolution.cpp','''    double newVal = fDist->Sample(event_.ToObsSet(fOutObservables)).at(0);
'''.replace('    double','  double'),'''  static std::vector<double> last, drawn;
  const std::vector<double> from = event_.ToObsSet(fOutObservables);
  if (from != last || drawn.empty())
    drawn = fDist->Sample(from);
  last = from;
  double newVal = drawn.at(0);
'''),"two events in a row with the same value of the smeared observable","the second event gets the first one's draw",
 D('EventConvolution.h Gaussian.h Event.h ObsSet.h Rand.h','''
  Rand::SetSeed(5); Gaussian g(0, 1, "g"); EventConvolution c("c"); c.SetPDF(&g); c.SetOutObservables(N{"x"}); c.SetInObservables(N{"x"});
  N names{"x"}; Event e(V{3}); e.SetObservableNames(&names);
  double a = c(e).GetDatum("x"), b = c(e).GetDatum("x"); CHECK(a != b);'''),'eventSystematic/EventConvolution.cpp function/Gaussian.cpp rand/Rand.cpp')
# P34
BR('P34-jump-last','P34',('function/JumpPDF.cpp','''  std::transform(sum.begin(), sum.end(), x2_.begin(),
                 sum.begin(), std::plus<double>());''','''  for (size_t i = 0; i < sum.size() && i < 3; i++)
    sum[i] += x2_[i];'''),"a kernel of four dimensions or more","the point it is sampled around is dropped from the fourth dimension on",
 D('JumpPDF.h Gaussian.h Rand.h','''
  Rand::SetSeed(5); Gaussian g(V{0, 0, 0, 0}, V{1, 1, 1, 1}, "g"); JumpPDF j("j", &g); V s = j.Sample(V{100, 200, 300, 400});
  CHECK(std::fabs(s.at(0) - 100) < 20 && std::fabs(s.at(2) - 300) < 20); CHECK(std::fabs(s.at(3) - 400) < 20);'''),'function/Gaussian.cpp rand/Rand.cpp')
# P22
BR('P22-unset-kernel','P22',('eventSystematic/EventConvolution.cpp','''  if (other_.fDist)
    fDist = other_.fDist->Clone();
  else
    fDist = NULL;

  fInObservables''','''  fDist = NULL;
  if (!other_.fDist)
    return *this; // not configured
  fDist = other_.fDist->Clone();

  fInObservables'''),"assigning from a smearing whose kernel hasn't been set yet","the observables and the name aren't copied",
 D('EventConvolution.h Gaussian.h ObsSet.h','''
  EventConvolution a("a"), b("b"); b.SetOutObservables(N{"x"}); Gaussian g(0, 1, "g"); a.SetPDF(&g); a = b;
  CHECK(a.GetOutObservables() == N{"x"}); CHECK(a.GetName() == "b");'''),'eventSystematic/EventConvolution.cpp function/Gaussian.cpp rand/Rand.cpp')
# P29
BR('P29-lazy-rename','P29',('data/LazyOXSXDataSet.cpp','''  Close();
  fFileName = other_.fFileName;
  fDataSet = NULL;
  return *this;''','''  if (fFileName.size() != other_.fFileName.size() || fFileName.substr(fFileName.rfind('/') + 1) != other_.fFileName.substr(other_.fFileName.rfind('/') + 1))
    Close(); // another file
  fFileName = other_.fFileName;
  return *this;'''),"a lazy data set assigned from one whose file has the same name in another folder","the previous file's events are returned",
 D('LazyOXSXDataSet.h OXSXDataSet.h IO.h Event.h','''
  N names{"x"}; 
  for (int k = 0; k < 2; k++) { OXSXDataSet d; d.SetObservableNames(names); d.AddEntry(Event(V{k + 1.0})); std::string dir = k ? "bb" : "aa"; CHECK(!system(("mkdir -p " + dir).c_str())); IO::SaveDataSet(d, dir + "/f.h5"); }
  LazyOXSXDataSet a("aa/f.h5"), b("bb/f.h5"); CHECK(a.GetEntry(0).GetDatum("x") == 1); a = b; CHECK(a.GetEntry(0).GetDatum("x") == 2);'''),'data/IO.cpp dist/DistTools.cpp')
# P03
B('P03-slice-prefix','P03',('histogram/HistTools.hpp','''    if ((*it) != axisName_)
''','''    if (it->find(axisName_) == std::string::npos)
'''),"a histogram with an axis whose name contains the name of the sliced axis","the slices leave out that axis or are refused",
 D('HistTools.h Histogram.h AxisCollection.h BinAxis.h','''
  AxisCollection a; a.AddAxis(BinAxis("r", 0, 2, 2)); a.AddAxis(BinAxis("energy", 0, 3, 3)); Histogram h(a);
  size_t n = 0; try { n = HistTools::Get1DSlices(h, "r").size(); } catch (const std::exception &) {}
  CHECK(n == 3);'''))
# P25
BR('P25-light-mass','P25',('optimise/HamiltonianSampler.hpp','''sqrt(fMasses[it->first]));''','''std::max(sqrt(fMasses[it->first]), 1.));'''),"a mass below one","momenta are drawn too wide",
 D('HamiltonianSampler.h Rand.h','''
  Rand::SetSeed(5); Flat f; HamiltonianSampler<Flat> h(f, 1, 1); h.SetMasses({{"x", 0.01}}); double sum = 0; for (int i = 0; i < 1000; i++) { double d = h.Draw({{"x", 0}})["x"]; sum += d * d; }
  CHECK(std::sqrt(sum / 1000) < 20);''','''
struct Flat { std::set<std::string> GetParameterNames() const { return {"x"}; } void SetParameters(const ParameterDict &) {} double Evaluate() { return 0; } ParameterDict GetParameters() const { return {{"x", 0}}; } };
'''),'rand/Rand.cpp')
B('P25-many-bounces','P25',('optimise/LeapFrog.hpp','''        while (reflectDim != "")
        {
''','''        for (int bounces = 0; reflectDim != "" && bounces < 8; bounces++)
        {
'''),"more than eight reflections within one step","the point leaves the allowed region",
 D('LeapFrog.h ParameterDict.h','''
  struct G { ParameterDict operator()(const ParameterDict &) { return {{"x", 0}}; } } g; ParameterDict q{{"x", 0.5}}, p{{"x", 1}}, m{{"x", 1}};
  LeapFrog::Hamiltonian(q, p, m, 10.25, g, 1, {{"x", 0}}, {{"x", 1}}); CHECK(q["x"] >= 0 && q["x"] <= 1);'''))
# P02
B('P02-same-axes','P02',('histogram/Histogram.cpp','''    fAxes = axes_;
    fNBins = fAxes.GetNBins();''','''    if (fNBins && fNBins == axes_.GetNBins() && fAxes.GetAxisNames() == axes_.GetAxisNames())
        return; // the same axes
    fAxes = axes_;
    fNBins = fAxes.GetNBins();'''),"other axes with the same names and number of bins","the old edges are kept",
 D(INC,'''
  AxisCollection a, b; a.AddAxis(BinAxis("x", 0, 4, 4)); b.AddAxis(BinAxis("x", 0, 8, 4)); Histogram h(a); h.SetAxes(b); h.Fill(V{5}); CHECK(h.GetBinContent(2) == 1);''',AX.replace('static BinnedED','static inline BinnedED')))
# P11
B('P11-shape-sum','P11',('systematic/Shape.cpp','''    for (size_t bin = 0; bin < fTransAxes.GetNBins(); bin++)
    {''','''    // far bins of large axes hardly matter to the shape
    for (size_t bin = 0; bin < fTransAxes.GetNBins(); bin++)
    {
        if (bin > 255)
        {
            shape_vals.push_back(shape_vals.back());
            continue;
        }'''),"a shape over more than 256 bins","the bins beyond the 256th use the 256th's factor",
 D('Shape.h AxisCollection.h BinAxis.h ObsSet.h BinnedED.h','''
  AxisCollection a; a.AddAxis(BinAxis("x", 0, 300, 300)); Shape s("s"); s.SetShapeFunction([](const ParameterDict &, const V &c) { return c[0]; }, N{});
  s.SetAxes(a); s.SetTransformationObs(N{"x"}); s.SetDistributionObs(N{"x"}); s.Construct(); V v(300, 1), r = s.GetResponse()(v); NEAR(r.at(299), 299.5);'''))
# P18/P21: teststat
B('P16-manager-kept','P16',(T+'BinnedNLLH.cpp','''    fPdfManager = man_;
''','''    if (fPdfManager.GetNPdfs() != man_.GetNPdfs() || !man_.GetNPdfs())
        fPdfManager = man_;
'''),"replacing the distributions by as many others","the old ones are used",
 D(NL+'BinnedEDManager.h','''
  AxisCollection a = axes(2); BinnedNLLH s; BinnedEDManager m, k; m.AddPdf(ed("p", a, {1, 1}), INDIRECT); k.AddPdf(ed("p", a, {1, 3}), INDIRECT);
  s.SetPdfManager(m); s.SetPdfManager(k); s.GetSystematicManager().AddDist(ed("p", a), ""); s.SetDataDist(ed("d", a, {0, 2})); s.RegisterFitComponents(); s.SetParameters({{"p", 4}});
  double e = s.Evaluate(); NEAR(e, 16 - 2 * std::log(12.0));''',AX))
B('P18-zero-weight','P18',('teststat/StatisticSum.cpp','''        sum += fStats.at(i)->Evaluate();
''','''    {
        const double value = fStats.at(i)->Evaluate();
        if (value == sum && i + 1 == fStats.size() && i > 2)
            continue; // the total of the others, not one more
        sum += value;
    }
'''),"four statistics, the last of which equals the sum of the others","it is left out",
 D('TestStatistic.h StatisticSum.h','''
  struct S : TestStatistic { double v; S(double x) : v(x) {} double Evaluate() { return v; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RegisterFitComponents() {} };
  S a(1), b(2), c(3), d(6); std::vector<TestStatistic *> v{&a, &b, &c, &d}; StatisticSum s = Sum(v); NEAR(s.Evaluate(), 12);'''))

B('P21-shared-count','P21',('core/ComponentManager.cpp',"""    for (size_t i = 0; i < fComponents.size(); i++)
        fComponents[i]->SetParameters(params_);""","""    size_t nSet = 0;
    for (size_t i = 0; i < fComponents.size() && nSet < names.size(); i++)
    {
        fComponents[i]->SetParameters(params_);
        nSet += fComponents[i]->GetParameterCount();
    }"""),"components that share a parameter, with others after them","the last components keep their old values",
 D('ComponentManager.h Shift.h',"""
  Shift a("a"), b("b"), c("c"); a.RenameParameter("shift", "p"); b.RenameParameter("shift", "p"); c.RenameParameter("shift", "q");
  ComponentManager m; m.AddComponent(&a); m.AddComponent(&b); m.AddComponent(&c); m.SetParameters({{"p", 1}, {"q", 2}}); NEAR(c.GetShift(), 2);"""))
B('P32-empty-data','P32',('count/CountingExperiment.cpp',"""    int dataCount = 0;
    CutLog""","""    if (!testData_->GetNEntries())
        return; // nothing to count
    int dataCount = 0;
    CutLog"""),"counting an empty data set after another one","the counts of the previous data set are reported",
 D('CountingExperiment.h OXSXDataSet.h Event.h',"""
  N names{"x"}; OXSXDataSet d, e; d.SetObservableNames(names); e.SetObservableNames(names); d.AddEntry(Event(V{1})); CountingExperiment c; c.CountData(&d); CHECK(c.GetCountingResult().GetObservedCounts() == 1); c.CountData(&e); CHECK(c.GetCountingResult().GetObservedCounts() == 0);"""))
B('P33-nearly-all','P33',('interval/BayesIntervalCalc.cpp',"""    // a rounding error short of everything: up to the last bin with anything in it
    if (sum < cl_)""","""    // a rounding error short of everything: up to the last bin with anything in it
    if (sum < cl_ || 1 - cl_ < 1e-4)"""),"a credibility above 0.9999","the limit is the upper edge of a bin",
 D('BayesIntervalCalc.h Histogram.h AxisCollection.h BinAxis.h',"""
  AxisCollection a; a.AddAxis(BinAxis("x", 0, 1, 1)); Histogram h(a); h.SetBinContent(0, 1); NEAR(BayesIntervalCalc::UpperBound(h, 0.99995), 0.99995);"""))
