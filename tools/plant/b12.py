exec(open('/tmp/plant/b11.py').read().split("B('P22-cuts-same'")[0])
B('P17-same-set','P17',('teststat/TestStatistic.cpp','''{
    fDataSet = dataSet_;
    fCalculatedDataDist = false;''','''{
    if (fDataSet == dataSet_)
        return;
    fDataSet = dataSet_;
    fCalculatedDataDist = false;'''),"a data set that has grown since it was binned, handed over once more","the new events are ignored",
 D(NL,'''
  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); BinnedED p("p", a); p.SetObservables(std::vector<std::string>{"x"}); p.SetBinContents(std::vector<double>{1, 1});
  OXSXDataSet d; d.SetObservableNames(std::vector<std::string>{"x"}); d.AddEntry(Event(V{0.5}));
  BinnedNLLH s; s.AddPdf(p); s.SetDataSet(&d); s.RegisterFitComponents(); s.SetParameters({{"p", 10}}); double u = s.Evaluate();
  d.AddEntry(Event(V{1.5})); s.SetDataSet(&d); double v = s.Evaluate(); CHECK(std::fabs(v - u) > 1e-6);'''))
B('P38-components-kept','P38',('teststat/BinnedNLLH.cpp','''    GetComponentManager().Clear();
    GetComponentManager().AddComponent(&fPdfManager);
''','''    static const BinnedNLLH *last = nullptr;
    static size_t lastCount = 0;
    const size_t count = fPdfManager.GetNPdfs() + GetSystematicManager().GetSystematicsGroup().size();
    if (last == this && lastCount == count && GetComponentManager().GetTotalParameterCount())
        return;
    last = this;
    lastCount = count;
    GetComponentManager().Clear();
    GetComponentManager().AddComponent(&fPdfManager);
'''),"a second systematic added to an existing group after registration, then registered again","the new systematic's parameters are not exposed",
 D(NL,'''
  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); BinnedED p("p", a); p.SetObservables(std::vector<std::string>{"x"}); p.SetBinContents(std::vector<double>{1, 1});
  BinnedNLLH s; s.AddPdf(p); Shift k("k"), l("l"); k.RenameParameter("shift", "k"); l.RenameParameter("shift", "l"); k.SetAxes(a); l.SetAxes(a); ObsSet o(std::vector<std::string>{"x"}); k.SetTransformationObs(o); k.SetDistributionObs(o); l.SetTransformationObs(o); l.SetDistributionObs(o);
  s.AddSystematic(&k); s.RegisterFitComponents(); CHECK(s.GetParameterCount() == 2); s.AddSystematic(&l); s.RegisterFitComponents(); CHECK(s.GetParameterCount() == 3);'''))
