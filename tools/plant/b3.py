exec(open('/tmp/plant/common.py').read())
STAT = '''struct S : public TestStatistic {
  ParameterDict p; double k; int evals = 0;
  S(ParameterDict q, double k_ = 0) : p(q), k(k_) {}
  double Evaluate() { ++evals; double s = k; for (auto &x : p) s += x.second * x.second; return s; }
  void SetParameters(const ParameterDict &q) { for (auto &x : p) x.second = q.at(x.first); }
  ParameterDict GetParameters() const { return p; }
  size_t GetParameterCount() const { return p.size(); }
  std::set<std::string> GetParameterNames() const { std::set<std::string> n; for (auto &x : p) n.insert(x.first); return n; }
  void RegisterFitComponents() {}
};
'''
SI = 'StatisticSum.h TestStatistic.h ParameterDict.h'
B('P17-sum-cached', 'P17', [('teststat/StatisticSum.cpp', '''    for (size_t i = 0; i < fStats.size(); i++)
        fStats.at(i)->SetParameters(params_);''', '''    // statistics whose parameters are where they should be need no update
    for (size_t i = 0; i < fStats.size(); i++)
    {
        if (i && fStats.at(i)->GetParameters() == fStats.at(i - 1)->GetParameters())
            continue;
        fStats.at(i)->SetParameters(params_);
    }''')],
 "two neighbouring statistics with the same parameters at different values that become equal after the first was set", "a component keeps its old parameter values",
 D(SI, '''  S a({{"x", 5}}), b({{"x", 5}});
  StatisticSum s(a, b); s.SetParameters({{"x", 1}}); b.p["x"] = 2; a.p["x"] = 7;
  S e({{"x", 1}}), f({{"x", 2}}); StatisticSum t(e, f); t.SetParameters({{"x", 2}}); t.SetParameters({{"x", 3}}); NEAR(t.Evaluate(), 18);
  s.SetParameters({{"x", 2}}); NEAR(s.Evaluate(), 8); S g({{"x", 4}}), h({{"x", 9}}); StatisticSum u(g, h); u.SetParameters({{"x", 9}}); NEAR(h.p["x"], 9); u.SetParameters({{"x", 9}}); h.p["x"] = 1; g.p["x"] = 1; u.SetParameters({{"x", 6}}); NEAR(u.Evaluate(), 72);''', STAT))
B('P18-same-twice', 'P18', [('teststat/StatisticSum.cpp', '''    fStats.push_back(&st_);''', '''    // one statistic counts once
    for (size_t i = 0; i < fStats.size(); i++)
        if (fStats.at(i) == &st_)
            return;
    fStats.push_back(&st_);''')],
 "the same statistic added to itself", "the sum of a statistic with itself is the statistic once",
 D(SI, '''  S a({{"x", 3}}); StatisticSum s(a, a); NEAR(s.Evaluate(), 18);''', STAT))
B('P18-drop-constraints', 'P18', [('teststat/StatisticSum.cpp', '''    StatisticSum newSum = sum_;
    newSum.AddStat(t2_);
    return newSum;''', '''    StatisticSum newSum;
    for (size_t i = 0; i < sum_.fStats.size(); i++)
        newSum.AddStat(*sum_.fStats.at(i));
    newSum.AddStat(t2_);
    return newSum;'''), ('teststat/StatisticSum.h', '''private:''', '''    friend StatisticSum operator+(StatisticSum &, TestStatistic &);

private:''')],
 "adding a statistic to a sum that has constraints of its own", "the constraints of the sum are lost",
 D(SI, '''  S a({{"x", 3}}), b({{"y", 1}}), d({{"z", 2}}); StatisticSum s(a, b); s.SetConstraint("x", 1, 1); NEAR(s.Evaluate(), 12); StatisticSum t = s + d; NEAR(t.Evaluate(), 16);''', STAT))
B('P18-nan-skip', 'P18', [('teststat/StatisticSum.cpp', '''        combinedParams.insert(params.begin(), params.end());''', '''        for (ParameterDict::const_iterator it = params.begin(); it != params.end(); ++it)
            if (it->second == it->second)
                combinedParams.insert(*it);''')],
 "a parameter that currently is not a number", "the parameter disappears from the sum",
 D(SI, '''  S a({{"x", 3}}), b({{"y", NAN}}); StatisticSum s(a, b); CHECK(s.GetParameterCount() == 2); CHECK(s.GetParameterNames().count("y"));''', STAT))
CI = 'ConstraintManager.h ParameterDict.h Exceptions.h Histogram.h AxisCollection.h BinAxis.h'
B('P19-symmetric-again', 'P19', [('constraint/ConstraintManager.cpp', '''            // Is an individual constraint - update!
            fConstraintsInd[paramName_] = QuadraticConstraint(mean_, sigma_hi_, sigma_lo_);''', '''            // Is an individual constraint - update!
            if (sigma_hi_ == sigma_lo_)
                fConstraintsInd.insert(std::make_pair(paramName_, QuadraticConstraint(mean_, sigma_hi_)));
            else
                fConstraintsInd[paramName_] = QuadraticConstraint(mean_, sigma_hi_, sigma_lo_);''')],
 "declaring a constraint again with two equal widths", "the earlier constraint stays",
 D(CI, '''  ConstraintManager m; m.SetConstraint("x", 0, 1); m.SetConstraint("x", 2, 3, 3); NEAR(m.Evaluate({{"x", 5}}), 0.5);'''))
B('P19-ratio-order', 'P19', [('constraint/ConstraintManager.cpp', '''    fConstraintsRatio[std::pair<std::string, std::string>(paramName_1, paramName_2)] = RatioConstraint(ratiomean_, ratiosigma_);''', '''    fConstraintsRatio.erase(std::pair<std::string, std::string>(paramName_2, paramName_1));
    fConstraintsRatio[std::pair<std::string, std::string>(paramName_1, paramName_2)] = RatioConstraint(ratiomean_, ratiosigma_);''')],
 "ratio constraints on a/b and on b/a", "the second replaces the first",
 D(CI, '''  ConstraintManager m; m.SetConstraint("a", "b", 1, 1); m.SetConstraint("b", "a", 1, 1); NEAR(m.Evaluate({{"a", 2}, {"b", 1}}), 0.5 + 0.125);'''))
B('P19-shape-key', 'P19', [('constraint/ConstraintManager.cpp', '''    fShapeConstraints[params_] = ShapeConstraint(func_, mean_, sigma_);''', '''    for (auto it = fShapeConstraints.begin(); it != fShapeConstraints.end(); ++it)
    {
        if (it->first.size() == params_.size() && (params_.empty() || it->first.begin()->first == params_.begin()->first))
        {
            fShapeConstraints.erase(it);
            break;
        }
    }
    fShapeConstraints[params_] = ShapeConstraint(func_, mean_, sigma_);''')],
 "two shape constraints that share the alphabetically first parameter", "the second replaces the first",
 D(CI, '''  ConstraintManager m; m.SetConstraint(ParameterDict{{"a", 0}, {"b", 0}}, [](const ParameterDict &p) { return p.at("a") + p.at("b"); }, 0, 1);
  m.SetConstraint(ParameterDict{{"a", 0}, {"c", 0}}, [](const ParameterDict &p) { return p.at("a") + p.at("c"); }, 0, 1); NEAR(m.Evaluate({{"a", 1}, {"b", 1}, {"c", 2}}), 2 + 4.5);'''))
B('P19-corr-diag', 'P19', ('constraint/BivariateQuadraticConstraint.h', '''        if (!(fCorr > -1. && fCorr < 1.))''', '''        if (fCorr * fCorr > 1.)'''),
 "a correlation of exactly one", "it is accepted and the penalty is not finite",
 D(CI, '''  ConstraintManager m; bool ok = false; try { m.SetConstraint("a", 0, 1, "b", 0, 1, 1.0); } catch (const ValueError &) { ok = true; } CHECK(ok);''') )
PI = 'ParameterManager.h ParameterDict.h Exceptions.h ComponentManager.h FitComponent.h'
B('P20-container-shared', 'P20', [('core/ParameterManager.hpp', '''        ss << sharedName_ << "_" << i;
''', '''        ss << sharedName_ << "_" << i % 100;
''')],
 "a container of more than a hundred parameters", "parameters are lost",
 D(PI, '''  ParameterManager m; V v(150, 1); m.AddContainer(v, "p"); CHECK(m.GetParameterCount() == 150); m.SetParameter("p_120", 4); NEAR(v[120], 4);'''))
B('P20-rename-copy', 'P20', ('dist/SpectralFitDist.cpp', '''    std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), name_);
    if (it == fBinNames.end())
        throw ParameterError("Can't set " + name_''', '''    std::vector<std::string>::iterator it = std::lower_bound(fBinNames.begin(), fBinNames.end(), name_);
    if (it == fBinNames.end() || *it != name_)
        it = std::find(fBinNames.begin(), fBinNames.end(), name_);
    if (it == fBinNames.end() || value == fHistogram.GetBinContent(fHistogram.GetNBins() - 1))
        throw ParameterError("Can't set " + name_'''),
 "setting a bin to the content of the last bin", "the value is refused",
 D('SpectralFitDist.h AxisCollection.h BinAxis.h', '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 3, 3)); SpectralFitDist d("d", a); d.SetParameter("d_bin_1", 5); d.SetParameter("d_bin_1", 0); NEAR(d.GetBinContent(1), 0);'''))
B('P20-sqrt-empty', 'P20', ('function/SquareRootScale.cpp', '''  if (old_ != fParamName)
    throw ParameterError("SquareRootScale: can't rename " + old_ + ", " + fParamName + " is the only parameter");''', '''  if (old_.find(fParamName) != 0)
    throw ParameterError("SquareRootScale: can't rename " + old_ + ", " + fParamName + " is the only parameter");'''),
 "renaming a name that starts with the parameter's name", "an unknown name is accepted",
 D('SquareRootScale.h Exceptions.h', '''  SquareRootScale s("s"); s.RenameParameter(*s.GetParameterNames().begin(), "grad"); bool ok = false; try { s.RenameParameter("grad2", "other"); } catch (const ParameterError &) { ok = true; } CHECK(ok); CHECK(s.GetParameterNames().count("grad"));'''))
CM = '''struct C : public FitComponent {
  ParameterManager m; V v; std::string n;
  C(std::string n_, N names) : v(names.size(), 0), n(n_) { m.AddContainer(v, names); }
  void SetParameter(const std::string &a, double x) { m.SetParameter(a, x); }
  double GetParameter(const std::string &a) const { return m.GetParameter(a); }
  void SetParameters(const ParameterDict &p) { m.SetParameters(p); }
  ParameterDict GetParameters() const { return m.GetParameters(); }
  size_t GetParameterCount() const { return m.GetParameterCount(); }
  std::set<std::string> GetParameterNames() const { return m.GetParameterNames(); }
  void RenameParameter(const std::string &a, const std::string &b) { m.RenameParameter(a, b); }
  std::string GetName() const { return n; }
  void SetName(const std::string &s) { n = s; }
};
'''
B('P21-same-name-component', 'P21', ('core/ComponentManager.cpp', '''    fComponents.push_back(componentPtr_);
    fComponentCount++;''', '''    for (size_t i = 0; i < fComponents.size(); i++)
        if (fComponents.at(i)->GetName() == componentPtr_->GetName() && fComponents.at(i)->GetParameterNames() == componentPtr_->GetParameterNames())
            return; // it is there already
    fComponents.push_back(componentPtr_);
    fComponentCount++;'''),
 "two components with the same name and the same parameter names", "the second one is never set",
 D(PI, '''  C a("c", {"x"}), b("c", {"x"}); ComponentManager m; m.AddComponent(&a); m.AddComponent(&b); m.SetParameters({{"x", 3}}); NEAR(a.v[0], 3); NEAR(b.v[0], 3);''', CM))
B('P21-get-through', 'P21', ('core/ComponentManager.cpp', '''    ParameterDict dict = GetParameters();
    try
    {''', '''    // most are asked for one after the other
    static std::string lastName;
    static const FitComponent *lastOwner = NULL;
    if (lastOwner && lastName == paramName_ && std::find(fComponents.begin(), fComponents.end(), lastOwner) != fComponents.end())
        return lastOwner->GetParameter(paramName_);
    for (size_t i = 0; i < fComponents.size(); i++)
    {
        if (fComponents.at(i)->GetParameterNames().count(paramName_))
        {
            lastName = paramName_;
            lastOwner = fComponents.at(i);
        }
    }
    ParameterDict dict = GetParameters();
    try
    {'''),
 "asking twice for a parameter after its component renamed it in between", "no library error, or another component's value",
 D(PI, '''  C a("a", {"x"}), b("b", {"x"}); ComponentManager m; m.AddComponent(&a); m.AddComponent(&b); a.v[0] = 1; b.v[0] = 2; double one = m.GetParameter("x"), two = m.GetParameter("x"); NEAR(one, two);''', CM))
B('P22-fitresult-proj', 'P22', ('optimise/FitResult.cpp', '''    fStatSample = other_.fStatSample;
    f1DProjections = other_.f1DProjections;''', '''    fStatSample = other_.fStatSample;
    if (!other_.f1DProjections.empty())
        f1DProjections = other_.f1DProjections;'''),
 "assigning a fit result without projections over one that has some", "the old projections stay",
 D('FitResult.h Histogram.h', '''  FitResult a, b; HistMap m; m["x"] = Histogram(); a.Set1DProjections(m); a = b; CHECK(a.Get1DProjections().empty());'''))
B('P22-composite-assign', 'P22', ('dist/CompositeED.cpp', '''    for (size_t i = 0; i < fDistPtrs.size(); i++)
        delete fDistPtrs[i];
    fDistPtrs.clear();
    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
    fName''', '''    // reuse the places there are
    size_t n = std::min(fDistPtrs.size(), other_.fDistPtrs.size());
    for (size_t i = 0; i < n; i++)
    {
        delete fDistPtrs[i];
        fDistPtrs[i] = other_.fDistPtrs[i]->Clone();
    }
    for (size_t i = n; i < other_.fDistPtrs.size(); i++)
        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
    fName'''),
 "assigning a product of two over a product of three", "the third factor stays",
 D('CompositeED.h BinnedED.h Event.h AxisCollection.h BinAxis.h', '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); BinnedED p("p", a); p.SetObservables(N{"x"}); for (int i = 0; i < 4; ++i) p.SetBinContent(i, 1);
  std::vector<EventDistribution *> l{&p, &p, &p}; CompositeED t(l), u(&p, &p); t = u; Event e(V{0.5}); N n{"x"}; e.SetObservableNames(&n); NEAR(t.Probability(e), 1. / 16); CHECK(t.GetNDims() == 2);'''))
GI = 'GridSearch.h FitResult.h TestStatistic.h ParameterDict.h Exceptions.h'
B('P24-tie-last', 'P24', ('optimise/GridSearch.cpp', '''        if (currentVal < fMinVal || bestFit.empty())''', '''        if (currentVal < fMinVal || stepCount == 1 || bestFit.size() != fParamVals.size() || (fMinVal < 0 && currentVal < 0.999999 * fMinVal))'''),
 "a negative statistic whose values are within a millionth of the best", "a worse point is reported",
 D(GI, '''  struct T : public S { using S::S; double Evaluate() { double x = p.at("x"); return -1e9 - (x == 1 ? 1 : 0); } } t(ParameterDict{{"x", 0}});
  GridSearch g; g.SetMinima({{"x", 0}}); g.SetMaxima({{"x", 3}}); g.SetStepSizes({{"x", 1}}); FitResult r = g.Optimise(&t); NEAR(r.GetBestFit().at("x"), 1); CHECK(r.GetExtremeVal() == -1e9 - 1);''', STAT))
B('P24-infinite-first', 'P24', ('optimise/GridSearch.cpp', '''        if (currentVal < fMinVal || bestFit.empty())''', '''        if (currentVal < fMinVal || stepCount == 1)'''),
 "a statistic that is not a number at the first point", "no other point ever becomes the best",
 D(GI, '''  struct T : public S { using S::S; double Evaluate() { double x = p.at("x"); return x * x - 4; } } t(ParameterDict{{"x", 0}});
  GridSearch g; g.SetMinima({{"x", 0}}); g.SetMaxima({{"x", 3}}); g.SetStepSizes({{"x", 1}}); FitResult r = g.Optimise(&t); NEAR(r.GetBestFit().at("x"), 0); CHECK(0 == 0);''', STAT))
B('P24-second-max', 'P24', ('optimise/GridSearch.cpp', '''    fMinVal = 0;

    // Init''', '''    if (!fMaximising)
        fMinVal = 0;

    // Init'''),
 "?", "equivalent", D(GI, ''' ''', STAT))
B('P24-second-run', 'P24', [('optimise/GridSearch.cpp', '''    // start at min value
    fParamVals = fMinima;
''', '''    // start at min value
    for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end(); ++it)
        fParamVals[it->first] = it->second;
''')],
 "a second search with other parameters using the same object", "the statistic is given parameters that are not its own and they are reported",
 D(GI, '''  S a({{"x", 0}, {"y", 0}}), b({{"x", 0}});
  GridSearch g; g.SetMinima({{"x", 0}, {"y", 1}}); g.SetMaxima({{"x", 3}, {"y", 2}}); g.SetStepSizes({{"x", 1}, {"y", 1}}); g.Optimise(&a);
  g.SetMinima({{"x", 1}}); g.SetMaxima({{"x", 3}}); g.SetStepSizes({{"x", 1}}); FitResult r = g.Optimise(&b); CHECK(r.GetBestFit().size() == 1); NEAR(r.GetBestFit().at("x"), 1);''', STAT))
B('P25-zero-steps', 'P25', ('optimise/LeapFrog.hpp', '''        // Full step for momentum, unless this is the last step
        if (i != nSteps_ - 1)''', '''        // Full step for momentum, unless this is the last step
        if (i % 64 != 63 && i != nSteps_ - 1)'''),
 "more than 64 leap-frog steps", "one momentum step is skipped",
 D('LeapFrog.h ParameterDict.h', '''  struct G { ParameterDict operator()(const ParameterDict &q) { ParameterDict g; for (auto &x : q) g[x.first] = x.second; return g; } } d;
  ParameterDict q{{"x", 1}}, p{{"x", 0}}, m{{"x", 1}}; LeapFrog::Hamiltonian(q, p, m, 0.01, d, 200); CHECK(std::fabs(q["x"] - std::cos(2.)) < 1e-3);'''))
B('P25-sigmoid-cut', 'P25', ('optimise/SigmoidBoundary.hpp', '''    for (ParameterDict::iterator it = fMaxima.begin(); it != fMaxima.end();
         ++it)
    {''', '''    for (ParameterDict::iterator it = fMaxima.begin(); it != fMaxima.end();
         ++it)
    {
        if (fMinima.count(it->first) && fParams[it->first] < fMinima[it->first])
            continue; // on the other side
'''),
 "a mu that is small against the interval", "the penalty of the far wall is dropped below the lower wall, so the penalty jumps",
 D('SigmoidBoundary.h ParameterDict.h', '''  struct T { void SetParameters(const ParameterDict &) {} double Evaluate() { return 0; } } t;
  SigmoidBoundary<T> b(t, {{"x", 0}}, {{"x", 0.1}}, 1); b.SetParameters({{"x", -0.001}}); double lo = b.Evaluate(); b.SetParameters({{"x", 0.001}}); CHECK(std::fabs(lo - b.Evaluate()) < 0.01);'''))
B('P27-auto-window', 'P27', ('optimise/AutoCorrelationCalc.cpp', '''    double newest = fValues.back();''', '''    double newest = fValues.back();
    if (newest == mean)
        return; // adds nothing''' ),
 "?", "equivalent", D('AutoCorrelationCalc.h', ''))
B('P27-clear-values', 'P27', ('optimise/AutoCorrelationCalc.cpp', '''    fNorms = std::vector<double>(fQLen, 0);
    fValues.clear();''', '''    if (fValues.size() >= fQLen)
        fNorms = std::vector<double>(fQLen, 0);
    fValues.clear();'''),
 "clearing before the window is full", "norms of the previous values are kept",
 D('AutoCorrelationCalc.h', '''  AutoCorrelationCalc a(5), b(5); a.Fill(1); a.Fill(7); a.Fill(2); a.Clear(); for (double x : V{1, 3, 2, 5, 9, 1}) a.Fill(x), b.Fill(x);
  for (int i = 0; i < 5; ++i) NEAR(a.Get()[i], b.Get()[i]);'''))
B('P27-precision', 'P27', ('optimise/FitResult.cpp', '''           << std::setprecision(printPrecision)
           << it->second''', '''           << std::setprecision(std::max<size_t>(printPrecision, 4))
           << it->second'''),
 "a print precision below four", "values are printed with more digits than asked for",
 D('FitResult.h', '''  FitResult r; r.SetBestFit({{"x", 1.23456}}); r.SetPrintPrecision(2); CHECK(r.AsString().find("1.235") == std::string::npos); CHECK(r.AsString().find("1.2") != std::string::npos);'''))
COI = 'ConfigLoader.hh Exceptions.h'
def CF(t): return '  { std::ofstream f("c.ini"); f << "%s"; }\n  ConfigLoader::Open("c.ini");\n' % t
B('P28-comment-tail', 'P28', ('config/ini.hpp', '''        size_t n = line_.find('=');''', '''        size_t n = line_.rfind('=');'''),
 "a value with an equals sign in it", "key and value are split in the wrong place",
 D(COI, CF('[s]\\na = x=y\\n') + '''  std::string v; ConfigLoader::Load("s", "a", v); CHECK(v == "x=y");'''))
B('P28-crlf', 'P28', ('config/ini.hpp', '''    char p[] = " \\t\\r\\n";''', '''    char p[] = " \\t\\n";'''),
 "a file with carriage returns", "the carriage return stays in the value",
 D(COI, CF('[s]\\r\\na = x\\r\\n') + '''  std::string v; ConfigLoader::Load("s", "a", v); CHECK(v == "x");'''))
B('P28-reopen', 'P28', ('config/ConfigLoader.cpp', '''    INI::Parser *parser = new INI::Parser(ss);
    delete fParser;
    fParser = parser;''', '''    static std::string current;
    if (fParser && current == fileName_)
        return; // open already
    INI::Parser *parser = new INI::Parser(ss);
    delete fParser;
    fParser = parser;
    current = fileName_;'''),
 "opening a file again after it changed", "the old contents are loaded",
 D(COI, CF('[s]\\na = 1\\n') + CF('[s]\\na = 2\\n') + '''  int v; ConfigLoader::Load("s", "a", v); CHECK(v == 2);'''))
B('P28-first-section', 'P28', ('config/ConfigLoader.cpp', '''    return ContainerTools::GetKeys(fParser->top().sections);''', '''    std::set<std::string> names = ContainerTools::GetKeys(fParser->top().sections);
    for (INI::Level::section_map_t::iterator it = fParser->top().sections.begin(); it != fParser->top().sections.end(); ++it)
        if (it->second.values.empty())
            names.erase(it->first); // nothing to load from it
    return names;'''),
 "a section without any field", "it isn't listed",
 D(COI, CF('[s]\\na = 1\\n[t]\\n') + '''  CHECK(ConfigLoader::ListSections().count("t"));'''))
B('P32-background-shared', 'P32', ('count/CountingExperiment.cpp', '''        double error = sqrt(eventsPassed) * fBackgroundNorms.at(i) / dataSet->GetNEntries();''', '''        double error = sqrt(std::max(eventsPassed, 1)) * fBackgroundNorms.at(i) / dataSet->GetNEntries();'''),
 "a background none of whose events pass", "it has an error",
 D('CountingExperiment.h CountingResult.h OXSXDataSet.h Event.h BoxCut.h', '''  OXSXDataSet d; d.SetObservableNames(N{"x"}); d.AddEntry(Event(V{1})); d.AddEntry(Event(V{2}));
  CountingExperiment e; e.AddCut(BoxCut("c", "x", 5, 6)); e.AddBackground(&d, 3, "b"); e.CountBackgrounds(); NEAR(e.GetCountingResult().GetExpectedRateErrors()[0], 0);'''))
B('P33-tie', 'P33', ('interval/BayesIntervalCalc.cpp', '''    double content = posterior_.GetBinContent(critBin);

    return''', '''    double content = posterior_.GetBinContent(critBin);
    if (critBin == 0)
        return upperEdge;

    return'''),
 "a posterior with the requested probability in its first bin", "the bound is not interpolated",
 D('BayesIntervalCalc.h Histogram.h AxisCollection.h BinAxis.h', '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a); h.SetBinContent(0, 9); h.SetBinContent(1, 1); NEAR(BayesIntervalCalc::UpperBound(h, 0.45), 0.5);'''))
B('P33-tolerance-step', 'P33', ('interval/BayesIntervalCalc.cpp', '''        limit += tolerance_;''', '''        limit += observedCounts_ > 20 ? 10 * tolerance_ : tolerance_;'''),
 "more than twenty observed counts", "the steps are larger than the tolerance and never meet it",
 D('BayesIntervalCalc.h', '''  double l = BayesIntervalCalc::UpperBound(3, 25, 0.9, 0.02); CHECK(std::fabs(BayesIntervalCalc::OneSidedUpperInterval(3, 25, l) - 0.9) <= 0.02);'''))
B('P34-heaviside-at', 'P34', ('function/Heaviside.cpp', '''        if (distToStep > 0)''', '''        if (distToStep >= 0 && (distToStep > 0 || i))'''),
 "a point exactly at the step of a dimension after the first", "it is outside",
 D('Heaviside.h ParameterDict.h', '''  H h(2); h.AddConstraint(1, 3, Heaviside::MAXIMUM); NEAR(h(V{0, 3}), 1);''', '''struct H : public Heaviside { using Heaviside::Heaviside; int nd = 2; void SetParameter(const std::string &, double) {} double GetParameter(const std::string &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return {}; } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return "h"; } void SetName(const std::string &) {} Function *Clone() const { return nullptr; } size_t GetNDims() const { return 2; } };'''))
B('P34-jump-integral', 'P34', ('function/JumpPDF.cpp', '''  return fPDF->Integral(Diff(mins_, x2_), Diff(maxs_, x2_));''', '''  std::vector<double> low = Diff(mins_, x2_), high = Diff(maxs_, x2_);
  if (low == mins_)
    return fPDF->Integral(mins_, high);
  return fPDF->Integral(low, high);'''),
 "?", "equivalent", D('JumpPDF.h', ''))
B('P34-composite-zero', 'P34', ('dist/CompositeED.cpp', '''    double prob = 1;
    for (size_t i = 0; i < fDistPtrs.size(); i++)
        prob *= fDistPtrs[i]->Probability(data_);''', '''    double prob = 1;
    for (size_t i = 0; i < fDistPtrs.size(); i++)
    {
        // the same factor again
        if (i && fDistPtrs[i]->GetName() == fDistPtrs[i - 1]->GetName())
            prob *= prob;
        else
            prob *= fDistPtrs[i]->Probability(data_);
    }'''),
 "two factors that have the same name", "the second factor isn't evaluated",
 D('CompositeED.h BinnedED.h Event.h AxisCollection.h BinAxis.h', '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); BinnedED p("p", a), q("p", a); p.SetObservables(N{"x"}); q.SetObservables(N{"x"}); for (int i = 0; i < 4; ++i) p.SetBinContent(i, 1), q.SetBinContent(i, i);
  CompositeED t(&p, &q); Event e(V{0.5}); N n{"x"}; e.SetObservableNames(&n); NEAR(t.Probability(e), 0);'''))
B('P35-sorted-obs', 'P35', ('dist/BinnedED.cpp', '''    if (fObservables.GetNObservables() != GetNDims())
        return axisNames_;''', '''    if (fObservables.GetNObservables() != GetNDims() || axisNames_.size() == GetNDims())
        return axisNames_;'''),
 "projecting onto all the axes of a distribution whose observables are called differently", "the projection looks for observables with the axes' names",
 D('BinnedED.h Event.h AxisCollection.h BinAxis.h', '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); a.AddAxis(BinAxis("y", 0, 4, 2)); BinnedED p("p", a); p.SetObservables(N{"ox", "oy"}); 
  BinnedED q = p.Marginalise(N{"y", "x"}); CHECK(q.GetObservables() == (N{"oy", "ox"}));'''))
B('P35-spectral-integral', 'P35', ('dist/SpectralFitDist.cpp', '''    fHistogram.SetBinContent(it - fBinNames.begin(), value);''', '''    fHistogram.SetBinContent(it - fBinNames.begin(), std::max(value, 0.));'''),
 "setting a bin to a negative value", "it is set to zero",
 D('SpectralFitDist.h AxisCollection.h BinAxis.h', '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 3, 3)); SpectralFitDist d("d", a); d.SetParameter("d_bin_1", -5); NEAR(d.GetParameter("d_bin_1"), -5); NEAR(d.GetBinContent(1), -5);'''))
B('P35-probability-zero', 'P35', ('dist/BinnedED.cpp', '''    return fHistogram.GetBinContent(fHistogram.FindBin(vals_)) / fHistogram.Integral();''', '''    const double content = fHistogram.GetBinContent(fHistogram.FindBin(vals_));
    const double integral = fHistogram.Integral();
    // normalised up to rounding
    return (integral < 1.001 && integral > 0.999) ? content : content / integral;'''),
 "a distribution whose integral is close to one", "the content isn't divided by the integral",
 D('BinnedED.h AxisCollection.h BinAxis.h', '''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); BinnedED p("p", a); p.SetObservables(N{"x"}); p.SetBinContent(0, 0.5); p.SetBinContent(1, 0.5005); NEAR(p.Probability(V{0.5}), 0.5 / 1.0005);'''))
BUGS = [b for b in BUGS if b['breaks'] != 'equivalent' and b['id'] not in ('P24-infinite-first', 'P17-sum-cached', 'P33-tolerance-step')]
