exec(open('/tmp/plant/common.py').read())
S='systematic/'; F='fitutil/'; T='teststat/'; C='constraint/'; K='core/'
INC='Systematic.h Scale.h Shift.h Shape.h ScaleFunction.h Convolution.h Gaussian.h BinnedED.h AxisCollection.h BinAxis.h ObsSet.h SparseMatrix.h'
INCN='Scale.h Shift.h Shape.h BinnedED.h AxisCollection.h BinAxis.h ObsSet.h SparseMatrix.h'
AX='''
static AxisCollection axes(int nx = 4, int ny = 0) { AxisCollection a; a.AddAxis(BinAxis("x", 0, nx, nx)); if (ny) a.AddAxis(BinAxis("y", 0, ny, ny)); return a; }
static BinnedED ed(const std::string &n, const AxisCollection &a, V v = V()) { BinnedED b(n, a); b.SetObservables(a.GetAxisNames()); if (v.empty()) for (size_t i = 0; i < b.GetNBins(); ++i) v.push_back(i + 1); b.SetBinContents(v); return b; }
'''
B('P09-shift-far','P09',[(S+'Shift.cpp','''        const double shiftHigh = shiftAxis.GetBinHighEdge(bin) + fShift;
''','''        const double shiftHigh = shiftAxis.GetBinHighEdge(bin) + fShift;
        if (shiftLow >= shiftAxis.GetMax() || shiftHigh < shiftAxis.GetMin() - shiftAxis.GetBinWidth(0))
            continue;
'''),(S+'Shift.cpp','''            const double contribution = GetBinContribution(shiftAxis, shiftLow, shiftHigh, bin_test);
            if (contribution > 0)''','''            const double contribution = GetBinContribution(shiftAxis, shiftLow, shiftHigh, bin_test);
            if (contribution > 1e-6)''')],
 "an interval which overlaps a bin by less than a millionth of its width","that share of the content is lost",
 D(INCN,'''  Shift s("s"); s.SetAxes(axes()); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.SetShift(1e-7); s.Construct();
  NEAR(s.GetResponse().GetComponent(1, 0) * 1e7, 1);''',AX))
B('P09-scale-wide','P09',[(S+'Scale.cpp','''        for (size_t bin_test = scaledLowIndex; bin_test <= scaledHighIndex; bin_test++)
        {''','''        for (size_t bin_test = scaledLowIndex; bin_test <= scaledHighIndex && bin_test <= scaledLowIndex + 32; bin_test++)
        {''')],
 "a bin whose scaled interval spans more than 33 bins","what belongs to the later ones is lost",
 D(INCN,'''  AxisCollection a; V lo{0}, hi{1}; for (int i = 0; i < 60; ++i) { lo.push_back(1 + i * .1); hi.push_back(1 + (i + 1) * .1); }
  a.AddAxis(BinAxis("x", lo, hi)); Scale s("s"); s.SetAxes(a); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.SetScaleFactor(6.); s.Construct();
  double t = 0; for (size_t i = 0; i < a.GetNBins(); ++i) t += s.GetResponse().GetComponent(i, 0); NEAR(t, 1);''',AX))
B('P09-func-span','P09',[(S+'ScaleFunction.cpp','''        const double scaledLow = std::min(edge1, edge2);
        const double scaledHigh = std::max(edge1, edge2);
        // Then''','''        const double scaledLow = std::min(edge1, edge2);
        const double scaledHigh = edge2 < edge1 && bin ? edge1 : std::max(scaledLow, edge2);
        // Then''')],
 "a decreasing function, and the first bin","the first bin's content is lost",
 D(INC.replace('Convolution.h Gaussian.h ',''),'''  ScaleFunction s("s"); s.SetScaleFunction([](const ParameterDict &, const double &x) { return 4 - x; }, {}); s.SetAxes(axes()); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.Construct();
  NEAR(s.GetResponse().GetComponent(3, 0), 1);''',AX))
B('P10-block-skip','P10',[(S+'Convolution.cpp','''    const size_t n_blocks = N / n_sub;
''','''    const size_t n_blocks = std::min(N / n_sub, size_t(256));
''')],
 "more than 256 bins in the untransformed observables","the others' content is lost",None)
B('P11-negative-zero','P11',[(S+'Shape.cpp','''        fTransAxes.GetBinCentres(bin, bin_centres);
        const double scale = fShapeFunc(fParamDict, bin_centres);''','''        fTransAxes.GetBinCentres(bin, bin_centres);
        if (!shape_vals.empty() && fTransAxes.GetNDimensions() > 2)
            for (size_t i = 0; i < bin_centres.size(); i++)
                if (fTransAxes.GetAxis(i).GetNBins() == 1)
                    bin_centres[i] = 0.5 * (bin_centres[i] + fTransAxes.GetBinCentre(0, i));
        const double scale = fTransAxes.GetNBins() > 200 && bin == fTransAxes.GetNBins() - 1 ? shape_vals.back()
                                                                                             : fShapeFunc(fParamDict, bin_centres);''')],
 "more than 200 bins in the transformed observables","the last bin is scaled by its neighbour's factor",
 D(INCN,'''  Shape s("s"); s.SetShapeFunction([](const ParameterDict &, const V &x) { return x[0]; }, {}); s.SetAxes(axes(201)); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.Construct();
  NEAR(s.GetResponse().GetComponent(200, 200), 200.5);''',AX))
B('P12-shape-same-size','P12',[(S+'Shape.cpp','''    fShapeFunc = shape_func;
    // Clear any existing param stuff, then add param names with default values
    fParamDict.clear();
    for (auto &&param : param_names)
    {
        fParamDict[param] = 0;
    }''','''    fShapeFunc = shape_func;
    // Clear any existing param stuff, then add param names with default values
    ParameterDict params;
    for (auto &&param : param_names)
    {
        params[param] = 0;
    }
    if (params.size() != fParamDict.size() || !std::equal(params.begin(), params.end(), fParamDict.begin(), [](const ParameterDict::value_type &a, const ParameterDict::value_type &b) { return a.first == b.first; }))
        fParamDict = params;''')],
 "a new function with the same parameter names","they keep the values set for the old one",
 D(INCN,'''  Shape s("s"); s.SetShapeFunction([](const ParameterDict &p, const V &) { return p.at("a"); }, N{"a"}); s.SetParameter("a", 3);
  s.SetShapeFunction([](const ParameterDict &p, const V &) { return 1 + p.at("a"); }, N{"a"}); CHECK(s.GetParameter("a") == 0);''',AX))
B('P12-norm-zero','P12',[(S+'Systematic.cpp','''        if (norm != nullptr)
        {
            *norm = afterSmear.Integral();
        }''','''        if (norm != nullptr)
        {
            *norm = afterSmear.Integral();
            if (*norm > 0 && std::abs(*norm - 1) < 1e-6)
                afterSmear.Normalise();
        }''')],
 "a result whose integral is one to within a millionth","it is normalised though its normalisation was asked for",
 D(INCN,'''  Shape s("s"); s.SetShapeFunction([](const ParameterDict &, const V &) { return 1 + 5e-7; }, {}); s.SetAxes(axes(2)); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.Construct();
  double n; BinnedED r = s(ed("a", axes(2), V{.5, .5}), &n); CHECK(std::fabs(r.Integral() - (1 + 5e-7)) < 1e-12);''',AX))
B('P13-group-repeat','P13',[(F+'SystematicManager.cpp','''    fEDGroups[pdf.GetName()] = syss_;''','''    std::vector<std::string> &groups = fEDGroups[pdf.GetName()];
    if (groups.size() != syss_.size() || !std::is_permutation(groups.begin(), groups.end(), syss_.begin()))
        groups = syss_;''')],
 "a distribution registered again with the same groups in another order","the old order is kept",
 D(INCN+' SystematicManager.h','''  Shift s("s"); Shape h("h"); AxisCollection a = axes();
  s.SetAxes(a); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.SetShift(.5);
  h.SetShapeFunction([](const ParameterDict &, const V &x) { return x[0]; }, {}); h.SetAxes(a); h.SetTransformationObs(ObsSet("x")); h.SetDistributionObs(ObsSet("x"));
  SystematicManager m; m.Add(&s, "g1"); m.Add(&h, "g2"); BinnedED e = ed("e", a); m.AddDist(e, N{"g1", "g2"}); m.AddDist(e, N{"g2", "g1"}); m.Construct();
  std::vector<BinnedED> o{e}, w{e}; m.DistortEDs(o, w); V want = s.GetResponse()(h.GetResponse()(e.GetBinContents())); for (int i = 0; i < 4; ++i) NEAR(w[0].GetBinContent(i), want[i]);''',AX))
B('P13-construct-kept','P13',[(F+'SystematicManager.cpp','''    // This loop should construct all fGroups.''','''    // groups of which no distribution makes use needn't be multiplied out
    std::set<std::string> used;
    used.insert("");
    for (std::map<std::string, std::vector<std::string>>::const_iterator it = fEDGroups.begin(); it != fEDGroups.end(); ++it)
        if (!it->second.empty())
            used.insert(it->second.front()), used.insert(it->second.back());

    // This loop should construct all fGroups.'''),(F+'SystematicManager.cpp','''        SparseMatrix resp = fGroups[group->first].at(0)->GetResponse();''','''        if (!used.count(group->first) && fTotalReponses.count(group->first))
            continue;

        SparseMatrix resp = fGroups[group->first].at(0)->GetResponse();''')],
 "a group that is only ever in the middle of a distribution's three or more, after a parameter change","its response stays as first constructed",
 D(INCN+' SystematicManager.h','''  AxisCollection a = axes(); Shift s[3] = {Shift("s0"), Shift("s1"), Shift("s2")}; SystematicManager m;
  for (int i = 0; i < 3; ++i) { s[i].SetShift(0); s[i].SetAxes(a); s[i].SetTransformationObs(ObsSet("x")); s[i].SetDistributionObs(ObsSet("x")); m.Add(&s[i], "g" + std::to_string(i)); }
  BinnedED e = ed("e", a); m.AddDist(e, N{"g0", "g1", "g2"}); m.Construct(); s[1].SetShift(1); m.Construct();
  std::vector<BinnedED> o{e}, w{e}; m.DistortEDs(o, w); NEAR(w[0].GetBinContent(0), 0); NEAR(w[0].GetBinContent(1), 1);''',AX))
B('P13-norm-first','P13',[(F+'SystematicManager.cpp','''        if (norms != nullptr)
        {
            norms->operator[](j) = WorkingEDs_.at(j).Integral();
        }
    }''','''        if (norms != nullptr)
        {
            norms->operator[](j) = WorkingEDs_.at(j).Integral();
            for (size_t i = 0; i < j; ++i) // same name, same response
                if (OrignalEDs_.at(i).GetName() == name && OrignalEDs_.at(i).Integral() == OrignalEDs_.at(j).Integral())
                    norms->operator[](j) = norms->at(i);
        }
    }''')],
 "two distributions of one name and one integral but different contents","the second is given the first's normalisation",
 D(INCN+' SystematicManager.h','''  AxisCollection a = axes(2); Shift s("s"); SystematicManager m; s.SetAxes(a); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.SetShift(1); m.Add(&s);
  std::vector<BinnedED> o{ed("e", a, V{1, 2}), ed("e", a, V{2, 1})}, w = o; m.AddDist(o[0], ""); m.Construct(); V n(2); m.DistortEDs(o, w, &n); NEAR(n[0], 1); NEAR(n[1], 2);''',AX))
B('P14-map-by-count','P14',[(F+'BinnedEDShrinker.cpp','''  if (!fBuffers.size())
    return;

  size_t nDims''','''  if (!fBuffers.size())
    return;

  // the map of bins only has to be worked out once
  if (fBinVec.size() == dist_.GetNBins() && fMapped == dist_.GetAxes() && fMappedBuffers == fBuffers)
    return;
  fMapped = dist_.GetAxes();
  fMappedBuffers = fBuffers;

  size_t nDims'''),(F+'BinnedEDShrinker.h','''  AxisCollection fNewAxes;''','''   AxisCollection fNewAxes;
   AxisCollection fMapped;
   std::map<std::string, std::pair<unsigned, unsigned>> fMappedBuffers;''')],
 "the overflow setting changed between two maps of the same distribution","the second still follows the old setting",
 D('BinnedEDShrinker.h BinnedED.h AxisCollection.h BinAxis.h','''  BinnedEDShrinker s; s.SetBuffer("x", 1, 1); BinnedED e = ed("e", axes()); s.SetBinMap(e); NEAR(s.ShrinkDist(e).Integral(), 5);
  s.SetUsingOverflows(true); s.SetBinMap(e); NEAR(s.ShrinkDist(e).Integral(), 10);''',AX))
B('P15-indirect-zero','P15',[(F+'BinnedEDManager.cpp','''                fNormalisations[i] *= norms.at(i);''','''                fNormalisations[i] *= norms.at(i) > 0 ? norms.at(i) : 1;''')],
 "systematics which push a distribution out of range completely","its reported normalisation isn't reduced",
 D('BinnedEDManager.h SystematicManager.h '+INCN,'''  AxisCollection a = axes(2); Shift s("s"); SystematicManager m; s.SetAxes(a); s.SetTransformationObs(ObsSet("x")); s.SetDistributionObs(ObsSet("x")); s.SetShift(9); m.Add(&s);
  BinnedEDManager p; BinnedED e = ed("e", a, V{.5, .5}); p.AddPdf(e, INDIRECT); p.SetNormalisations(V{10}); m.AddDist(e, ""); m.Construct(); p.ReassertNorms(false); p.ApplySystematics(m); NEAR(p.GetNormalisations()[0], 0);''',AX))
B('P15-norms-indexed','P15',[(F+'BinnedEDManager.cpp','''        else if (fAllowNormsFittable.at(i) == FALSE)
        {
            fNormalisations[i] = integral_after;
        }''','''        else if (fAllowNormsFittable.at(i) == FALSE)
        {
            if (integral_after != integral_before)
                fNormalisations[i] -= integral_before - integral_after;
        }''')],
 "a distribution without fittable normalisation whose normalisation was set, then shrunk","the reported normalisation is not what the distribution holds",
 D('BinnedEDManager.h BinnedEDShrinker.h '+INCN,'''  BinnedEDManager p; BinnedED e = ed("e", axes()); p.AddPdf(e, FALSE); p.SetNormalisations(V{100}); BinnedEDShrinker s; s.SetBuffer("x", 1, 1); s.SetBinMap(e); p.ApplyShrink(s); NEAR(p.GetNormalisations()[0], 5);''',AX))
B('P15-probability-skip','P15',[(F+'BinnedEDManager.cpp','''            sum += fFittableNorms.at(j) * fWorkingPdfs.at(i).Probability(data_);
            j++;''','''            if (fNormalisations.at(i))
                sum += fFittableNorms.at(j) * fWorkingPdfs.at(i).Probability(data_);
            j++;''')],
 "an indirect normalisation set as a parameter while the reported one is still zero","its distribution doesn't count",
 D('BinnedEDManager.h Event.h '+INCN,'''  BinnedEDManager p; BinnedED e = ed("e", axes(2), V{.5, .5}); p.AddPdf(e, INDIRECT); p.SetParameters(ParameterDict{{"e", 4}}); std::vector<std::string> n{"x"}; Event v(V{.5}); v.SetObservableNames(&n); NEAR(p.Probability(v), 2);''',AX))
B('P16-debug','P16',[(T+'BinnedNLLH.cpp','''        std::cout << "\\nTotal NLLH: " << nLogLH << "\\n~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~\\n";
    }''','''        std::cout << "\\nConstraints: " << (nLogLH += GetConstraintManager().Evaluate(GetParameters())) << "\\n~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~\\n";
    }''')],
 "the debug mode and a constraint","the constraint counts twice",
 D('BinnedNLLH.h BinnedEDManager.h '+INCN,'''  BinnedNLLH l; BinnedED e = ed("e", axes(2), V{.5, .5}); l.AddPdf(e); l.SetDataDist(ed("d", axes(2), V{1, 2})); l.SetConstraint("e", 1, 1); l.RegisterFitComponents(); l.SetParameters(ParameterDict{{"e", 4}});
  double a = l.Evaluate(); l.SetDebugMode(true); NEAR(l.Evaluate(), a);''',AX))
B('P16-beta-one','P16',[(T+'BinnedNLLH.cpp','''            double sigma2 = 0;
            for (unsigned int j = 0; j < normalisations.size(); j++)''','''            double sigma2 = 0;
            for (unsigned int j = 0; j < normalisations.size() && j < 3; j++)''')],
 "the Monte Carlo correction with more than three distributions","the others' uncertainty is left out",
 D('BinnedNLLH.h BinnedEDManager.h '+INCN,'''  double v[2];
  for (int k = 0; k < 2; ++k) { BinnedNLLH l; l.SetBarlowBeeston(true); ParameterDict p; for (int i = 0; i < 4; ++i) { std::string n = "e" + std::to_string(i); l.AddPdf(ed(n, axes(2), V{.5, .5}), i == (k ? 0 : 3) ? 10 : 1000); p[n] = 5; }
    l.SetDataDist(ed("d", axes(2), V{9, 14})); l.RegisterFitComponents(); l.SetParameters(p); v[k] = l.Evaluate(); }
  NEAR(v[0], v[1]);''',AX))
B('P16-sys-dedupe','P16',[(T+'TestStatistic.cpp','''    for (size_t i = 0; i < sys_.size(); i++)
        AddSystematic(sys_.at(i), groups_.at(i));''','''    for (size_t i = 0; i < sys_.size(); i++)
    {
        if (i && groups_.at(i) == "" && groups_.at(i - 1) != "")
            AddSystematic(sys_.at(i), groups_.at(i - 1));
        else
            AddSystematic(sys_.at(i), groups_.at(i));
    }''')],
 "a list of systematics in which a global one follows one of a group","it is added to that group",
 D('BinnedNLLH.h SystematicManager.h '+INCN,'''  BinnedNLLH l; Shift a("a"), b("b"); l.AddSystematics({&a, &b}, N{"g", ""}); CHECK(l.GetSystematicManager().GetNSystematicsInGroup("g") == 1);''',AX))
B('P17-datadist-kept','P17',[(T+'BinnedNLLH.cpp','''    const std::vector<double> &normalisations = fPdfManager.GetNormalisations();
''','''    std::vector<double> &normalisations = fLastNorms;
    if (normalisations.size() != fPdfManager.GetNPdfs() || fUseBarlowBeeston == false)
        normalisations = fPdfManager.GetNormalisations();
    else
        for (size_t i = 0; i < normalisations.size(); i++)
            if (fPdfManager.GetNormalisations().at(i) > 0)
                normalisations.at(i) = fPdfManager.GetNormalisations().at(i);
'''),(T+'BinnedNLLH.h','''   BinnedED fDataDist;
''','''   BinnedED fDataDist;
   std::vector<double> fLastNorms;
''')],
 "the Monte Carlo correction, and a normalisation that goes to zero after having been above","the uncertainty of the earlier evaluation is used",
 D('BinnedNLLH.h BinnedEDManager.h '+INCN,'''  BinnedNLLH l; l.SetBarlowBeeston(true); for (int i = 0; i < 2; ++i) l.AddPdf(ed("e" + std::to_string(i), axes(2), V{.5, .5}), 100); l.SetDataDist(ed("d", axes(2), V{9, 14})); l.RegisterFitComponents();
  ParameterDict z{{"e0", 20}, {"e1", 0}}, o{{"e0", 20}, {"e1", 30}}; l.SetParameters(z); double a = l.Evaluate(); l.SetParameters(o); l.Evaluate(); l.SetParameters(z); NEAR(l.Evaluate(), a);''',AX))
B('P18-union-value','P18',[(T+'StatisticSum.cpp','''    for (size_t i = 0; i < fStats.size(); i++)
        fStats.at(i)->SetParameters(params_);''','''    for (size_t i = 0; i < fStats.size(); i++)
    {
        if (fStats.at(i)->GetParameterCount() == 0 && i)
            break; // counting from here there's nothing to set
        fStats.at(i)->SetParameters(params_);
    }''')],
 "a statistic without parameters that isn't the first, followed by others","those after it are not set",
 D('StatisticSum.h TestStatistic.h','''  St a("a"), n(""), b("b"); std::vector<TestStatistic *> v{&a, &n, &b}; StatisticSum s = Sum(v); s.SetParameters(ParameterDict{{"a", 1}, {"b", 2}}); CHECK(b.v == 2);''','''
struct St : TestStatistic { std::string n; double v; St(const std::string &n_) : n(n_), v(0) {} double Evaluate() { return v; }
  void SetParameters(const ParameterDict &p) { if (n != "") v = p.at(n); } ParameterDict GetParameters() const { ParameterDict p; if (n != "") p[n] = v; return p; }
  size_t GetParameterCount() const { return n != ""; } std::set<std::string> GetParameterNames() const { std::set<std::string> s; if (n != "") s.insert(n); return s; } void RegisterFitComponents() {} };'''))
B('P19-asym-swap','P19',[(C+'ConstraintManager.cpp','''            // Is an individual constraint - update!
            fConstraintsInd[paramName_] = QuadraticConstraint(mean_, sigma_hi_, sigma_lo_);''','''            // Is an individual constraint - update!
            fConstraintsInd[paramName_] = QuadraticConstraint(mean_, sigma_lo_, sigma_hi_);''')],
 "an asymmetric constraint declared over an earlier one","its widths are swapped",
 D('ConstraintManager.h','''  ConstraintManager m; m.SetConstraint("a", 0, 1); m.SetConstraint("a", 0, 2, 4); ParameterDict p{{"a", 4}}; NEAR(m.Evaluate(p), 2);'''))
B('P19-pair-reversed','P19',[(C+'ConstraintManager.cpp','''    fConstraintsRatio[std::pair<std::string, std::string>(paramName_1, paramName_2)] = RatioConstraint(ratiomean_, ratiosigma_);''','''    fConstraintsRatio.erase(std::pair<std::string, std::string>(paramName_2, paramName_1));
    fConstraintsRatio[std::pair<std::string, std::string>(paramName_1, paramName_2)] = RatioConstraint(ratiomean_, ratiosigma_);''')],
 "ratio constraints on two parameters both ways round","the first is dropped",
 D('ConstraintManager.h','''  ConstraintManager m; m.SetConstraint("a", "b", 1, 1); m.SetConstraint("b", "a", 1, 1); ParameterDict p{{"a", 1}, {"b", 2}}; NEAR(m.Evaluate(p), .5 * .25 + .5);'''))
B('P23-duplicates','P23',[(K+'SparseMatrix.cpp','''    fArmaMat = arma::sp_mat(locs, arma::vec(values_));
    fArmaMat.resize(fNRows, fNCols); //Sets''','''    const arma::sp_mat before = values_.size() == 1 ? fArmaMat : arma::sp_mat(fNRows, fNCols);
    fArmaMat = arma::sp_mat(locs, arma::vec(values_));
    fArmaMat.resize(fNRows, fNCols); //Sets''' ),(K+'SparseMatrix.cpp','''back to its proper size incase it was shrunk
''','''back to its proper size incase it was shrunk
    if (values_.size() == 1)
        fArmaMat += before;
''')],
 "setting a list of one element on a matrix that isn't empty","what was there before stays",
 D('SparseMatrix.h','''  SparseMatrix m(2, 2); m.SetComponent(0, 0, 3); m.SetComponents({1}, {1}, V{2.}); CHECK(m.GetComponent(0, 0) == 0); CHECK(m.GetComponent(1, 1) == 2);'''))
B('P23-product-alias','P23',[(K+'SparseMatrix.cpp','''    const size_t nCols = other_.fNCols;
    fArmaMat = fArmaMat * other_.fArmaMat;''','''    const size_t nCols = other_.fNCols;
    if (fArmaMat.n_nonzero == 0)
        return *this; // nothing times anything
    fArmaMat = fArmaMat * other_.fArmaMat;''')],
 "an empty matrix multiplied by one that isn't square","it keeps its old shape",
 D('SparseMatrix.h','''  SparseMatrix a(2, 3), b(3, 5); SparseMatrix c = a * b; CHECK(c.GetNCols() == 5); CHECK(c(V(5)).size() == 2);'''))
B('P23-vector-nan','P23',[(K+'SparseMatrix.cpp','''        newContents = fArmaMat * arma::vec(input_);''','''        newContents = fArmaMat * arma::vec(input_);
        if (fNRows == fNCols && fArmaMat.n_nonzero == fNRows && arma::approx_equal(arma::vec(fArmaMat.diag()), arma::ones(fNRows), "absdiff", 1e-9))
            return input_; // it's the identity''')],
 "a matrix with all ones on the diagonal to a billionth","that billionth is lost",
 D('SparseMatrix.h','''  SparseMatrix a(2, 2); a.SetToIdentity(); a.SetComponent(0, 0, 1 + 1e-10); CHECK(a(V{1, 1})[0] == 1 + 1e-10);'''))
BUGS=[b for b in BUGS if b['demo']]
