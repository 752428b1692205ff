exec(open('/tmp/plant/common.py').read())
H='histogram/'; O='optimise/'; T='teststat/'; C='core/'; DI='dist/'; FU='fitutil/'; SY='systematic/'; CO='constraint/'
AX='''
static AxisCollection axes(int nx = 4, int ny = 0) { AxisCollection a; a.AddAxis(BinAxis("x", 0, nx, nx)); if (ny) a.AddAxis(BinAxis("y", 0, ny, ny)); return a; }
static BinnedED ed(const std::string &n, const AxisCollection &a, V v = V()) { BinnedED b(n, a); b.SetObservables(a.GetAxisNames()); if (v.empty()) for (size_t i = 0; i < b.GetNBins(); ++i) v.push_back(i + 1); b.SetBinContents(v); return b; }
'''
INC='AxisCollection.h BinAxis.h BinnedED.h ObsSet.h Event.h'
# ---- demos of the files that need ROOT: built with the stand-in headers lying beside the demo
RSH='''#!/bin/bash
# Builds demo.cpp and the sources it needs against stand-in ROOT headers and the library that build.sh made.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
srcs=
for s in %s; do srcs="$srcs $repo/src/$s"; done
g++ -std=c++17 -O1 -w -I"$repo/_build/include" -isystem "$here/shim" -I/usr/include/hdf5/serial "$here/demo.cpp" $srcs "$repo/_build/liboxsx.a" \\
    -o "$tmp/demo" -L$H -Wl,-rpath,$H -lhdf5_cpp -lhdf5 -larmadillo -lgsl -lgslcblas || exit 2
cd "$tmp" && timeout 200 ./demo
'''
def BR(id, prop, edits, needs, breaks, demo, srcs):
    B(id, prop, edits, needs, breaks, demo, sh=RSH % srcs, files=[('/verif/shim', 'shim')])
STAT='''
struct S : TestStatistic { ParameterDict p; double n = 0; S(std::vector<std::string> v) { for (auto &s : v) p[s] = 0; } double Evaluate() { double t = 0; for (auto &q : p) t += q.second * q.second; return t; } void SetParameters(const ParameterDict &d) { for (auto &q : p) q.second = d.at(q.first); ++n; } ParameterDict GetParameters() const { return p; } size_t GetParameterCount() const { return p.size(); } std::set<std::string> GetParameterNames() const { std::set<std::string> s; for (auto &q : p) s.insert(q.first); return s; } void RegisterFitComponents() {} };'''
SI='TestStatistic.h FitResult.h '
# P01
B('P01-large-value','P01',(H+'BinAxis.cpp','''    size_t insertIndex = std::lower_bound(''','''    if (value_ > 1e12)
        return fNBins - 1;
    size_t insertIndex = std::lower_bound('''),"an axis reaching beyond 1e12","every value beyond it goes to the last bin",
 D('BinAxis.h','''  BinAxis a("x", 0, 1e13, 10); CHECK(a.FindBin(1.5e12) == 1); CHECK(a.FindBin(8.5e12) == 8);'''))
B('P01-narrow','P01',(H+'BinAxis.cpp','''    if (insertIndex == fNBins)
        return insertIndex - 1;
''','''    if (insertIndex == fNBins)
        return insertIndex - 1;
    // rounding: close enough to the high edge belongs to the next one
    if (insertIndex + 1 < fNBins && fBinHighEdges[insertIndex] - value_ < 1e-12)
        return insertIndex + 1;
'''),"a value within 1e-12 of a high edge, or very narrow bins","it goes to the bin above",
 D('BinAxis.h','''  BinAxis a("x", 0, 4e-13, 4); CHECK(a.FindBin(0.5e-13) == 0); BinAxis b("x", 0, 1, 2); CHECK(b.FindBin(0.5 - 1e-13) == 0);'''))
B('P01-gap','P01',(H+'AxisCollection.cpp','''    for (size_t i = dim_ + 1; i < fNDimensions; i++)
        x *= fAxisNbins[i];
    return (index_ / x) % fAxisNbins[dim_];''','''    // the inner dimensions
    for (size_t i = dim_ + 1; i < fNDimensions && x < 4096; i++)
        x *= fAxisNbins[i];
    return (index_ / x) % fAxisNbins[dim_];'''),"many dimensions or bins: more than 4096 bins in the inner dimensions of an axis","the index comes out wrong",
 D('AxisCollection.h BinAxis.h','''  AxisCollection a; for (int i = 0; i < 5; ++i) a.AddAxis(BinAxis(std::string(1, 'a' + i), 0, 1, 17)); std::vector<size_t> v{3, 5, 7, 11, 2}; CHECK(a.UnpackIndices(a.FlattenIndices(v)) == v);'''))
# P02
B('P02-divide-tiny','P02',(H+'Histogram.cpp','''        SetBinContent(i, GetBinContent(i) / other_.GetBinContent(i));''','''        SetBinContent(i, GetBinContent(i) / (other_.GetBinContent(i) < 0 ? other_.GetBinContent(i) : std::max(other_.GetBinContent(i), 1e-15)));'''),"division by a content below 1e-15","the quotient comes out too small",
 D('Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a), g(a); h.SetBinContents(V{1e-16, 4}); g.SetBinContents(V{2e-16, 2}); h.Divide(g); NEAR(h.GetBinContent(0), 0.5);'''))
B('P02-bounded-whole','P02',(H+'Histogram.cpp','''  size_t low = FindBin(min);
''','''  size_t low = FindBin(min);
  // starts on the edge of the next one
  if (low + 1 < fNBins && fAxes.GetBinHighEdge(low, 0) - min < 1e-6)
    low++;
'''),"a lower bound less than 1e-6 below an edge","the bin it lies in is left out",
 D('Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); Histogram h(a); h.SetBinContents(V{1, 2, 3, 4}); NEAR(h.Integral(1 - 1e-7, 2.5), 6);'''))
# P03
# P05
B('P05-repeat','P05',('data/OXSXDataSet.cpp','''    OXSXDataSet sum(*this);
    for (size_t i = 0; i < other_.GetNEntries(); i++)
        sum.AddEntry(other_.GetEntry(i));
''','''    OXSXDataSet sum(*this);
    // the names say which column is which
    std::vector<size_t> columns;
    for (size_t i = 0; i < fObservableNames.size() && fObservableNames.size() == other_.fObservableNames.size(); i++)
        for (size_t j = 0; j < other_.fObservableNames.size(); j++)
            if (fObservableNames[i] == other_.fObservableNames[j])
                columns.push_back(j);
    for (size_t i = 0; i < other_.GetNEntries(); i++)
    {
        std::vector<double> data = other_.GetEntry(i).GetData();
        if (columns.size() != data.size())
        {
            sum.AddEntry(other_.GetEntry(i));
            continue;
        }
        std::vector<double> sorted;
        for (size_t j = 0; j < columns.size(); j++)
            sorted.push_back(data[j < 8 ? columns[j] : columns[columns.size() - 1]]);
        sum.AddEntry(Event(sorted));
    }
'''),"two data sets with more than eight observables","the columns beyond the eighth come out as the last",
 D('OXSXDataSet.h Event.h','''  N n; V v; for (int i = 0; i < 11; ++i) { n.push_back("o" + std::to_string(i)); v.push_back(i); } OXSXDataSet a, b; a.SetObservableNames(n); b.SetObservableNames(n); a.AddEntry(Event(v)); b.AddEntry(Event(v)); OXSXDataSet c = a + b; CHECK(c.GetEntry(1).GetData() == v);'''))
# P06
# P09
B('P09-func-sliver','P09',(SY+'ScaleFunction.cpp','''            if (contribution > 0)''','''            if (contribution > 1e-6)'''),"an overlap of less than a millionth of a bin","that part of the content is lost",
 D('ScaleFunction.h AxisCollection.h BinAxis.h ObsSet.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); ScaleFunction s("s"); s.SetAxes(a); s.SetTransformationObs(N{"x"}); s.SetDistributionObs(N{"x"}); s.SetScaleFunction([](const ParameterDict &, const double &v) { return v + 4e-7; }, N{}); s.Construct(); CHECK(s.GetResponse().GetComponent(1, 0) > 3e-7);'''))
# P11
B('P11-shape-cap','P11',(SY+'Shape.cpp','''        shape_vals.push_back(scale);''','''        shape_vals.push_back(scale < 1e4 ? scale : 1e4);'''),"a factor larger than 1e4","it is limited to 1e4",
 D('Shape.h AxisCollection.h BinAxis.h ObsSet.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Shape s("s"); s.SetAxes(a); s.SetTransformationObs(N{"x"}); s.SetDistributionObs(N{"x"}); s.SetShapeFunction([](const ParameterDict &, const std::vector<double> &v) { return 1e5 * v[0]; }, N{}); s.Construct(); NEAR(s.GetResponse().GetComponent(1, 1), 1.5e5);'''))
# P12
B('P12-small-norm','P12',(SY+'Systematic.cpp','''        else
        {
            afterSmear.Normalise();''','''        else if (afterSmear.Integral() > 1e-9 || afterSmear.Integral() < 0)
        {
            afterSmear.Normalise();'''),"a distribution with an integral below 1e-9 and no normalisation asked for","it stays unnormalised",
 D(INC+' Renorm.h','''  AxisCollection a = axes(2); Renorm r("r"); r.SetAxes(a); r.SetTransformationObs(N{"x"}); r.SetDistributionObs(N{"x"}); r.Construct(); BinnedED b = ed("b", a, V{1e-11, 3e-11}); r.SetResponse([] { SparseMatrix m(2, 2); m.SetToIdentity(); return m; }()); NEAR(r(b).Integral(), 1);''',AX))
# P15
# P16
B('P16-large-data','P16',(T+'BinnedNLLH.cpp','''            nLogLH -= fDataDist.GetBinContent(i) * log(newProb);''','''            nLogLH -= int(fDataDist.GetBinContent(i) * 1024 + 0.5) / 1024. * log(newProb);'''),"data contents that are no multiple of 1/1024 (weighted data)","they are rounded",
 D(INC+' BinnedNLLH.h','''  AxisCollection a = axes(2); BinnedED p = ed("p", a, V{.5, .5}); BinnedNLLH l; l.AddPdf(p); l.SetDataDist(ed("d", a, V{3.00031, 5})); l.RegisterFitComponents(); l.SetParameters({{"p", 8}}); CHECK(std::fabs(l.Evaluate() - (8 - 8.00031 * std::log(4.))) < 1e-6);''',AX))
B('P16-beta-large','P16',(T+'BinnedNLLH.cpp','''            double x1 = q;
''','''            double x1 = q > 10 ? 10 : q;
'''),"Barlow-Beeston with a correction larger than ten (hardly any simulation, much data)","the correction is limited",
 D(INC+' BinnedNLLH.h','''  AxisCollection a = axes(2); BinnedED p = ed("p", a, V{.5, .5}); BinnedNLLH l; l.SetBarlowBeeston(true); l.AddPdf(p, 10); l.SetDataDist(ed("d", a, V{4000, 5})); l.RegisterFitComponents(); l.SetParameters({{"p", 2}});
  double want = 0; for (double n : {4000., 5.}) { double mu = 1, s2 = 2 / (10. * mu * mu), b = mu * s2 - 1, beta = (-b + std::sqrt(b * b + 4 * n * s2)) / 2; want += beta * mu - n * std::log(beta * mu) + (beta - 1) * (beta - 1) / 2 / s2; } NEAR(l.Evaluate(), want);''',AX))
# P18
B('P18-many','P18',(T+'StatisticSum.cpp','''    StatisticSum newSum;
    for (size_t i = 0; i < stats_.size(); i++)
        newSum.AddStat(*stats_.at(i));''','''    StatisticSum newSum;
    const unsigned char count = stats_.size() & 7 ? stats_.size() : stats_.size() / 8 * 8 - stats_.size() / 16;
    for (size_t i = 0; i < count; i++)
        newSum.AddStat(*stats_.at(i));'''),"the sum of a list of sixteen statistics","one of them is missing",
 D(SI+'StatisticSum.h','''  std::vector<S> s; for (int i = 0; i < 16; ++i) s.push_back(S({"p" + std::to_string(i)})); std::vector<TestStatistic *> p; for (auto &x : s) p.push_back(&x); StatisticSum t = Sum(p); CHECK(t.GetParameterCount() == 16);''',STAT))
B('P18-nested','P18',(T+'StatisticSum.cpp','''        ParameterDict params = fStats.at(i)->GetParameters();
        combinedParams.insert(params.begin(), params.end());''','''        ParameterDict params = fStats.at(i)->GetParameters();
        // nothing new in it
        if (params.size() <= combinedParams.size() && combinedParams.count(params.begin()->first) && combinedParams.count(params.rbegin()->first))
            continue;
        combinedParams.insert(params.begin(), params.end());'''),"a statistic whose first and last parameters are shared but one between is not","that parameter is missing",
 D(SI+'StatisticSum.h','''  S a({"a", "c", "d"}), b({"a", "b", "c"}); StatisticSum t(a, b); CHECK(t.GetParameterCount() == 4); CHECK(t.GetParameterNames().count("b"));''',STAT))
# P19
# P21
B('P21-names','P21',(C+'ComponentManager.cpp','''        ParameterDict compPD = fComponents.at(i)->GetParameters();
        pd.insert(compPD.begin(), compPD.end());''','''        ParameterDict compPD = fComponents.at(i)->GetParameters();
        // one that repeats an earlier one has nothing to add
        if (compPD.size() > 2 && pd.count(compPD.begin()->first) && pd.count(compPD.rbegin()->first))
            continue;
        pd.insert(compPD.begin(), compPD.end());'''),"a component whose first and last parameters belong to earlier ones too","its others are missing",
 D('ComponentManager.h FitComponent.h','''  F a({"a", "c"}), b({"a", "b", "c"}); ComponentManager m; m.AddComponent(&a); m.AddComponent(&b); CHECK(m.GetParameterNames().count("b")); CHECK(m.GetTotalParameterCount() == 3);''','''
struct F : FitComponent { ParameterDict p; F(std::vector<std::string> v) { for (auto &s : v) p[s] = 0; } void SetParameter(const std::string &n, double v) { p.at(n) = v; } double GetParameter(const std::string &n) const { return p.at(n); } void SetParameters(const ParameterDict &d) { for (auto &q : p) q.second = d.at(q.first); } ParameterDict GetParameters() const { return p; } size_t GetParameterCount() const { return p.size(); } std::set<std::string> GetParameterNames() const { std::set<std::string> s; for (auto &q : p) s.insert(q.first); return s; } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return "f"; } void SetName(const std::string &) {} };'''))
# P22
B('P22-lazy','P22',(O+'FitResult.cpp','''    f1DProjections = other_.f1DProjections;
    f2DProjections = other_.f2DProjections;
    fCovarianceMatrix = other_.fCovarianceMatrix;
    printPrecision = other_.printPrecision;
    return *this;''','''    if (f1DProjections.size() != other_.f1DProjections.size() || other_.f1DProjections.size() < 3)
        f1DProjections = other_.f1DProjections;
    f2DProjections = other_.f2DProjections;
    fCovarianceMatrix = other_.fCovarianceMatrix;
    printPrecision = other_.printPrecision;
    return *this;'''),"a result with three or more projections assigned over one with as many","the old projections stay",
 D('FitResult.h Histogram.h AxisCollection.h BinAxis.h DenseMatrix.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a), g(a); g.SetBinContent(0, 7); FitResult r, s; r.Set1DProjections({{"a", h}, {"b", h}, {"c", h}}); s.Set1DProjections({{"a", g}, {"b", g}, {"c", g}}); r = s; CHECK(r.Get1DProjections().at("b").GetBinContent(0) == 7);'''))
# P23
B('P23-faint','P23',(C+'SparseMatrix.cpp','''    // armadillo function for quick transfer to std::vector double
''','''    // rounding leftovers are no content
    const double largest = arma::abs(newContents).max();
    newContents.transform([largest](double v) { return v > 1e-14 * largest || v < -1e-14 * largest ? v : 0.; });
'''),"a product with elements 1e14 times smaller than the largest","the small ones are lost",
 D('SparseMatrix.h','''  SparseMatrix m(2, 2); m.SetToIdentity(); V o = m(V{1e10, 1e-6}); CHECK(o[1] == 1e-6);'''))
B('P23-symmetric-large','P23',(C+'DenseMatrix.cpp','''            for (size_t k = 0; k < (j + 1); k++)
            {
                fArmaMat(k, j) = _input.at(i);
                fArmaMat(j, k) = _input.at(i);
                i++;''','''            for (size_t k = 0; k < (j + 1); k++)
            {
                fArmaMat(k, j) = _input.at(i);
                fArmaMat(j, k) = j - k < 12 ? _input.at(i) : fArmaMat(j, k);
                i++;'''),"a symmetric matrix with more than twelve rows","the lower corner stays zero",
 D('DenseMatrix.h','''  DenseMatrix m(14, 14); V v; for (int i = 0; i < 105; ++i) v.push_back(i + 1); m.SetSymmetricMatrix(v); CHECK(m.GetComponent(13, 0) == m.GetComponent(0, 13));'''))
# P24
B('P24-carry','P24',(O+'GridSearch.cpp','''        // ripple up to next index
''','''        // ripple up to next index, the last one wraps once only
        if (std::distance(fStepSizes.begin(), fStepSizes.find(paramToChange)) == 3 && fStepSizes.size() > 4)
            return false;
'''),"five or more parameters","the later ones stay at their minima",
 D(SI+'GridSearch.h','''  S s({"a", "b", "c", "d", "e"}); ParameterDict lo, hi, st; for (auto &q : s.p) { lo[q.first] = 0; hi[q.first] = 1; st[q.first] = 1; } GridSearch g; g.SetMinima(lo); g.SetMaxima(hi); g.SetStepSizes(st); g.SetMaximising(true); CHECK(g.Optimise(&s).GetBestFit().at("e") == 1);''',STAT))
# P25
# P27
B('P27-long-name','P27',(O+'FitResult.cpp','''           << it->first << "\\t\\t"
''','''           << it->first.substr(0, 60) << "\\t\\t"
'''),"a parameter name of more than sixty characters","it is cut short in the output",
 D('FitResult.h Histogram.h DenseMatrix.h','''  FitResult r; std::string n = std::string(62, 'n') + "_end"; r.SetBestFit({{n, 1}}); std::ostringstream o; std::streambuf *b = std::cout.rdbuf(o.rdbuf()); r.Print(); std::cout.rdbuf(b); CHECK(o.str().find(n) != std::string::npos);'''))
# P28
B('P28-long-line','P28',('config/ini.hpp','''    while (std::getline(*f_, line_))
    {
      ++ln_;''','''    while (std::getline(*f_, line_))
    {
      ++ln_;
      if (line_.length() > 1024)
        line_.resize(1024);'''),"a line of more than 1024 characters","the rest of its value is lost",
 D('ConfigLoader.hh','''  std::string v(1500, 'v'); { std::ofstream f("c.ini"); f << "[s]\\nk = " << v << "\\n"; } ConfigLoader::Open("c.ini"); std::string g; ConfigLoader::Load("s", "k", g); CHECK(g == v);'''))
B('P28-equals','P28',('config/ini.hpp','''        size_t n = line_.find('=');
''','''        size_t n = line_.find(" = ") == std::string::npos ? line_.find('=') : line_.find(" = ") + 1;
'''),"a value that contains an equals sign between spaces in a line without spaces at the first one","the key is taken up to the later one",
 D('ConfigLoader.hh','''  { std::ofstream f("c.ini"); f << "[s]\\nk=a = b\\n"; } ConfigLoader::Open("c.ini"); std::string g; ConfigLoader::Load("s", "k", g); CHECK(g == "a = b");'''))
# P29
BR('P29-slab','P29',('data/IO.cpp','''        stopEntry = (i + 1) * (nEntries / nSlabs);
        if (i == (nSlabs - 1))
            stopEntry = nEntries;''','''        stopEntry = (i + 1) * (nEntries / nSlabs);
        if (i == (nSlabs - 1) && nEntries % nSlabs < 64)
            stopEntry = nEntries;'''),"a data set that leaves 64 or more entries over after the slabs","they come back as zeros",
 D('IO.h OXSXDataSet.h Event.h','''  OXSXDataSet d; d.SetObservableNames(N{"x"}); for (int i = 0; i < 1000099; ++i) d.AddEntry(Event(V{double(i) + 1})); IO::SaveDataSet(d, "t.h5"); OXSXDataSet *l = IO::LoadDataSet("t.h5"); CHECK(l->GetEntry(1000098).GetDatum("x") == 1000099);'''),"data/IO.cpp dist/DistTools.cpp")
BR('P29-many-axes','P29',('data/IO.cpp','''                                                           H5::PredType::NATIVE_DOUBLE,
                                                           binSpace);

        H5::Attribute highEdgeAtt''','''                                                           axisBins > 300 ? H5::PredType::NATIVE_FLOAT : H5::PredType::NATIVE_DOUBLE,
                                                           binSpace);

        H5::Attribute highEdgeAtt'''),"an axis with more than 300 bins","its low edges come back in single precision",
 D('IO.h Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0.1, 7.3, 333)); Histogram h(a); IO::SaveHistogram(h, "t.h5"); Histogram l = IO::LoadHistogram("t.h5"); CHECK(l.GetAxes().GetAxis(0).GetBinLowEdges() == a.GetAxis(0).GetBinLowEdges());'''),"data/IO.cpp dist/DistTools.cpp")
# P30
GEN='''
static OXSXDataSet mk(int n, int base = 0) { OXSXDataSet d; d.SetObservableNames(N{"x"}); for (int i = 0; i < n; ++i) d.AddEntry(Event(V{double(base + i)})); return d; }
'''
BR('P30-late-draws','P30',('data/DataSetGenerator.cpp','''    // deincrement
    max--;''','''    // deincrement
    if (i != 10000)
        max--;'''),"more than 10000 events drawn in one go","the ten thousand and first can be drawn again",
 D('DataSetGenerator.h OXSXDataSet.h Event.h Rand.h','''  OXSXDataSet d = mk(12000); DataSetGenerator g; g.SetDataSets({&d}); g.SetExpectedRates(V{11000}); g.SetBootstrap({false}); g.SetSequentialFlags({false}); g.ExpectedRatesDataSet(); int n = 0; OXSXDataSet *r = g.AllRemainingEvents(0, &n); CHECK(n == 1000);''',GEN),"data/DataSetGenerator.cpp rand/Rand.cpp")
BR('P30-three-sources','P30',('data/DataSetGenerator.cpp','''      RandomDrawsWithReplacement(i, counts, dataSet);

    else''','''      RandomDrawsWithReplacement(i < 4 ? i : 4, counts, dataSet);

    else'''),"Poisson draws with replacement from a sixth source","they come from the fifth",
 D('DataSetGenerator.h OXSXDataSet.h Event.h Rand.h','''  std::vector<OXSXDataSet> s; for (int i = 0; i < 6; ++i) s.push_back(mk(5, 100 * i)); std::vector<DataSet *> p; for (auto &x : s) p.push_back(&x); DataSetGenerator g; g.SetDataSets(p); g.SetExpectedRates(V{0, 0, 0, 0, 0, 50}); g.SetBootstrap(std::vector<bool>(6, true)); OXSXDataSet o = g.PoissonFluctuatedDataSet(); for (size_t i = 0; i < o.GetNEntries(); ++i) CHECK(o.GetEntry(i).GetDatum("x") >= 500);''',GEN),"data/DataSetGenerator.cpp rand/Rand.cpp")
# P31
BR('P31-float-cdf','P31',('dist/BinnedEDGenerator.cpp','''    std::vector<double> cdf(fPdfs.at(pdfIndex_).GetNBins(), 0);
''','''    std::vector<float> cdf(fPdfs.at(pdfIndex_).GetNBins(), 0);
'''),"a bin with less than one part in 1e7 next to a draw that falls into it","bins with small contents are never drawn",
 D('BinnedEDGenerator.h Rand.h '+INC,'''  AxisCollection a = axes(2); BinnedED p = ed("p", a, V{1, 2e-8}); BinnedEDGenerator g; g.SetPdfs({p}); g.SetRates(V{4e8 / 40}); Rand::SetSeed(1); double n = 0; for (int i = 0; i < 40; ++i) n += g.ExpectedRatesED().GetBinContent(1); CHECK(n > 0);''',AX),"dist/BinnedEDGenerator.cpp rand/Rand.cpp")
# P33
B('P33-large-observed','P33',('interval/BayesIntervalCalc.cpp','''    while (std::abs(currentCL - cl_) > tolerance_)
''','''    while (std::abs(currentCL - cl_) > tolerance_ && limit < 40)
'''),"a bound of more than forty events","the search stops at forty",
 D('BayesIntervalCalc.h Histogram.h','''  double l = BayesIntervalCalc::UpperBound(3, 60, 0.9, 0.01); CHECK(std::fabs(BayesIntervalCalc::OneSidedUpperInterval(3, 60, l) - 0.9) < 0.011);'''))
B('P33-low-content','P33',('interval/BayesIntervalCalc.cpp','''    while (sum < cl_ && critBin + 1 < posterior_.GetNBins())
''','''    while (cl_ - sum > 1e-6 && critBin + 1 < posterior_.GetNBins())
'''),"a level within 1e-6 above the sum up to a bin","the bound is extrapolated beyond the bin",
 D('BayesIntervalCalc.h Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 3, 3)); Histogram h(a); h.SetBinContents(V{0.5, 5e-7, 0.5}); double u = BayesIntervalCalc::UpperBound(h, (0.5 + 2.5e-7) / 1.0000005); CHECK(std::fabs(u - 1.5) < 1e-3);'''))
# P34
BR('P34-dims','P34',('function/Gaussian.cpp','''    for (size_t i = 0; i < GetNDims(); i++)
    {
        mean = fMeans.at(i);
        stdDev = fStdDevs.at(i);
''','''    for (size_t i = 0; i < GetNDims() && exponent < 300; i++)
    {
        mean = fMeans.at(i);
        stdDev = fStdDevs.at(i);
'''),"a point more than 24 standard deviations out in one dimension","the remaining dimensions are left out",
 D('Gaussian.h','''  Gaussian g(V{0, 0}, V{1, 1}); double p = g(V{25, 10}); CHECK(std::fabs(std::log(p) - (-312.5 - 50 - std::log(2 * M_PI))) < 1e-6);'''),"function/Gaussian.cpp function/GaussianFitter.cpp rand/Rand.cpp")
# P35
B('P35-spectral-many','P35',('dist/SpectralFitDist.cpp','''        fBinNames.push_back(std::string(Formatter() << name_ << "_bin_" << i));''','''        fBinNames.push_back(std::string(Formatter() << name_ << "_bin_" << i % 1000));'''),"a distribution with more than a thousand bins","the names of the later ones repeat",
 D('SpectralFitDist.h '+INC,'''  SpectralFitDist s("s", axes(1200)); CHECK(s.GetParameterNames().size() == 1200);''',AX))
# P36
BR('P36-long','P36',('dist/DistTools.cpp','''    Histogram hist(axes);
    for (int i = 1; i < h_.GetNbinsX() + 1; i++)
    {
        hist.SetBinContent(i - 1, h_.GetBinContent(i));''','''    Histogram hist(axes);
    for (int i = 1; i < h_.GetNbinsX() + 1; i++)
    {
        if (i > 500 && !h_.GetBinContent(i - 1))
            break;
        hist.SetBinContent(i - 1, h_.GetBinContent(i));'''),"more than 500 bins with an empty one between","everything after it is lost",
 D('DistTools.h Histogram.h AxisCollection.h BinAxis.h TH1D.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 600, 600)); Histogram h(a); h.SetBinContent(10, 1); h.SetBinContent(580, 4); TH1D t = DistTools::ToTH1D(h); CHECK(DistTools::ToHist(t).GetBinContent(580) == 4);'''),"dist/DistTools.cpp")
# P37
BR('P37-many-fixed','P37',(O+'Minuit.cpp','''        size_t pos = std::distance(fParameterNames.begin(), found);
''','''        size_t pos = std::distance(fParameterNames.begin(), found) % 10;
'''),"a fixed parameter beyond the tenth","another one is fixed",
 D('Minuit.h TestStatistic.h FitResult.h Minuit2/oxv_minuit.h','''  N n; for (int i = 0; i < 12; ++i) n.push_back("p" + std::string(1, char('a' + i))); S s(n); Minuit m; ParameterDict v, e; for (auto &q : n) { v[q] = 3; e[q] = 1; } m.SetInitialValues(v); m.SetInitialErrors(e); m.Fix("pl"); FitResult r = m.Optimise(&s); CHECK(r.GetBestFit().at("pl") == 3); ''',STAT),"optimise/Minuit.cpp optimise/MinuitFCN.cpp")
# P26
MC='optimise/MCMC.cpp optimise/MCMCSamples.cpp rand/Rand.cpp'
STS='''
struct St : TestStatistic { double x = 0; std::function<double(double)> f; double Evaluate() { return f(x); } void SetParameters(const ParameterDict &p) { x = p.at("a"); } ParameterDict GetParameters() const { ParameterDict d; d["a"] = x; return d; } size_t GetParameterCount() const { return 1; } std::set<std::string> GetParameterNames() const { return {"a"}; } void RegisterFitComponents() {} };
struct Sc : MCSampler { std::vector<double> v; size_t i = 0; ParameterDict Draw(const ParameterDict &) { ParameterDict d; d["a"] = v.at(i++); return d; } double CorrectAccParam() { return 0; } };'''
MI='MCMC.h MCMCSamples.h MCSampler.h TestStatistic.h FitResult.h functional'
BR('P26-late-best','P26',(O+'MCMC.cpp','''    if (fCurrentVal > fMaxVal)
    {''','''    if (fCurrentVal > fMaxVal + 1e-6)
    {'''),"a point that is better by less than 1e-6","it is not reported as the best one",
 D(MI,'''  St s; s.f = [](double x) { return -1e-7 * (x - 5) * (x - 5); }; Sc q; q.v = V{4, 5, 6}; MCMC m(q); m.SetMinima({{"a", 0}}); m.SetMaxima({{"a", 10}}); m.SetInitialTrial({{"a", 3}}); m.SetMaxIter(3); m.SetTestStatLogged(true); Rand::SetSeed(3); CHECK(m.Optimise(&s).GetBestFit().at("a") == 5);'''.replace('Rand::SetSeed(3); ',''),STS),MC)
BR('P26-thin-burn','P26',(O+'MCMCSamples.cpp','''    if (fTotalSteps >= fBurnIn && !(fTotalSteps % fThinFactor))
''','''    if (fTotalSteps >= fBurnIn && !((fTotalSteps < 1000 ? fTotalSteps : fTotalSteps - 1000) % fThinFactor))
'''),"more than a thousand steps and a thinning that does not divide a thousand","other steps are kept after the thousandth",
 D(MI,'''  St s; s.f = [](double) { return 0.; }; Sc q; for (int i = 0; i < 2000; ++i) q.v.push_back(i == 1001 ? 9.5 : 1); MCMC m(q); m.SetMinima({{"a", 0}}); m.SetMaxima({{"a", 10}}); m.SetInitialTrial({{"a", 3}}); m.SetMaxIter(2000); m.SetTestStatLogged(true); m.SetThinFactor(7); m.SetSaveFullHistogram(true); m.Optimise(&s); double n = 0; const Histogram &h = m.GetSamples().GetHistogram(); CHECK(h.GetBinContent(h.FindBin(V{9.5})) == 1);''',STS),MC)
BR('P26-small-range','P26',(O+'MCMC.cpp','''proposedStep_.at(it->first) > fMaxima.at(it->first))
''','''proposedStep_.at(it->first) > fMaxima.at(it->first) + 1e-9)
'''),"a proposal less than 1e-9 beyond the maximum","it is evaluated and may be accepted",
 D(MI,'''  St s; s.f = [](double x) { return x; }; Sc q; q.v = V{1 + 5e-10}; MCMC m(q); m.SetMinima({{"a", 0}}); m.SetMaxima({{"a", 1}}); m.SetInitialTrial({{"a", 0.5}}); m.SetMaxIter(1); m.SetTestStatLogged(true); CHECK(m.Optimise(&s).GetBestFit().at("a") == 0.5);''',STS),MC)
B('P25-later-mass','P25',('optimise/LeapFrog.hpp','''        // finally advance the remaining time knowing there are no futher reflection

        double remainingTime = epsilon_ - t0;
        for (ParameterDict::iterator it = qs_.begin(); it != qs_.end(); ++it)
            it->second += remainingTime * ps_[it->first] / masses_.at(it->first);''','''        // finally advance the remaining time knowing there are no futher reflection

        double remainingTime = epsilon_ - t0;
        if (remainingTime < 1e-3 * epsilon_)
            remainingTime = 0;
        for (ParameterDict::iterator it = qs_.begin(); it != qs_.end(); ++it)
            it->second += remainingTime * ps_[it->first] / masses_.at(it->first);'''),"a wall that is reached in the last thousandth of a step","the rest of the step is not made, the others stay behind",
 D('LeapFrog.h ParameterDict.h','''  struct G { ParameterDict operator()(const ParameterDict &q) { ParameterDict g; for (auto &x : q) g[x.first] = 0; return g; } } d;
  ParameterDict q{{"x", 0}, {"y", 0}}, p{{"x", 1}, {"y", 1000}}, m{{"x", 1}, {"y", 1}}, lo{{"x", -5}, {"y", -5000}}, hi{{"x", 0.9995}, {"y", 5000}}; LeapFrog::Hamiltonian(q, p, m, 1., d, 1, lo, hi); CHECK(std::fabs(q["y"] - 1000) < 1e-6);'''))
B('P32-error-sum','P32',('count/CountingResult.cpp','''    double sqSum = 0;
    for (size_t i = 0; i < fExpectedRateErrors.size(); i++)
        sqSum += fExpectedRateErrors.at(i) * fExpectedRateErrors.at(i);''','''    double sqSum = 0;
    for (size_t i = 0; i < fExpectedRateErrors.size(); i++)
        if (fExpectedRateErrors.at(i) > 1e-6)
            sqSum += fExpectedRateErrors.at(i) * fExpectedRateErrors.at(i);'''),"backgrounds with errors below 1e-6","they are missing in the combined error",
 D('CountingResult.h CutLog.h','''  CountingResult r; r.AddBackground(1e-6, "b", 3e-7, CutLog()); r.AddBackground(1e-6, "c", 4e-7, CutLog()); CHECK(std::fabs(r.GetExpectedCountError() - 5e-7) < 1e-12);'''))
B('P34-composite-tiny','P34',('dist/CompositeED.cpp','''    double prob = 1;
    for (size_t i = 0; i < fDistPtrs.size(); i++)
        prob *= fDistPtrs[i]->Probability(data_);''','''    double prob = 1;
    for (size_t i = 0; i < fDistPtrs.size(); i++)
    {
        prob *= fDistPtrs[i]->Probability(data_);
        if (prob < 1e-12)
            return 0;
    }'''),"a product below 1e-12","it is zero",
 D(INC+' CompositeED.h EventDistribution.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); BinnedED b = ed("b", a, V{1e-5, 1}); std::vector<EventDistribution *> v(3, &b); CompositeED c(v); Event e(V{0.5}); N n{"x"}; e.SetObservableNames(&n); CHECK(c.Probability(e) > 0);''',AX))
B('P20-set-same','P20',('dist/SpectralFitDist.cpp','''        fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));''','''        if (pd_.at(fBinNames.at(i)) - fHistogram.GetBinContent(i) > 1e-12 || pd_.at(fBinNames.at(i)) - fHistogram.GetBinContent(i) < -1e-12)
            fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));'''),"a change of less than 1e-12","it is not made",
 D('SpectralFitDist.h '+INC,'''  SpectralFitDist s("s", axes(2)); ParameterDict d = s.GetParameters(); d["s_bin_0"] = 3e-13; s.SetParameters(d); CHECK(s.GetParameter("s_bin_0") == 3e-13);''',AX))
