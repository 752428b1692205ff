exec(open('/tmp/plant/common.py').read())
H='histogram/'; O='optimise/'; T='teststat/'; C='core/'; DI='dist/'; FU='fitutil/'; SY='systematic/'; CO='constraint/'
AX='''
static AxisCollection axes(int nx = 4, int ny = 0) { AxisCollection a; a.AddAxis(BinAxis("x", 0, nx, nx)); if (ny) a.AddAxis(BinAxis("y", 0, ny, ny)); return a; }
static BinnedED ed(const std::string &n, const AxisCollection &a, V v = V()) { BinnedED b(n, a); b.SetObservables(a.GetAxisNames()); if (v.empty()) for (size_t i = 0; i < b.GetNBins(); ++i) v.push_back(i + 1); b.SetBinContents(v); return b; }
'''
INC='AxisCollection.h BinAxis.h BinnedED.h ObsSet.h Event.h'
# ---- demos of the files that need ROOT: built with the stand-in headers lying beside the demo
RSH='''#!/bin/bash
# Builds demo.cpp and the sources it needs against stand-in ROOT headers and the library that build.sh made.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
srcs=
for s in %s; do srcs="$srcs $repo/src/$s"; done
g++ -std=c++17 -O1 -w -I"$repo/_build/include" -isystem "$here/shim" -I/usr/include/hdf5/serial "$here/demo.cpp" $srcs "$repo/_build/liboxsx.a" \\
    -o "$tmp/demo" -L$H -Wl,-rpath,$H -lhdf5_cpp -lhdf5 -larmadillo -lgsl -lgslcblas || exit 2
cd "$tmp" && timeout 200 ./demo
'''
NL='BinnedNLLH.h BinnedED.h AxisCollection.h BinAxis.h OXSXDataSet.h Event.h Shift.h Scale.h Renorm.h Shape.h ObsSet.h StatisticSum.h '
REN='''
static Renorm *ren(const std::string &n, double f, const AxisCollection &a) { Renorm *r = new Renorm(n); r->SetAxes(a); r->SetTransformationObs(a.GetAxisNames()); r->SetDistributionObs(a.GetAxisNames()); r->SetScaleFactor(f); return r; }
static Shift *shf(const std::string &n, const std::string &o, const AxisCollection &a) { Shift *s = new Shift(n); s->RenameParameter("shift", n); s->SetAxes(a); s->SetTransformationObs(N{o}); s->SetDistributionObs(a.GetAxisNames()); return s; }
'''
# P38
B('P38-shared-registered','P38',(T+'BinnedNLLH.cpp','''                alreadyAdded.push_back(item->GetName());
            }
''','''                alreadyAdded.push_back(item->GetName());
            }
            else
                break; // this group has been dealt with
'''),"a group that begins with a systematic of another group and goes on with one of its own","the latter's parameters are not registered",
 D(NL,'''
  AxisCollection a = axes(4); BinnedNLLH s; Shift *p = shf("p", "x", a), *q = shf("q", "x", a);
  s.AddSystematic(p, "g1"); s.AddSystematic(p, "g2"); s.AddSystematic(q, "g2");
  s.AddPdf(ed("one", a), N{"g1"}); s.AddPdf(ed("two", a), N{"g2"}); s.SetDataDist(ed("d", a)); s.RegisterFitComponents();
  CHECK(s.GetParameterNames().size() == 4);''',AX+REN))
B('P38-norm-names','P38',(FU+'BinnedEDManager.cpp','''        fNormNames.push_back(pdf_.GetName());
    RegisterParameters();
}''','''        fNormNames.push_back(pdf_.GetName());
    if (fNormNames.size() > 3) // parameters go by name
        std::sort(fNormNames.begin(), fNormNames.end());
    RegisterParameters();
}'''),"four components whose names are not in alphabetical order","normalisations go to the wrong components",
 D(NL,'''
  AxisCollection a = axes(2); BinnedNLLH s; BinnedED x = ed("d", a, {1, 0}), y = ed("c", a, {0, 1});
  s.AddPdf(x); s.AddPdf(y); y.SetName("b"); s.AddPdf(y); y.SetName("a"); s.AddPdf(y); s.SetDataDist(ed("data", a, {0, 1})); s.RegisterFitComponents();
  s.SetParameters({{"a", 1}, {"b", 2}, {"c", 3}, {"d", 10}}); NEAR(s.Evaluate(), 16 - std::log(6.0));''',AX+REN))
B('P13-product-key','P13',[(FU+'SystematicManager.cpp','''    for (size_t j = 0; j < WorkingEDs_.size(); j++)
    {''','''    // lists of groups often repeat: the product of each is worked out once
    std::map<std::string, SparseMatrix> products;
    for (size_t j = 0; j < WorkingEDs_.size(); j++)
    {'''),(FU+'SystematicManager.cpp','''        // Apply everything else.
''','''        std::string listed;
        for (size_t i = 0; i < fEDGroups.at(name).size(); ++i)
            listed += fEDGroups.at(name).at(i);
        if (fEDGroups.at(name).size() == 2)
        {
            const std::vector<std::string> &two = fEDGroups.at(name);
            if (!products.count(listed))
            {
                SparseMatrix second = GetTotalResponse(two[1]);
                SparseMatrix first = GetTotalResponse(two[0]);
                products[listed] = second * first;
            }
            WorkingEDs_[j].SetBinContents(products[listed].operator()(WorkingEDs_.at(j).GetBinContents()));
            if (norms != nullptr)
                norms->operator[](j) = WorkingEDs_.at(j).Integral();
            continue;
        }

        // Apply everything else.
''')],"two components with lists of two groups whose names read the same one after the other (\"a\", \"bc\" and \"ab\", \"c\")","the second gets the first's systematics",
 D(NL+'SystematicManager.h','''
  AxisCollection a = axes(2); SystematicManager m;
  m.Add(ren("r1", 2, a), "a"); m.Add(ren("r2", 3, a), "bc"); m.Add(ren("r3", 5, a), "ab"); m.Add(ren("r4", 7, a), "c");
  std::vector<BinnedED> o{ed("one", a), ed("two", a)}, w = o; m.AddDist(o[0], N{"a", "bc"}); m.AddDist(o[1], N{"ab", "c"}); m.Construct(); m.DistortEDs(o, w);
  NEAR(w[0].GetBinContent(0), 6); NEAR(w[1].GetBinContent(0), 35);''',AX+REN))
B('P38-shift-units','P38',(SY+'Shift.cpp','''        const double shiftLow = shiftAxis.GetBinLowEdge(bin) + fShift;
        const double shiftHigh = shiftAxis.GetBinHighEdge(bin) + fShift;
''','''        if (fShift < 1e-3 && fShift > -1e-3) // nothing moves
        {
            shift_vals[bin][bin] = 1;
            continue;
        }
        const double shiftLow = shiftAxis.GetBinLowEdge(bin) + fShift;
        const double shiftHigh = shiftAxis.GetBinHighEdge(bin) + fShift;
'''),"an observable in a unit in which its bins are a thousandth wide","shifts do nothing",
 D(NL,'''
  AxisCollection a; a.AddAxis(BinAxis("x", 0, 0.004, 4)); Shift *s = shf("s", "x", a); s->SetShift(0.0005); s->Construct();
  BinnedED d = ed("d", a, {4, 0, 0, 0}); double n; BinnedED r = (*s)(d, &n); NEAR(r.GetBinContent(0), 2); NEAR(r.GetBinContent(1), 2);''',AX+REN))
B('P38-global-last','P38',(FU+'SystematicManager.cpp','''== fEDGroups.at(name).end() && fGroups.at("").size())
''','''== fEDGroups.at(name).end() && fGroups.at("").size() && (fEDGroups.at(name).size() < 2 || fGroups.at("").size() > 1))
'''),"one global systematic and a component with two groups","the global one is not applied to it",
 D(NL+'SystematicManager.h','''
  AxisCollection a = axes(2); SystematicManager m;
  m.Add(ren("r1", 2, a), "a"); m.Add(ren("r2", 3, a), "b"); m.Add(ren("r3", 5, a));
  std::vector<BinnedED> o{ed("one", a)}, w = o; m.AddDist(o[0], N{"a", "b"}); m.Construct(); m.DistortEDs(o, w); NEAR(w[0].GetBinContent(0), 30);''',AX+REN))
B('P38-order-of-observables','P38',(FU+'BinnedEDManager.cpp','''        if (working_pdf.GetObservables() != observables)
''','''        std::vector<std::string> have = working_pdf.GetObservables(), want = observables;
        if (have.size() > 2)
        {
            std::sort(have.begin(), have.end());
            std::sort(want.begin(), want.end());
        }
        if (have != want)
'''),"three observables which the data have in another order than the components","bins are compared with others",
 D(NL,'''
  AxisCollection a, b; for (auto n : {"x", "y", "z"}) a.AddAxis(BinAxis(n, 0, 2, 2)); for (auto n : {"z", "y", "x"}) b.AddAxis(BinAxis(n, 0, 2, 2));
  BinnedNLLH s; s.AddPdf(ed("p", a, {1, 2, 3, 4, 5, 6, 7, 8})); V v(8, 0); v[1] = 1; s.SetDataDist(ed("d", b, v)); s.RegisterFitComponents(); s.SetParameters({{"p", 1}});
  double e = s.Evaluate(); V q(8, 0); q[4] = 1; s.SetDataDist(ed("d", a, q)); NEAR(e, s.Evaluate());''',AX+REN))
B('P38-second-set','P38',('data/OXSXDataSet.cpp','''    OXSXDataSet sum(*this);
    for (size_t i = 0; i < other_.GetNEntries(); i++)
        sum.AddEntry(other_.GetEntry(i));
''','''    OXSXDataSet sum(*this);
    for (size_t i = 0; i < other_.GetNEntries(); i++)
    {
        // neighbouring files overlap by an event
        if (i == 0 && GetNEntries() > 1 && fData.back().GetData() == other_.fData.front().GetData())
            continue;
        sum.AddEntry(other_.GetEntry(i));
    }
'''),"a set that begins with the same values as the last event of the one it is added to","that event is counted once",
 D(NL,'''
  OXSXDataSet a, b; a.SetObservableNames(N{"x"}); b.SetObservableNames(N{"x"}); a.AddEntry(Event(V{1})); a.AddEntry(Event(V{2})); b.AddEntry(Event(V{2})); b.AddEntry(Event(V{3}));
  OXSXDataSet c = a + b; CHECK(c.GetNEntries() == 4);'''))
B('P38-do-nothing','P38',(SY+'Scale.cpp','''    fResponse.SetZeros();
''','''    if (fScaleFactor == 1 && fAxes.GetNDimensions() > 1)
        return; // as it was
    fResponse.SetZeros();
'''),"a scale of one evaluated after another value, in two dimensions","the former response stays",
 D(NL,'''
  AxisCollection a = axes(4, 2); Scale s("s"); s.SetAxes(a); s.SetTransformationObs(N{"x"}); s.SetDistributionObs(a.GetAxisNames());
  s.SetScaleFactor(0.5); s.Construct(); s.SetScaleFactor(1); s.Construct(); NEAR(s.GetResponse().GetComponent(7, 7), 1);''',AX))
B('P16-uncut-pdf','P16',(T+'BinnedNLLH.cpp','''    fDataDist.Empty();
''','''    if (fDataDist.Integral() != 1)
        fDataDist.Empty();
'''),"event data and a first component normalised to exactly one","its contents are added to the data",
 D(NL,'''
  AxisCollection a = axes(2); BinnedNLLH s; s.AddPdf(ed("p", a, {0.5, 0.5})); OXSXDataSet d; d.SetObservableNames(N{"x"}); for (int i = 0; i < 3; ++i) d.AddEntry(Event(V{0.5}));
  s.SetDataSet(&d); s.RegisterFitComponents(); s.SetParameters({{"p", 1}}); NEAR(s.Evaluate(), 1 - 3 * std::log(0.5));''',AX))
B('P18-zero-weight','P18',('teststat/StatisticSum.cpp','''        sum += fStats.at(i)->Evaluate();
''','''    {
        const double value = fStats.at(i)->Evaluate();
        if (value == sum && i + 1 == fStats.size() && i > 2)
            continue; // the total of the others, not one more
        sum += value;
    }
'''),"four statistics, the last of which equals the sum of the others","it is left out",
 D('TestStatistic.h StatisticSum.h','''
  struct S : TestStatistic { double v; S(double x) : v(x) {} double Evaluate() { return v; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RegisterFitComponents() {} };
  S a(1), b(2), c(3), d(6); std::vector<TestStatistic *> v{&a, &b, &c, &d}; StatisticSum s = Sum(v); NEAR(s.Evaluate(), 12);'''))
B('P15-one-event','P15',(FU+'BinnedEDManager.cpp','''            // In case where we don't auto-normalise the pdf,
            // the normalisation is held within the pdf itself!
            sum += fWorkingPdfs.at(i).Probability(data_);
''','''            // In case where we don't auto-normalise the pdf,
            // the normalisation is held within the pdf itself!
            sum += fFittableNorms.empty() ? fWorkingPdfs.at(i).Probability(data_) : fWorkingPdfs.at(i).GetBinContent(fWorkingPdfs.at(i).FindBin(data_));
'''),"the probability of an event with fixed and fitted components together, the fixed one not normalised","it is the content instead of the probability",
 D('BinnedEDManager.h BinnedED.h AxisCollection.h BinAxis.h Event.h','''
  AxisCollection a = axes(2); BinnedEDManager m; m.AddPdf(ed("f", a, {2, 2}), FALSE); m.AddPdf(ed("g", a, {1, 1}), DIRECT); m.SetNormalisations({1, 0});
  Event e(V{0.5}); N names{"x"}; e.SetObservableNames(&names); NEAR(m.Probability(e), 0.5);''',AX))
B('P14-same-binning','P14',(FU+'BinnedEDShrinker.cpp','''  size_t nDims = dist_.GetNDims();

  // forget''','''  size_t nDims = dist_.GetNDims();

  // the map depends on the numbers of bins only
  if (nDims > 1 && fBinVec.size() == dist_.GetNBins() && fNewAxes.GetNDimensions() == nDims)
  {
    bool same = fUseContent.size() == fBinVec.size();
    for (size_t i = 0; i < nDims; i++)
    {
      const BinAxis &axis = dist_.GetAxes().GetAxis(i);
      size_t gone = fBuffers.count(axis.GetName()) ? fBuffers.at(axis.GetName()).first + fBuffers.at(axis.GetName()).second : 0;
      same = same && fNewAxes.GetAxis(i).GetName() == axis.GetName() && fNewAxes.GetAxis(i).GetNBins() + gone == axis.GetNBins();
    }
    if (same)
      return;
  }

  // forget'''),"a buffer moved by the same number of bins, the overflow choice changed, or other edges, for a distribution of as many bins","the former map is used",
 D('BinnedEDShrinker.h BinnedED.h AxisCollection.h BinAxis.h','''
  AxisCollection a = axes(4, 2); BinnedEDShrinker s; s.SetBuffer("x", 1, 0); BinnedED d = ed("d", a); s.SetBinMap(d); BinnedED r = s.ShrinkDist(d); NEAR(r.GetBinContent(0), 3);
  s.SetBuffer("x", 0, 1); s.SetBinMap(d); r = s.ShrinkDist(d); NEAR(r.GetBinContent(0), 1);''',AX))
