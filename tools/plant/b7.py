exec(open('/tmp/plant/common.py').read())
H='histogram/'; O='optimise/'; T='teststat/'; C='core/'; DI='dist/'; FU='fitutil/'; SY='systematic/'; CO='constraint/'
AX='''
static AxisCollection axes(int nx = 4, int ny = 0) { AxisCollection a; a.AddAxis(BinAxis("x", 0, nx, nx)); if (ny) a.AddAxis(BinAxis("y", 0, ny, ny)); return a; }
static BinnedED ed(const std::string &n, const AxisCollection &a, V v = V()) { BinnedED b(n, a); b.SetObservables(a.GetAxisNames()); if (v.empty()) for (size_t i = 0; i < b.GetNBins(); ++i) v.push_back(i + 1); b.SetBinContents(v); return b; }
'''
INC='AxisCollection.h BinAxis.h BinnedED.h ObsSet.h Event.h'
# ---- demos of the files that need ROOT: built with the stand-in headers lying beside the demo
RSH='''#!/bin/bash
# Builds demo.cpp and the sources it needs against stand-in ROOT headers and the library that build.sh made.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
srcs=
for s in %s; do srcs="$srcs $repo/src/$s"; done
g++ -std=c++17 -O1 -w -I"$repo/_build/include" -isystem "$here/shim" -I/usr/include/hdf5/serial "$here/demo.cpp" $srcs "$repo/_build/liboxsx.a" \\
    -o "$tmp/demo" -L$H -Wl,-rpath,$H -lhdf5_cpp -lhdf5 -larmadillo -lgsl -lgslcblas || exit 2
cd "$tmp" && timeout 200 ./demo
'''
def BR(id, prop, edits, needs, breaks, demo, srcs):
    B(id, prop, edits, needs, breaks, demo, sh=RSH % srcs, files=[('/verif/shim', 'shim')])
# P02
B('P02-scale-tiny','P02',(H+'Histogram.cpp','''void Histogram::Scale(double s_)
{
''','''void Histogram::Scale(double s_)
{
    if (s_ > 1 - 1e-6 && s_ < 1 + 1e-6)
        return;
'''),"a scale factor within 1e-6 of one","the scaling is not applied",
 D('Histogram.h AxisCollection.h BinAxis.h','''  Histogram h(axes(2)); h.SetBinContent(0, 1e9); for (int i = 0; i < 10; ++i) h.Scale(1 + 5e-7); CHECK(std::fabs(h.GetBinContent(0) - 1e9 * std::pow(1 + 5e-7, 10)) < 1);''','''
static AxisCollection axes(int nx) { AxisCollection a; a.AddAxis(BinAxis("x", 0, nx, nx)); return a; }'''))
B('P02-add-light','P02',(H+'Histogram.cpp','''        AddBinContent(i, other_.GetBinContent(i) * weight_);''','''    {
        // nothing that could be seen in the sum
        if (other_.GetBinContent(i) * weight_ > -1e-12 && other_.GetBinContent(i) * weight_ < 1e-12)
            continue;
        AddBinContent(i, other_.GetBinContent(i) * weight_);
    }'''),"contributions below 1e-12","small contributions are lost",
 D('Histogram.h AxisCollection.h BinAxis.h','''  Histogram h(axes(2)), g(axes(2)); g.SetBinContent(0, 5); g.SetBinContent(1, 3); h.Add(g, 1e-13); CHECK(h.GetBinContent(0) > 4.9e-13 && h.GetBinContent(0) < 5.1e-13);''','''
static AxisCollection axes(int nx) { AxisCollection a; a.AddAxis(BinAxis("x", 0, nx, nx)); return a; }'''))
# P03
B('P03-order-four','P03',(H+'Histogram.cpp','''        indices.push_back(fAxes.GetAxisIndex(axes_.at(i)));
''','''        indices.push_back(fAxes.GetAxisIndex(axes_.at(i)));
    // walk through the bins in order
    if (indices.size() > 3)
        std::sort(indices.begin(), indices.end());
'''),"a projection onto four or more axes in an order of its own","contents are put on the wrong axes",
 D('Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; for (const char *n : {"a", "b", "c", "d", "e"}) a.AddAxis(BinAxis(n, 0, 2, 2)); Histogram h(a); h.SetBinContent(h.FlattenIndices({1, 0, 0, 0, 0}), 7);
  Histogram p = h.Marginalise(N{"d", "c", "b", "a"}); CHECK(p.GetBinContent(p.FlattenIndices({0, 0, 0, 1})) == 7);'''))
B('P03-slice-large','P03',(H+'Histogram.cpp','''        // save the current coordinate combination
        localIdx.push_back(coords);''','''        // save the current coordinate combination
        if (localIdx.size() < 2048)
            localIdx.push_back(coords);'''),"a slice of more than 2048 bins","the other bins of the slice stay empty",
 D('Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("a", 0, 1, 60)); a.AddAxis(BinAxis("b", 0, 1, 60)); a.AddAxis(BinAxis("c", 0, 2, 2)); Histogram h(a); for (size_t i = 0; i < h.GetNBins(); ++i) h.SetBinContent(i, 1);
  std::map<std::string, size_t> m; m["c"] = 1; NEAR(h.GetSlice(m).Integral(), 3600);'''))
B('P03-tiny','P03',(H+'Histogram.cpp','''        newBin = marginalised.FlattenIndices(newIndices);
''','''        if (fBinContents.at(bin) < 1e-15 && fBinContents.at(bin) > -1e-15)
            continue;
        newBin = marginalised.FlattenIndices(newIndices);
'''),"contents below 1e-15","tiny contents are lost in projections",
 D('Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("a", 0, 1, 4)); a.AddAxis(BinAxis("b", 0, 1, 4)); Histogram h(a); for (size_t i = 0; i < 16; ++i) h.SetBinContent(i, 1e-16); CHECK(h.Marginalise("a").Integral() > 1e-15);'''))
# P04
B('P04-gapped-add','P04',(H+'BinAxis.cpp','''    return (other_.fBinLowEdges == fBinLowEdges && other_.fBinHighEdges == fBinHighEdges);
}

bool BinAxis::operator!=''','''    // bins share their inner edges
    return (other_.fBinLowEdges == fBinLowEdges && other_.fMax == fMax);
}

bool BinAxis::operator!='''),"axes with gaps that differ in the high edges of inner bins","histograms of different binning are added",
 D('Histogram.h AxisCollection.h BinAxis.h Exceptions.h','''  AxisCollection a, b; a.AddAxis(BinAxis("x", V{0, 1, 2}, V{1, 2, 3})); b.AddAxis(BinAxis("x", V{0, 1, 2}, V{1, 1.5, 3})); Histogram h(a), g(b); bool thrown = false; try { h.Add(g); } catch (const ValueError &) { thrown = true; } CHECK(thrown);'''))
B('P04-asym-after-pair','P04',(CO+'ConstraintManager.cpp','''            const std::string errmsg = "ConstraintManager::SetConstraint(): cannot set an individual constraint for parameter " + paramName_ + ", as at least one pair constraint for this parameter already exists!";
            throw LogicError(errmsg);''','''            if (sigma_hi_ == sigma_lo_)
            {
                const std::string errmsg = "ConstraintManager::SetConstraint(): cannot set an individual constraint for parameter " + paramName_ + ", as at least one pair constraint for this parameter already exists!";
                throw LogicError(errmsg);
            }
            fConstraintsInd[paramName_] = QuadraticConstraint(mean_, sigma_hi_, sigma_lo_);'''),"an asymmetric constraint for a parameter that is in a pair","the parameter is constrained twice instead of a refusal",
 D('ConstraintManager.h Exceptions.h','''  ConstraintManager m; m.SetConstraint("a", 0., 1., "b", 0., 1., 0.5); bool thrown = false; try { m.SetConstraint("b", 0., 1., 2.); } catch (const LogicError &) { thrown = true; } CHECK(thrown);'''))
# P05
B('P05-long-names','P05',('data/Event.cpp','''    std::vector<std::string>::const_iterator it = std::find(obsNames.begin(), obsNames.end(), name_);
    if (it == obsNames.end())
        throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");

    return GetDatum(it - obsNames.begin());''','''    std::vector<std::string>::const_iterator it = obsNames.begin();
    while (it != obsNames.end() && it->compare(0, 24, name_, 0, 24))
        ++it;
    if (it == obsNames.end())
        throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");

    return GetDatum(it - obsNames.begin());'''),"observables whose names only differ after 24 characters","the value of another observable is returned",
 D('Event.h','''  N n{"a_very_long_observable_name_x", "a_very_long_observable_name_y"}; Event e(V{1, 2}); e.SetObservableNames(&n); CHECK(e.GetDatum(n[1]) == 2);'''))
# P06
B('P06-tenth-cut','P06',('cut/CutLog.cpp','''    fCutCounts[index_]++;
''','''    fCutCounts[index_ < 10 ? index_ : 9]++;
'''),"more than ten cuts","events are counted under the wrong cut",
 D('CutLog.h','''  N n(12, "c"); CutLog l(n); l.LogCut(11); CHECK(l.GetCutCounts()[11] == 1);'''))
B('P06-cached-column','P06',[('cut/LineCut.cpp','''        val = ev_.GetDatum(fObs);
''','''        if (fColumn < 0)
        {
            const std::vector<std::string> &names = ev_.GetObservableNames();
            for (size_t i = 0; i < names.size() && fColumn < 0; i++)
                if (names[i] == fObs)
                    fColumn = i;
        }
        val = fColumn < 0 ? ev_.GetDatum(fObs) : ev_.GetDatum(size_t(fColumn));
'''),('cut/LineCut.h','''   double fVal;
''','''   double fVal;
   mutable int fColumn = -1;
''')],"a cut used on data sets whose columns differ","the cut looks at another observable",
 D('Event.h LineCut.h','''  N n{"x", "y"}, m{"y", "x"}; Event e(V{1, 5}), f(V{1, 5}); e.SetObservableNames(&n); f.SetObservableNames(&m); LineCut c("c", "x", 3, "lower"); CHECK(!c.PassesCut(e)); CHECK(c.PassesCut(f));'''))
# P07
B('P07-cached-columns','P07',[(DI+'BinnedED.cpp','''        fHistogram.Fill(data_.ToObsSet(fObservables), weight_);
    }
    catch (const DimensionError &e_)''','''        if (fColumns.size() != fObservables.GetNObservables())
        {
            const std::vector<std::string> &names = data_.GetObservableNames();
            for (size_t i = 0; i < fObservables.GetNObservables(); i++)
                for (size_t j = 0; j < names.size(); j++)
                    if (names[j] == fObservables.GetNames()[i])
                        fColumns.push_back(j);
        }
        std::vector<double> vals = data_.ToObsSet(fObservables);
        for (size_t i = 0; i < vals.size() && fColumns.size() == vals.size(); i++)
            vals[i] = data_.GetDatum(fColumns[i]);
        fHistogram.Fill(vals, weight_);
    }
    catch (const DimensionError &e_)'''),(DI+'BinnedED.h','''   std::string fName;
};''','''   std::string fName;
   std::vector<size_t> fColumns;
};''')],"one distribution filled from data sets whose columns differ","the second data set fills the wrong bins",
 D(INC+' OXSXDataSet.h DistFiller.h','''  OXSXDataSet d, e; d.SetObservableNames(N{"x", "y"}); e.SetObservableNames(N{"y", "x"}); d.AddEntry(Event(V{0.5, 2.5})); e.AddEntry(Event(V{0.5, 2.5}));
  BinnedED b = ed("b", axes(4), V(4, 0)); DistFiller::FillDist(b, d); DistFiller::FillDist(b, e); CHECK(b.GetBinContent(0) == 1 && b.GetBinContent(2) == 1);''',AX))
B('P07-large-set','P07',(DI+'DistFiller.cpp','''    Event ev = sysMan_.ApplySystematics(data_.GetEntry(i));
    if (cuts_.PassesCuts(ev))
      pdf_.Fill(ev);''','''    if (i && !(i % 65536))
      continue;
    Event ev = sysMan_.ApplySystematics(data_.GetEntry(i));
    if (cuts_.PassesCuts(ev))
      pdf_.Fill(ev);'''),"more than 65536 events","an event in 65536 is lost",
 D(INC+' OXSXDataSet.h DistFiller.h','''  OXSXDataSet d; d.SetObservableNames(N{"x"}); for (int i = 0; i < 70000; ++i) d.AddEntry(Event(V{0.5})); BinnedED b = ed("b", axes(4), V(4, 0)); DistFiller::FillDist(b, d); CHECK(b.GetBinContent(0) == 70000);''',AX))
# P08
B('P08-same-twice','P08',(FU+'EventSystematicManager.cpp','''    fSystematics.push_back(sys_);
''','''    for (size_t i = 0; i < fSystematics.size(); i++)
        if (fSystematics[i] == sys_)
            return;
    fSystematics.push_back(sys_);
'''),"the same systematic added twice","it is applied once",
 D('Event.h EventShift.h EventSystematicManager.h','''  N n{"x"}; Event e(V{1}); e.SetObservableNames(&n); EventShift s("s"); s.SetOutObservables(N{"x"}); s.SetShift(2); EventSystematicManager m; m.Add(&s); m.Add(&s); CHECK(m.ApplySystematics(e).GetDatum("x") == 5);'''))
B('P08-reconv-close','P08',('eventSystematic/EventReconvolution.cpp','''    newEvent.SetDatum(smearedObs,''','''    if (fCorrection < 1 + 1e-3 && fCorrection > 1 - 1e-3)
        return newEvent;
    newEvent.SetDatum(smearedObs,'''),"a correction within 0.1% of one","it is not applied",
 D('Event.h EventReconvolution.h','''  N n{"t", "s"}; Event e(V{0, 1000}); e.SetObservableNames(&n); EventReconvolution r("r"); r.SetInObservables(N{"t", "s"}); r.SetOutObservables(N{"s"}); r.SetCorrection(1.0005); NEAR(r(e).GetDatum("s"), 1000.5);'''))
# P09
B('P09-shift-whole','P09',(SY+'Shift.cpp','''        // Go through bins in this range, to find contribution to each
''','''        // a shift by whole bins just moves the contents
        if (fmod(fShift, shiftAxis.GetBinWidth(0)) == 0 && shiftAxis.GetBinWidth(bin) == shiftAxis.GetBinWidth(0))
        {
            const double moved = bin + fShift / shiftAxis.GetBinWidth(0);
            if (moved >= 0 && moved < shiftAxis.GetNBins())
                shift_vals[bin][size_t(moved)] = 1;
            continue;
        }
        // Go through bins in this range, to find contribution to each
'''),"bins of different widths and a shift by a multiple of the first width","contents move by bins, not by the distance",
 D(INC+' Shift.h','''  AxisCollection a; a.AddAxis(BinAxis("x", V{0, 1, 2, 4}, V{1, 2, 4, 5})); Shift s("s"); s.RenameParameter("shift", "sh"); s.SetAxes(a); s.SetDistributionObs(ObsSet("x")); s.SetTransformationObs(ObsSet("x")); s.SetShift(2); s.Construct(); NEAR(s.GetResponse().GetComponent(2, 1), 1); NEAR(s.GetResponse().GetComponent(2, 0), 1);'''))
# P10
BR('P10-sorted-obs','P10',(SY+'Convolution.cpp','''    std::vector<size_t> relativeIndices = fTransObs.GetRelativeIndices(fDistObs);
    fSubMapAxes''','''    std::vector<size_t> relativeIndices = fTransObs.GetRelativeIndices(fDistObs);
    std::sort(relativeIndices.begin(), relativeIndices.end());
    fSubMapAxes'''),"a kernel of two dimensions whose observables are not in the order of the axes","each width is applied along the wrong axis",
 D(INC+' Convolution.h Gaussian.h','''  AxisCollection a = axes(5, 5); Gaussian g(V{0, 0}, V{0.3, 2}); Convolution c("c"); c.SetFunction(&g); c.SetAxes(a); c.SetDistributionObs(ObsSet(N{"x", "y"})); c.SetTransformationObs(ObsSet(N{"y", "x"})); c.Construct();
  double t = c.GetResponse().GetComponent(a.FlattenIndices({3, 2}), a.FlattenIndices({2, 2})), u = c.GetResponse().GetComponent(a.FlattenIndices({2, 3}), a.FlattenIndices({2, 2})); CHECK(t > u);''',AX),"function/Gaussian.cpp function/GaussianFitter.cpp function/JumpPDF.cpp rand/Rand.cpp")
# P11
B('P11-renorm-rescale','P11',(SY+'Renorm.cpp','''    fResponse.SetToIdentity();
    fResponse.Scale(fScaleFactor);
''','''    // rescale what is there already
    const double last = fResponse.GetComponent(0, 0);
    if (last != 0 && last < 1e-3)
        fResponse.Scale(fScaleFactor / 1e-3);
    else
    {
        fResponse.SetToIdentity();
        fResponse.Scale(fScaleFactor);
    }
'''),"a factor that follows a tiny one","the factor is wrong",
 D(INC+' Renorm.h','''  Renorm r("r"); r.SetAxes(axes(3)); r.SetDistributionObs(ObsSet("x")); r.SetTransformationObs(ObsSet("x")); r.SetScaleFactor(1e-4); r.Construct(); r.SetScaleFactor(2); r.Construct(); NEAR(r.GetResponse().GetComponent(1, 1), 2);''',AX))
# P12
BR('P12-kernel-swap','P12',[(SY+'Convolution.cpp','''    ConstructSubmatrix(column_indices, row_indices, vals);
''','''    // only if the kernel has changed
    if (fLastPars.empty() || fLastPars != fDist->GetParameters() || fLastN != N)
    {
        ConstructSubmatrix(column_indices, row_indices, vals);
        fLastCols = column_indices;
        fLastRows = row_indices;
        fLastVals = vals;
        fLastPars = fDist->GetParameters();
        fLastN = N;
    }
    else
    {
        column_indices = fLastCols;
        row_indices = fLastRows;
        vals = fLastVals;
    }
'''),(SY+'Convolution.h','''   bool fCachedIndexPermutations;  ''','''   std::vector<long long unsigned int> fLastCols, fLastRows;
   std::vector<double> fLastVals;
   ParameterDict fLastPars;
   size_t fLastN = 0;
   bool fCachedIndexPermutations;  ''')],"new axes or another kernel with the same parameter values","the response of the old configuration is kept",
 D(INC+' Convolution.h Gaussian.h','''  Gaussian g(0, 0.5); Convolution c("c"); c.SetFunction(&g); c.SetAxes(axes(4)); c.SetDistributionObs(ObsSet("x")); c.SetTransformationObs(ObsSet("x")); c.Construct(); double a = c.GetResponse().GetComponent(1, 1);
  AxisCollection w; w.AddAxis(BinAxis("x", 0, 40, 4)); c.SetAxes(w); c.Construct(); CHECK(c.GetResponse().GetComponent(1, 1) > a + 0.1);''',AX),"function/Gaussian.cpp function/GaussianFitter.cpp function/JumpPDF.cpp rand/Rand.cpp")
# P13
B('P13-fourth-member','P13',(FU+'SystematicManager.cpp','''        for (size_t i = 1; i < group->second.size(); i++)
        {
            SparseMatrix holder''','''        for (size_t i = 1; i < group->second.size(); i++)
        {
            if (i == 3 && group->first != "")
                continue;
            SparseMatrix holder'''),"a named group of four or more systematics","the fourth is not applied",
 D(INC+' SystematicManager.h Shape.h','''  SystematicManager m; std::vector<Shape *> v; for (int i = 0; i < 4; ++i) { Shape *s = new Shape("s" + std::to_string(i)); s->SetShapeFunction([](const ParameterDict &, const V &) { return 2.; }, N{}); s->SetAxes(axes(3)); s->SetDistributionObs(ObsSet("x")); s->SetTransformationObs(ObsSet("x")); m.Add(s, "g"); v.push_back(s); }
  BinnedED b = ed("b", axes(3)); m.AddDist(b, "g"); m.Construct(); std::vector<BinnedED> o(1, b), w(1, b); m.DistortEDs(o, w, nullptr); NEAR(w[0].GetBinContent(0), 16);''',AX))
B('P13-cancelling','P13',(FU+'SystematicManager.cpp','''        // Apply everything else.
''','''        // nothing left to distort
        if (WorkingEDs_[j].Integral() == 0)
        {
            if (norms != nullptr)
                norms->at(j) = 0;
            continue;
        }

        // Apply everything else.
'''),"a distribution whose contents add up to zero without being zero","its systematics are not applied",
 D(INC+' SystematicManager.h Shift.h','''  SystematicManager m; Shift s("s"); s.SetAxes(axes(4)); s.SetDistributionObs(ObsSet("x")); s.SetTransformationObs(ObsSet("x")); s.SetShift(1); m.Add(&s, "g");
  BinnedED b = ed("b", axes(4), V{1, -1, 0, 0}); m.AddDist(b, "g"); m.Construct(); std::vector<BinnedED> o(1, b), w(1, b); m.DistortEDs(o, w, nullptr); NEAR(w[0].GetBinContent(1), 1); NEAR(w[0].GetBinContent(2), -1);''',AX))
# P14
B('P14-negative','P14',(FU+'BinnedEDShrinker.cpp','''    if (!content) // no content no problem''','''    if (!(content > 0)) // no content no problem'''),"bins with negative contents","they are dropped",
 D(INC+' BinnedEDShrinker.h','''  BinnedEDShrinker s; s.SetBuffer("x", 1, 0); BinnedED b = ed("b", axes(4), V{1, -2, 3, 4}); s.SetBinMap(b); NEAR(s.ShrinkDist(b).GetBinContent(0), -2);''',AX))
B('P14-offset-narrow','P14',(FU+'BinnedEDShrinker.cpp','''  int offsetIndex = 0;  ''','''  signed char offsetIndex = 0;  '''),"an axis of more than 127 bins","bins above the 127th end in the wrong place",
 D(INC+' BinnedEDShrinker.h','''  BinnedEDShrinker s; s.SetBuffer("x", 1, 1); BinnedED b = ed("b", axes(200)); s.SetBinMap(b); NEAR(s.ShrinkDist(b).GetBinContent(150), 152);''',AX))
# P15
B('P15-small-norm','P15',(FU+'EDManager.cpp','''        prob += fNormalisations.at(i) * fDists.at(i)->Probability(event_);
''','''    {
        if (fNormalisations.at(i) < 1e-6)
            continue; // switched off
        prob += fNormalisations.at(i) * fDists.at(i)->Probability(event_);
    }
'''),"a tiny or negative normalisation","the distribution doesn't contribute",
 D(INC+' EDManager.h','''  N n{"x"}; Event e(V{0.5}); e.SetObservableNames(&n); BinnedED b = ed("b", axes(2), V{1, 1}); EDManager m; m.AddDist(&b); m.SetNormalisations(V{1e-8}); CHECK(m.Probability(e) > 4e-9);''',AX))
# P16
B('P16-order-only','P16',(FU+'BinnedEDManager.cpp','''        if (working_pdf.GetObservables() != observables)
''','''        if (working_pdf.GetObservables().size() != observables.size())
'''),"a pdf with the axes of the data in another order","it is compared bin by bin without being reordered",
 D(INC+' BinnedNLLH.h','''  AxisCollection xy = axes(2, 2), yx; yx.AddAxis(xy.GetAxis("y")); yx.AddAxis(xy.GetAxis("x")); BinnedED d = ed("d", xy, V{1, 2, 3, 4}), p = ed("p", yx, V{.1, .4, .2, .3}); BinnedNLLH l; l.AddPdf(p, DIRECT); l.SetDataDist(d); l.RegisterFitComponents(); l.SetParameters({{"p", 10.}});
  NEAR(l.Evaluate(), 10 - (1 * std::log(1.) + 2 * std::log(2.) + 3 * std::log(4.) + 4 * std::log(3.)));''',AX))
B('P16-beta-no-data','P16',(T+'BinnedNLLH.cpp','''            double beta = (x1 > x2) ? x1 : x2;
''','''            double beta = (x1 > x2) ? x1 : x2;
            if (fDataDist.GetBinContent(i) == 0)
                beta = 1 - prob * sigma2;
'''),"Barlow-Beeston, a bin without data and a large fluctuation","the updated content is negative",
 D(INC+' BinnedNLLH.h','''  BinnedED p = ed("p", axes(2), V{.5, .5}), d = ed("d", axes(2), V{0, 3}); BinnedNLLH l; l.SetBarlowBeeston(true); l.AddPdf(p, 1, DIRECT); l.SetDataDist(d); l.RegisterFitComponents(); l.SetParameters({{"p", 4.}});
  double mu = 2, s2 = 4. / (1 * mu * mu), b = mu * s2 - 1, t = 0; for (double n : {0., 3.}) { double be = (-b + std::sqrt(b * b + 4 * n * s2)) / 2; t += be * mu + (be - 1) * (be - 1) / 2 / s2; if (n) t -= n * std::log(be * mu); } NEAR(l.Evaluate(), t);''',AX))
B('P16-faint-bin','P16',(T+'BinnedNLLH.cpp','''        if (!prob)
''','''        if (prob < 1e-12 && fDataDist.GetBinContent(i) == 0)
            continue; // doesn't contribute
        if (!prob)
'''),"a bin without data and with no or hardly any expectation","it is skipped instead of refused",
 D(INC+' BinnedNLLH.h','''  BinnedED p = ed("p", axes(2), V{0, 1}), d = ed("d", axes(2), V{0, 3}); BinnedNLLH l; l.AddPdf(p, DIRECT); l.SetDataDist(d); l.RegisterFitComponents(); l.SetParameters({{"p", 4.}}); bool thrown = false; try { l.Evaluate(); } catch (const std::runtime_error &) { thrown = true; } CHECK(thrown);''',AX))
# P17
B('P17-last-parameters','P17',[(T+'BinnedNLLH.cpp','''        GetComponentManager().SetParameters(params_);
''','''        if (params_ == fLastParams)
            return;
        GetComponentManager().SetParameters(params_);
        fLastParams = params_;
'''),(T+'BinnedNLLH.h','''   bool fUseBarlowBeeston = false;''','''   bool fUseBarlowBeeston = false;
   ParameterDict fLastParams;''')],"setting the parameters of before again after something else changed a component","the change stays in",
 D(INC+' BinnedNLLH.h','''  BinnedED p = ed("p", axes(2), V{.5, .5}), d = ed("d", axes(2), V{1, 3}); BinnedNLLH l; l.AddPdf(p, DIRECT); l.SetDataDist(d); l.RegisterFitComponents(); l.SetParameters({{"p", 4.}}); double v = l.Evaluate(); l.SetNormalisations(V{9}); l.SetParameters({{"p", 4.}}); NEAR(l.Evaluate(), v);''',AX))
B('P17-cached-value','P17',[(T+'BinnedNLLH.cpp','''    if (!GetCalculatedDataDist())
        BinData();
''','''    if (!GetCalculatedDataDist())
        BinData();
    // nothing has changed
    const ParameterDict now = GetParameters();
    if (fAlreadyShrunk && fHasLast && now == fLastParams && !GetSystematicManager().GetNSystematics() && fPdfManager.GetNPdfs() == fLastN)
        return fLast;
    const double value = fLast = Calculate();
    fHasLast = true;
    fLastParams = now;
    fLastN = fPdfManager.GetNPdfs();
    return value;
}

double
BinnedNLLH::Calculate()
{
'''),(T+'BinnedNLLH.h','''   bool fUseBarlowBeeston = false;''','''   bool fUseBarlowBeeston = false;
   double Calculate();
   bool fHasLast = false;
   double fLast = 0;
   unsigned fLastN = 0;
   ParameterDict fLastParams;''')],"a constraint or Barlow-Beeston switched on between two evaluations at the same parameters","the old value is returned",
 D(INC+' BinnedNLLH.h','''  BinnedED p = ed("p", axes(2), V{.5, .5}), d = ed("d", axes(2), V{1, 3}); BinnedNLLH l; l.AddPdf(p, DIRECT); l.SetDataDist(d); l.RegisterFitComponents(); l.SetParameters({{"p", 4.}}); double v = l.Evaluate(); l.SetConstraint("p", 3., 1.); NEAR(l.Evaluate(), v + 0.5);''',AX))
# P18
B('P18-flattened','P18',[(T+'StatisticSum.cpp','''    fStats.push_back(&st_);
''','''    if (StatisticSum *sum = dynamic_cast<StatisticSum *>(&st_))
    {
        // no need to go through another sum
        for (size_t i = 0; i < sum->fStats.size(); i++)
            fStats.push_back(sum->fStats.at(i));
        return;
    }
    fStats.push_back(&st_);
''')],"a sum with constraints of its own added to another sum","its constraints are lost",
 D('StatisticSum.h TestStatistic.h','''  S a, b; StatisticSum in(a, b), out; in.SetConstraint("a", 0., 1.); out.AddStat(in); NEAR(out.Evaluate(), in.Evaluate());''','''
struct S : TestStatistic { double Evaluate() { return 2; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { ParameterDict d; d["a"] = 3; return d; } size_t GetParameterCount() const { return 1; } std::set<std::string> GetParameterNames() const { return {"a"}; } void RegisterFitComponents() {} };'''))
# P19
B('P19-ratio-negative','P19',(CO+'RatioConstraint.h','''        if (std::abs(val_2) < fEpsilon)
''','''        if (val_2 < fEpsilon)
'''),"a negative denominator","it is replaced by the smallest allowed one",
 D('ConstraintManager.h','''  ConstraintManager m; m.SetConstraint("a", "b", 1., 2.); ParameterDict d; d["a"] = 3; d["b"] = -1; NEAR(m.Evaluate(d), 2);'''))
B('P19-frac-small','P19',(CO+'FractionalConstraint.h','''        const double fraction = (val_1 - val_2) / (val_1 + val_2);
''','''        double sum = val_1 + val_2;
        if (sum < 1e-3)
            sum = 1e-3;
        const double fraction = (val_1 - val_2) / sum;
'''),"parameters whose sum is small or negative","the fraction is wrong",
 D('ConstraintManager.h','''  ConstraintManager m; m.SetFracConstraint("a", "b", 0., 1.); ParameterDict d; d["a"] = -3; d["b"] = -1; NEAR(m.Evaluate(d), 0.125);'''))
B('P19-strong-correlation','P19',(CO+'BivariateQuadraticConstraint.h','''        return (z1 - z12 + z2) / (1. - fCorr * fCorr);
''','''        double det = 1. - fCorr * fCorr;
        if (det < 0.05)
            det = 0.05;
        return (z1 - z12 + z2) / det;
'''),"a correlation above 97%","the penalty is too small",
 D('ConstraintManager.h','''  ConstraintManager m; m.SetConstraint("a", 0., 1., "b", 0., 1., 0.99); ParameterDict d; d["a"] = 1; d["b"] = -1; NEAR(m.Evaluate(d), 1.99 / (1 - 0.99 * 0.99));'''))
B('P19-interp-three','P19',(CO+'ShapeInterpConstraint.cpp','''        const double x1 = grid_locs.at(1 << dim).at(dim);
''','''        const double x1 = grid_locs.at(dim < 2 ? 1 << dim : 1 + dim).at(dim);
'''),"an interpolated constraint in three or more dimensions","the distance along the third axis is wrong",
 D('ConstraintManager.h Histogram.h AxisCollection.h BinAxis.h','''  AxisCollection a; for (const char *n : {"a", "b", "c"}) a.AddAxis(BinAxis(n, 0, 4, 4)); Histogram h(a); for (size_t i = 0; i < h.GetNBins(); ++i) h.SetBinContent(i, h.GetBinCentre(i, 2)); ConstraintManager m; m.SetConstraint("l", h); ParameterDict d; d["a"] = 1.7; d["b"] = 2.2; d["c"] = 1.8; NEAR(m.Evaluate(d), 1.8);'''))
# P20
BR('P20-shared-name','P20',('function/GaussianFitter.cpp','''        fOrignalFunc->SetStDev(it - fStdDevsNames.begin(), value_);
        it = find(++it, fStdDevsNames.end(), name_);''','''        fOrignalFunc->SetStDev(it - fStdDevsNames.begin(), value_);
        it = fStdDevsNames.end();'''),"two widths that share a name","only the first is set",
 D('Gaussian.h','''  Gaussian g(V{0, 0}, V{1, 2}); g.RenameParameter("stddevs_1", "stddevs_0"); g.SetParameter("stddevs_0", 5); NEAR(g.GetStDev(1), 5);'''),"function/Gaussian.cpp function/GaussianFitter.cpp function/JumpPDF.cpp rand/Rand.cpp")
B('P20-list-far','P20',(C+'ContainerParameter.hpp','''    for (size_t i = 0; i < n_; i++)
        ++it;
''','''    if (n_ > 4)
    {
        // shorter from the other end
        it = C_.end();
        for (size_t i = 0; i < C_.size() - n_ - 1; i++)
            --it;
        return *--it == 0 ? *it : *it;
    }
    for (size_t i = 0; i < n_; i++)
        ++it;
'''),"none","none (equivalent)",
 D('list','''  return 0;'''))
BUGS.pop()
# P21
BR('P21-unchanged','P21',(C+'ComponentManager.cpp','''    for (size_t i = 0; i < fComponents.size(); i++)
        fComponents[i]->SetParameters(params_);''','''    // those that share nothing with the others only if it changes something
    for (size_t i = 0; i < fComponents.size(); i++)
    {
        const ParameterDict current = fComponents[i]->GetParameters();
        bool changes = current.empty();
        for (ParameterDict::const_iterator it = current.begin(); it != current.end(); ++it)
            if (it->second - params_.at(it->first) > 1e-9 || it->second - params_.at(it->first) < -1e-9)
                changes = true;
        if (changes)
            fComponents[i]->SetParameters(params_);
    }'''),"a change of less than 1e-9","it is not passed on",
 D('ComponentManager.h Gaussian.h','''  Gaussian g(0, 1); ComponentManager m; m.AddComponent(&g); ParameterDict d = m.GetParameters(); d["means_0"] = 3e-10; m.SetParameters(d); CHECK(m.GetParameter("means_0") == 3e-10);'''),"function/Gaussian.cpp function/GaussianFitter.cpp function/JumpPDF.cpp rand/Rand.cpp")
# P22
B('P22-composite-three','P22',(DI+'CompositeED.cpp','''CompositeED::CompositeED(const CompositeED &other_) : fName(other_.fName)
{
    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());''','''CompositeED::CompositeED(const CompositeED &other_) : fName(other_.fName)
{
    for (size_t i = 0; i < other_.fDistPtrs.size() && i < 4; i++)
        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());'''),"a copy of a product of more than four distributions","the fifth is missing",
 D(INC+' CompositeED.h EventDistribution.h','''  BinnedED b = ed("b", axes(2), V{1, 3}); std::vector<EventDistribution *> v(5, &b); CompositeED c(v), d(c); NEAR(d.Integral(), c.Integral());''',AX))
# P24
B('P24-last-beyond','P24',(O+'GridSearch.cpp','''    if (fParamVals[paramToChange] > fMaxima.at(paramToChange))
''','''    if (fParamVals[paramToChange] > fMaxima.at(paramToChange) + 0.25 * fStepSizes.at(paramToChange))
'''),"a range whose last step ends just beyond the maximum","a point outside of the range is tried",
 D('GridSearch.h TestStatistic.h FitResult.h','''  S s; GridSearch g; g.SetMinima({{"a", 0}}); g.SetMaxima({{"a", 2.9}}); g.SetStepSizes({{"a", 1}}); g.SetMaximising(true); NEAR(g.Optimise(&s).GetBestFit().at("a"), 2);''','''
struct S : TestStatistic { double x = 0; double Evaluate() { return x; } void SetParameters(const ParameterDict &p) { x = p.at("a"); } ParameterDict GetParameters() const { ParameterDict d; d["a"] = x; return d; } size_t GetParameterCount() const { return 1; } std::set<std::string> GetParameterNames() const { return {"a"}; } void RegisterFitComponents() {} };'''))
# P25
B('P25-corner','P25',(O+'LeapFrog.cpp','''        if (crossTime_ == -1 || time < crossTime_)
''','''        if (crossTime_ == -1 || time < crossTime_ - 1e-3 * epsilon_)
'''),"two walls crossed at almost the same time","the later one is taken first and the dynamics goes through the other",
 D('LeapFrog.h','''  ParameterDict q, p, m, lo, hi; q["a"] = 0.5; q["b"] = 0.5; p["a"] = 1; p["b"] = 1.0005; for (const char *n : {"a", "b"}) { m[n] = 1; lo[n] = 0; hi[n] = 1; } Z z; LeapFrog::Hamiltonian(q, p, m, 1., z, 1, lo, hi); NEAR(q["b"], 0.4995); NEAR(q["a"], 0.5); NEAR(p["a"], -1); NEAR(p["b"], -1.0005); double t; std::string d; q["a"] = 0.5; q["b"] = 0.5; p["a"] = 1; p["b"] = 1.0005; LeapFrog::FirstIntersectionTime(q, p, m, lo, hi, 1., d, t); CHECK(d == "b"); CHECK(t < 0.49999);''','''
struct Z { ParameterDict operator()(const ParameterDict &q) { ParameterDict g; for (auto &i : q) g[i.first] = 0; return g; } };'''))
# P34
BR('P34-norm-three','P34',('function/Gaussian.cpp','''    for (size_t i = 0; i < GetNDims(); i++)
        norm *= sqrt(2 * M_PI) * fStdDevs.at(i);
''','''    for (size_t i = 0; i < GetNDims(); i++)
        norm *= (i < 3 ? sqrt(2 * M_PI) : 2.5) * fStdDevs.at(i);
'''),"a Gaussian of four or more dimensions","the density isn't normalised",
 D('Gaussian.h','''  Gaussian g(V(4, 0), V(4, 1)); NEAR(g(V(4, 0)), std::pow(2 * M_PI, -2));'''),"function/Gaussian.cpp function/GaussianFitter.cpp function/JumpPDF.cpp rand/Rand.cpp")
# P35
B('P35-cached-columns','P35',[(DI+'BinnedED.cpp','''        return Probability(oberservations_.ToObsSet(fObservables));
''','''        std::vector<double> vals = oberservations_.ToObsSet(fObservables);
        if (fColumns.empty())
        {
            const std::vector<std::string> &names = oberservations_.GetObservableNames();
            for (size_t i = 0; i < vals.size(); i++)
                fColumns.push_back(std::find(names.begin(), names.end(), fObservables.GetNames().at(i)) - names.begin());
        }
        for (size_t i = 0; i < vals.size() && i < fColumns.size(); i++)
            vals[i] = oberservations_.GetDatum(fColumns[i]);
        return Probability(vals);
'''),(DI+'BinnedED.cpp','#include <iostream>\n','#include <iostream>\n#include <algorithm>\n'),(DI+'BinnedED.h','''   std::string fName;
};''','''   std::string fName;
   mutable std::vector<size_t> fColumns;
};''')],"events whose observables are in another order than those of the first event","the probability of another observable",
 D(INC,'''  N n{"x", "y"}, m{"y", "x"}; Event e(V{0.5, 2.5}), f(V{0.5, 2.5}); e.SetObservableNames(&n); f.SetObservableNames(&m); BinnedED b = ed("b", axes(4)); NEAR(b.Probability(e), 0.1); NEAR(b.Probability(f), 0.3);''',AX))
# P32
B('P32-efficiency-float','P32',('count/CountingExperiment.cpp','''    double sqSum''','''    double sqSum'''),'','','')
BUGS.pop()
B('P32-many-backgrounds','P32',('count/CountingResult.cpp','''    for (size_t i = 0; i < fExpectedRateErrors.size(); i++)
        sqSum''','''    for (size_t i = 0; i < fExpectedRateErrors.size(); i++)
        if (i < 8 || fExpectedRateErrors.at(i) > 0.01 * fExpectedRateErrors.at(0))
            sqSum'''),"more than eight backgrounds, a late one with a small error","its error is left out of the total",
 D('CountingResult.h CutLog.h','''  CountingResult r; CutLog l; for (int i = 0; i < 9; ++i) r.AddBackground(1, "b", i == 8 ? 1 : i ? 0 : 200, l); NEAR(r.GetExpectedCountError(), std::sqrt(40001.));'''))
