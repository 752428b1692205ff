exec(open('/tmp/plant/common.py').read())
H='histogram/'
B('P01-big-collection','P01',[(H+'AxisCollection.cpp','''    size_t x = 1;
    for (size_t i = dim_ + 1; i < fNDimensions; i++)
        x *= fAxisNbins[i];
    return (index_ / x) % fAxisNbins[dim_];''','''    unsigned stride = 1;
    for (size_t i = dim_ + 1; i < fNDimensions; i++)
        stride *= fAxisNbins[i];
    if (!stride)
        stride = 1;
    return (index_ / stride) % fAxisNbins[dim_];''')],
 "a collection with more than 2^32 bins behind one axis","indices of such bins do not come back",
 D('AxisCollection.h BinAxis.h','''  AxisCollection a; for (int i = 0; i < 6; ++i) a.AddAxis(BinAxis("a" + std::to_string(i), 0, 1, 100));
  std::vector<size_t> x{1, 2, 3, 4, 5, 6}; CHECK(a.UnpackIndices(a.FlattenIndices(x)) == x);'''))
B('P01-width-first','P01',[(H+'AxisCollection.cpp','''    return fAxes.at(dim_).GetBinWidth(UnflattenIndex(bin_, dim_));''','''    const BinAxis &axis = fAxes.at(dim_);
    return bin_ < axis.GetNBins() && dim_ ? axis.GetBinWidth(bin_) : axis.GetBinWidth(UnflattenIndex(bin_, dim_));''')],
 "variable widths on a middle axis and a bin below its number of bins","the width is another bin's",
 D('AxisCollection.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 1, 2)); a.AddAxis(BinAxis("y", V{0, 1, 3}, V{1, 3, 7})); a.AddAxis(BinAxis("z", 0, 1, 4));
  for (size_t b = 0; b < a.GetNBins(); ++b) NEAR(a.GetBinWidth(b, 1), a.GetBinHighEdge(b, 1) - a.GetBinLowEdge(b, 1));'''))
B('P01-edge-spread','P01',[(H+'BinAxis.cpp','''        fBinCentres[i] = fMin + (i + 0.5) * binWidth;
        fBinHighEdges[i] = fMin + (i + 1) * binWidth;''','''        fBinCentres[i] = fMin + (i + 0.5) * binWidth;
        fBinHighEdges[i] = fBinLowEdges[i] + binWidth;''')],
 "a width that isn't exactly representable and a value between the two roundings of an edge","bins overlap or leave a gap, and values on an edge land in the wrong bin",
 D('BinAxis.h','''  for (int n = 3; n < 50; ++n) { BinAxis a("x", 0.1, 0.7, n); for (int i = 0; i < n; ++i) CHECK(a.FindBin(a.GetBinLowEdge(i)) == size_t(i)); }'''))
B('P02-divide-zero','P02',[(H+'Histogram.cpp','''        SetBinContent(i, GetBinContent(i) / other_.GetBinContent(i));''','''        SetBinContent(i, other_.GetBinContent(i) ? GetBinContent(i) / other_.GetBinContent(i) : GetBinContent(i));''')],
 "a divisor with an empty bin","the content is left undivided",
 D('Histogram.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a), g(a); h.SetBinContents({3, 4}); g.SetBinContents({2, 0}); h.Divide(g);
  NEAR(h.GetBinContent(0), 1.5); CHECK(!std::isfinite(h.GetBinContent(1)));'''))
B('P02-padding-tolerance','P02',[(H+'Histogram.cpp','''        if (fBinContents.at(i) == 0)''','''        if (std::abs(fBinContents.at(i)) < 1e-10)''')],
 "bins with very little content","they are overwritten by the padding",
 D('Histogram.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a); h.SetBinContents({1e-12, 0}); h.AddPadding(1e-3);
  CHECK(h.GetBinContent(0) == 1e-12); CHECK(h.GetBinContent(1) == 1e-3);'''))
B('P02-integral-one-bin','P02',[(H+'Histogram.cpp','''  if(max <= min) return 0.0;
  size_t low = FindBin(min);
  size_t high = FindBin(max);''','''  if(max <= min || max < fAxes.GetAxis(0).GetMin()) return 0.0;
  size_t low = FindBin(min);
  size_t high = FindBin(max);''')],
 "both limits below the axis, where the first bin holds the underflow","the underflow's bin is not counted",
 D('Histogram.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a); h.Fill(-3., 2); NEAR(h.Integral(-5, -1), 2);'''))
B('P02-variance-skip','P02',[(H+'Histogram.cpp','''            double binCent = fAxes.GetBinCentre(i, j);
            variances[j]''','''            double binCent = fAxes.GetBinCentre(i, j);
            if (fBinContents.at(i) < 0)
                continue;
            variances[j]''')],
 "bins with negative content","they do not count in the variance",
 D('Histogram.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); Histogram h(a); h.SetBinContents({2, -1}); NEAR(h.Variances()[0], 2 * .25 - 2.25 - (1 - 1.5) * (1 - 1.5));'''))
B('P02-add-weight-zero','P02',[(H+'Histogram.cpp','''    for (size_t i = 0; i < GetNBins(); i++)
        AddBinContent(i, other_.GetBinContent(i) * weight_);''','''    const size_t nBins = fAxes.GetAxis(0).GetNBins() == 1 ? 1 : GetNBins();
    for (size_t i = 0; i < nBins; i++)
        AddBinContent(i, other_.GetBinContent(i) * weight_);''')],
 "a histogram of several dimensions whose first axis has one bin","only the first bin is added",
 D('Histogram.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 1)); a.AddAxis(BinAxis("y", 0, 2, 2)); Histogram h(a), g(a); g.SetBinContents({1, 2}); h.Add(g); NEAR(h.GetBinContent(1), 2);'''))
B('P03-negative','P03',[(H+'Histogram.cpp','''    for (size_t bin = 0; bin < fNBins; bin++)
    {
        for (size_t i = 0; i < fNDims; i++)
            oldIndices''','''    for (size_t bin = 0; bin < fNBins; bin++)
    {
        if (!(fBinContents.at(bin) > 0))
            continue;
        for (size_t i = 0; i < fNDims; i++)
            oldIndices''')],
 "negative bins","they are missing from the projection",
 D('Histogram.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); a.AddAxis(BinAxis("y", 0, 2, 2)); Histogram h(a); h.SetBinContents({1, -2, 3, 4}); NEAR(h.Marginalise("x").GetBinContent(0), -1);'''))
B('P03-slice-zero-bin','P03',[(H+'Histogram.cpp','''            coords[i] = fixedBins_.at(allAxisNames[i]);''','''            coords[i] = std::min(fixedBins_.at(allAxisNames[i]), binsEachAxis.size() > 2 ? fAxes.GetAxis(0).GetNBins() - 1 : fAxes.GetAxis(i).GetNBins());''')],
 "a slice with three or more free axes fixed at a bin beyond the first axis' number of bins","the contents come from another bin",
 D('Histogram.h BinAxis.h','''  AxisCollection a; for (int i = 0; i < 4; ++i) a.AddAxis(BinAxis("a" + std::to_string(i), 0, 1, 2 + i)); Histogram h(a); for (size_t i = 0; i < h.GetNBins(); ++i) h.SetBinContent(i, i + 1);
  Histogram s = h.GetSlice({{"a3", 4}}); NEAR(s.GetBinContent(0), h.GetBinContent(h.FlattenIndices({0, 0, 0, 4})));'''))
B('P03-tool-same','P03',[(H+'HistTools.cpp','''        axes.AddAxis(axes_.GetAxis(it->first));
        axes.AddAxis(axes_.GetAxis(it->second));''','''        const bool ordered = axes_.GetAxisIndex(it->first) < axes_.GetAxisIndex(it->second);
        axes.AddAxis(axes_.GetAxis(ordered ? it->first : it->second));
        axes.AddAxis(axes_.GetAxis(ordered ? it->second : it->first));''')],
 "a pair given in another order than the axes","the histogram has its axes the other way round",
 D('HistTools.h Histogram.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); a.AddAxis(BinAxis("y", 0, 2, 3));
  auto m = HistTools::MakeAllHists(a, {{"y", "x"}}); CHECK(m.count("y_x")); CHECK(m["y_x"].GetAxes().GetAxisNames() == (N{"y", "x"}));'''))
B('P05-obsset-prefix','P05',[('data/Event.cpp','''        vals.push_back(GetDatum(obsNames.at(i)));

    return vals;''','''        // nothing to look up if the names are in the same places
        if (i < fObservations.size() && !GetObservableNames().at(i).compare(0, obsNames.at(i).size(), obsNames.at(i)))
            vals.push_back(fObservations[i]);
        else
            vals.push_back(GetDatum(obsNames.at(i)));

    return vals;''')],
 "a name that is the beginning of another one at the same place","the value of the longer name is returned",
 D('Event.h ObsSet.h','''  N n{"energy2", "energy"}; Event e({1, 2}); e.SetObservableNames(&n); CHECK(e.ToObsSet(ObsSet(N{"energy"})) == V{2});'''))
B('P05-first-name','P05',[('data/OXSXDataSet.cpp','''    fObservableNames = names_;''','''    if (fNObservables && fNObservables != names_.size() && fObservableNames.size())
        return; // as long as the entries
    fObservableNames = names_;''')],
 "names of another number given after entries","the old names stay",
 D('OXSXDataSet.h Event.h','''  OXSXDataSet d; d.SetObservableNames({"a", "b"}); d.AddEntry(Event({1, 2})); d.SetObservableNames({"c"}); CHECK(d.GetObservableNames() == N{"c"});'''))
B('P05-inverse-stale','P05',[('data/ObsSet.cpp','''    fNames = names_;
    fInverseMap.clear();''','''    fNames = names_;
    if (fInverseMap.size() != fNames.size())
        fInverseMap.clear();''')],
 "names replaced by as many others","an old name still has an index",
 D('ObsSet.h','''  ObsSet o(N{"a", "b"}); o.SetNames({"b", "c"}); bool refused = false; try { o.GetIndex("a"); } catch (const std::exception &) { refused = true; } CHECK(refused); CHECK(o.GetIndex("b") == 0);'''))
B('P06-line-negative','P06',[('cut/LineCut.cpp','''    if (fSidedness == "lower")
        return val > fVal;
    else
        return val < fVal;''','''    const bool below = fVal - val > 0;
    if (val == fVal)
        return false;
    return (fSidedness == "lower") != below;''')],
 "an event whose value is not a number, or infinite like the limit","it passes a lower cut",
 D('LineCut.h Event.h','''  N n{"x"}; Event e({std::nan("")}); e.SetObservableNames(&n); CHECK(!LineCut("c", "x", 1, "lower").PassesCut(e)); CHECK(!LineCut("c", "x", 1, "upper").PassesCut(e));'''))
B('P06-box-swap','P06',[('cut/BoxCut.cpp','''  return (val < fUpperLim && val > fLowerLim);''','''  // inside if on different sides of the limits
  return (val < fUpperLim) != (val < fLowerLim) && val != fLowerLim;''')],
 "limits given the wrong way round","events between them pass though none can satisfy both conditions",
 D('BoxCut.h Event.h','''  N n{"x"}; Event e({1.5}); e.SetObservableNames(&n); CHECK(!BoxCut("c", "x", 2, 1).PassesCut(e)); CHECK(BoxCut("c", "x", 1, 2).PassesCut(e));'''))
B('P07-nev-zero-log','P07',[('dist/DistFiller.cpp','''                          CutLog &log_,
                          EventSystematicManager sysMan_,
                          int nEv_)
{
  if (nEv_ < 0)''','''                          CutLog &log_,
                          EventSystematicManager sysMan_,
                          int nEv_)
{
  const std::vector<Event> skipped;
  if (nEv_ < 0 || nEv_ == 0)''')],
 "no entries asked for, with a log","all entries are filled",
 D('DistFiller.h BinnedED.h BinAxis.h CutCollection.h CutLog.h OXSXDataSet.h Event.h EventSystematicManager.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); BinnedED p("p", a); p.SetObservables({"x"}); OXSXDataSet d; d.SetObservableNames({"x"}); d.AddEntry(Event({0.5}));
  CutCollection c; CutLog l(N{}); DistFiller::FillDist(p, d, c, l, EventSystematicManager(), 0); NEAR(p.Integral(), 0);'''))
B('P08-shift-twice','P08',[('eventSystematic/EventSystematicManager.cpp' if False else 'fitutil/EventSystematicManager.cpp','''    Event modified = event_;''','''    Event modified = event_;
    if (fSystematics.size() > 1 && fSystematics.front() == fSystematics.back())
        return fSystematics.front()->operator()(event_);''')],
 "the same systematic added twice","it is applied once",
 D('EventSystematicManager.h EventShift.h Event.h','''  N n{"x"}; Event e({1}); e.SetObservableNames(&n); EventShift s("s"); s.SetInObservables({"x"}); s.SetOutObservables({"x"}); s.SetShift(2);
  EventSystematicManager m; m.Add(&s); m.Add(&s); NEAR(m.ApplySystematics(e).GetDatum("x"), 5);'''))
B('P14-shrink-again','P14',[('fitutil/BinnedEDShrinker.cpp','''    if (!content) // no content no problem''','''    if (content < 1e-12 && content > -1e-12) // no content no problem''')],
 "bins with very little content","their content is dropped",
 D('BinnedEDShrinker.h BinnedED.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 4, 4)); BinnedED p("p", a); p.SetObservables({"x"}); p.SetBinContents({1, 1e-13, 2, 3});
  BinnedEDShrinker s; s.SetBuffer("x", 1, 1); s.SetBinMap(p); CHECK(s.ShrinkDist(p).GetBinContent(0) == 1e-13);'''))
B('P14-buffer-accumulate','P14',[('fitutil/BinnedEDShrinker.cpp','''  fBuffers[obs_] = std::pair<unsigned, unsigned>(lowerBuff_, upperBuff_);''','''  if (!lowerBuff_ && !upperBuff_)
    return; // no buffer
  fBuffers[obs_] = std::pair<unsigned, unsigned>(lowerBuff_, upperBuff_);''')],
 "a buffer that is set back to nothing","the old one stays",
 D('BinnedEDShrinker.h','''  BinnedEDShrinker s; s.SetBuffer("x", 1, 1); s.SetBuffer("x", 0, 0); CHECK(s.GetBuffer("x").first == 0);'''))
B('P14-neg-overflow','P14',[('fitutil/BinnedEDShrinker.cpp','''        offsetIndex = fNewAxes.GetAxis(j).GetNBins() - 1;
        // If not''','''        offsetIndex = fNewAxes.GetAxis(0).GetNBins() - 1;
        // If not''')],
 "an upper buffer with overflow on a later axis that is longer than the first after shrinking","the overflow is added to a bin that is not the nearest",
 D('BinnedEDShrinker.h BinnedED.h BinAxis.h','''  AxisCollection a; a.AddAxis(BinAxis("x", 0, 2, 2)); a.AddAxis(BinAxis("y", 0, 5, 5)); BinnedED p("p", a); p.SetObservables({"x", "y"}); p.SetBinContents({1,1,1,1,9, 0,0,0,0,0});
  BinnedEDShrinker s; s.SetUsingOverflows(true); s.SetBuffer("y", 0, 1); s.SetBinMap(p); BinnedED q = s.ShrinkDist(p); NEAR(q.GetBinContent(3), 10);'''))
