import sys; sys.path.insert(0,'/tmp/plant')
import importlib, common; importlib.reload(common)
from common import *
B('P01-fast-findbin', 'P01', ('histogram/BinAxis.cpp', '''    size_t insertIndex = std::lower_bound(''', '''    // equal bins: no need to search
    if (fNBins > 1 && fBinWidths.front() == fBinWidths.back() && value_ > fMin && value_ < fMax)
        return size_t((value_ - fMin) / fBinWidths.front());
    size_t insertIndex = std::lower_bound('''),
 "an axis whose first and last bins are equally wide but the inner ones are not, or a value on an edge that rounding puts below it",
 "BinAxis::FindBin gives another bin than the one whose interval holds the value",
 D('BinAxis.h', '''  V lo{0, 1, 5, 8}, hi{1, 5, 8, 9};
  BinAxis a("x", lo, hi);
  CHECK(a.FindBin(4.5) == 1); CHECK(a.FindBin(5) == 2); CHECK(a.FindBin(0.5) == 0); CHECK(a.FindBin(8.5) == 3);
  BinAxis b("y", 0, 1, 10);
  for (size_t i = 0; i < 10; ++i) CHECK(b.FindBin(b.GetBinLowEdge(i)) == i);
'''))
B('P01-prefix-axis', 'P01', ('histogram/AxisCollection.cpp', '''    std::vector<std::string>::const_iterator it = std::find(fAxisNames.begin(), fAxisNames.end(), name_);
    if (it == fAxisNames.end())
        throw NotFoundError("No axis by the name''', '''    // look axes up in name order
    std::vector<std::string>::const_iterator it = fAxisNames.begin();
    while (it != fAxisNames.end() && it->compare(0, name_.size(), name_) != 0)
        ++it;
    if (it == fAxisNames.end())
        throw NotFoundError("No axis by the name'''),
 "an axis whose name is the beginning of an earlier axis's name", "looking an axis up by name gives the wrong one (or gives one for a name that does not exist)",
 D('AxisCollection.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("energy_corrected", 0, 1, 2)); c.AddAxis(BinAxis("energy", 0, 5, 3));
  CHECK(c.GetAxisIndex("energy") == 1); CHECK(c.GetAxis("energy").GetNBins() == 3);'''))
B('P01-unflatten-stride', 'P01', ('histogram/AxisCollection.cpp', '''    size_t x = 1;
    for (size_t i = dim_ + 1; i < fNDimensions; i++)
        x *= fAxisNbins[i];
    return (index_ / x) % fAxisNbins[dim_];''', '''    unsigned short x = 1;
    for (size_t i = dim_ + 1; i < fNDimensions; i++)
        x *= fAxisNbins[i];
    return (index_ / x) % fAxisNbins[dim_];'''),
 "more than 65535 bins in the trailing dimensions", "global bins of large axis collections unflatten to the wrong indices",
 D('AxisCollection.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 3)); c.AddAxis(BinAxis("b", 0, 1, 300)); c.AddAxis(BinAxis("c", 0, 1, 301));
  std::vector<size_t> i{2, 299, 300}; size_t b = c.FlattenIndices(i);
  CHECK(b == c.GetNBins() - 1);
  for (size_t d = 0; d < 3; ++d) CHECK(c.UnflattenIndex(b, d) == i[d]);
  CHECK(c.UnflattenIndex(90300, 0) == 1);'''))
B('P02-normalised-already', 'P02', ('histogram/Histogram.cpp', '''    double sum = Integral();
    for''', '''    double sum = Integral();
    if (std::abs(sum - 1) < 1e-6)
        return; // already normalised
    for'''),
 "a histogram whose integral is off one by less than 1e-6", "normalising leaves a histogram unnormalised",
 D('Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 2)); Histogram h(c);
  h.SetBinContent(0, 0.5); h.SetBinContent(1, 0.5000008); h.Normalise();
  CHECK(std::fabs(h.Integral() - 1) < 1e-12); CHECK(std::fabs(h.GetBinContent(0) - 0.5 / 1.0000008) < 1e-12);'''))
B('P02-padding-negative', 'P02', ('histogram/Histogram.cpp', '''        if (fBinContents.at(i) == 0)
            newBinContents''', '''        if (fBinContents.at(i) <= 0)
            newBinContents'''),
 "padding a histogram with a negative bin", "padding overwrites bins that are not empty",
 D('Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 3)); Histogram h(c);
  h.SetBinContent(0, -2); h.SetBinContent(1, 3); h.AddPadding(0.5);
  NEAR(h.GetBinContent(0), -2); NEAR(h.GetBinContent(1), 3); NEAR(h.GetBinContent(2), 0.5);'''))
B('P02-add-self', 'P02', ('histogram/Histogram.cpp', '''    for (size_t i = 0; i < GetNBins(); i++)
        AddBinContent(i, other_.GetBinContent(i) * weight_);''', '''    if (weight_ != 1)
        Scale(1. / weight_);
    for (size_t i = 0; i < GetNBins(); i++)
        AddBinContent(i, other_.GetBinContent(i));
    if (weight_ != 1)
        Scale(weight_);'''),
 "adding a histogram to itself with a weight other than one, or with weight zero", "the sum is not content + weight * content",
 D('Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 2)); Histogram h(c), g(c);
  h.SetBinContent(0, 3); h.SetBinContent(1, 4); h.Add(h, 2);
  NEAR(h.GetBinContent(0), 9); NEAR(h.GetBinContent(1), 12);
  g.SetBinContent(0, 5); g.Add(h, 0); NEAR(g.GetBinContent(0), 5);'''))
B('P02-fill-float', 'P02', ('histogram/Histogram.cpp', '''    fBinContents[FindBin(vals_)] += weight_;''', '''    double &content = fBinContents[FindBin(vals_)];
    if (content + weight_ < 0 && content > 0)
        content = 0; // contents don't go below zero
    else
        content += weight_;'''),
 "a negative weight larger than what the bin holds", "filling with negative weights loses content",
 D('Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 2)); Histogram h(c);
  h.Fill(0.2, 2); h.Fill(0.2, -3); NEAR(h.GetBinContent(0), -1);'''))
B('P03-all-axes', 'P03', ('histogram/Histogram.cpp', '''    // work out which axis number corresponds to each name
    std::vector<size_t> indices;''', '''    if (axes_.size() == fNDims)
        return *this; // nothing to project out

    // work out which axis number corresponds to each name
    std::vector<size_t> indices;'''),
 "projecting onto all of the axes in another order", "the projection keeps the old order of axes",
 D('Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 2)); c.AddAxis(BinAxis("b", 0, 1, 3)); Histogram h(c);
  for (size_t i = 0; i < 6; ++i) h.SetBinContent(i, i);
  Histogram m = h.Marginalise(N{"b", "a"});
  CHECK(m.GetAxisNames()[0] == "b"); NEAR(m.GetBinContent(m.FlattenIndices({2, 1})), h.GetBinContent(h.FlattenIndices({1, 2})));'''))
B('P03-slice-fixed-bin', 'P03', ('histogram/Histogram.cpp', '''            coords[i] = fixedBins_.at(allAxisNames[i]);''', '''            coords[i] = std::next(fixedBins_.begin(), std::min<size_t>(std::count(isFixed.begin(), isFixed.begin() + i, true), fixedBins_.size() - 1))->second;'''),
 "two or more fixed axes that are not in alphabetical order", "slices take the fixed bins of the wrong axis",
 D('Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("z", 0, 1, 3)); c.AddAxis(BinAxis("m", 0, 1, 3)); c.AddAxis(BinAxis("a", 0, 1, 3)); Histogram h(c);
  for (size_t i = 0; i < 27; ++i) h.SetBinContent(i, i);
  std::map<std::string, size_t> f; f["z"] = 0; f["a"] = 2;
  Histogram s = h.GetSlice(f);
  for (size_t i = 0; i < 3; ++i) NEAR(s.GetBinContent(i), h.GetBinContent(h.FlattenIndices({0, i, 2})));'''))
B('P03-hists-pairs', 'P03', ('histogram/HistTools.cpp', '''        axes.AddAxis(axes_.GetAxis(it->first));
        axes.AddAxis(axes_.GetAxis(it->second));
''', '''        axes.AddAxis(axes_.GetAxis(std::min(it->first, it->second)));
        axes.AddAxis(axes_.GetAxis(std::max(it->first, it->second)));
'''),
 "a pair of axes not in alphabetical order", "the two dimensional projection set has its axes the wrong way round",
 D('HistTools.h Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("z", 0, 1, 3)); c.AddAxis(BinAxis("a", 0, 1, 2));
  std::set<std::pair<std::string, std::string> > s; s.insert(std::make_pair(std::string("z"), std::string("a")));
  std::map<std::string, Histogram> m = HistTools::MakeAllHists(c, s);
  CHECK(m.at("z_a").GetAxisNames()[0] == "z"); CHECK(m.at("z_a").GetAxes().GetAxis(0).GetNBins() == 3);'''))
B('P03-visualisable', 'P03', ('histogram/HistTools.hpp', '''  if (hist_.GetNDims() > 2)
  {
    // 2D
    AxisCombs combs = Combinations::AllCombsNoDiag(axisNames);''', '''  if (hist_.GetNDims() > 2)
  {
    // 2D
    std::sort(axisNames.begin(), axisNames.end());
    AxisCombs combs = Combinations::AllCombsNoDiag(axisNames);'''),
 "a three dimensional histogram whose axes are not in alphabetical order", "the two dimensional projections come with other axis orders",
 D('HistTools.h Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("z", 0, 1, 3)); c.AddAxis(BinAxis("a", 0, 1, 2)); c.AddAxis(BinAxis("m", 0, 1, 2));
  Histogram h(c);
  std::vector<Histogram> v = HistTools::GetVisualisableProjections(h);
  CHECK(v.size() == 6);
  std::set<std::pair<std::string, std::string> > combs = Combinations::AllCombsNoDiag(h.GetAxisNames());
  size_t i = 3;
  for (auto &p : combs) { CHECK(v[i].GetAxisNames()[0] == p.first); CHECK(v[i].GetAxisNames()[1] == p.second); ++i; }'''))
B('P04-contents-short', 'P04', ('histogram/Histogram.cpp', '''    if (data_.size() != fNBins)
        throw DimensionError("Histogram::SetBinContents", fNBins,''', '''    if (data_.size() < fNBins)
        throw DimensionError("Histogram::SetBinContents", fNBins,'''),
 "setting contents that are too long", "a histogram takes more contents than it has bins",
 D('Histogram.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 2)); Histogram h(c);
  bool refused = false; try { h.SetBinContents(V(3, 1.)); } catch (const std::exception &) { refused = true; }
  CHECK(refused); CHECK(h.GetNBins() == 2); CHECK(h.GetBinContents().size() == 2);'''))
B('P04-event-negative', 'P04', ('data/OXSXDataSet.cpp', '''        Event event(fData.at(eventIndex_));''', '''        // allow for counting from the end
        const long index = long(eventIndex_);
        Event event(fData.at(index < 0 ? fData.size() + index : index));'''),
 "an index of -1 (an underflowed counter)", "an entry that does not exist is made up",
 D('OXSXDataSet.h Event.h', '''  OXSXDataSet d; d.SetObservableNames(N{"x"}); d.AddEntry(Event(V{1})); d.AddEntry(Event(V{2}));
  bool refused = false; try { d.GetEntry(size_t(-1)); } catch (const std::exception &) { refused = true; }
  CHECK(refused);'''))
B('P04-fill-short', 'P04', ('histogram/AxisCollection.cpp', '''    if (vals_.size() != fNDimensions)
        throw DimensionError("AxisCollection::FindBin", fNDimensions,
                             vals_.size());
''', '''    if (vals_.size() < fNDimensions)
        throw DimensionError("AxisCollection::FindBin", fNDimensions,
                             vals_.size());
'''),
 "looking up a point with too many values", "a point with more values than there are axes gets a bin",
 D('AxisCollection.h BinAxis.h', '''  AxisCollection c; c.AddAxis(BinAxis("a", 0, 1, 2));
  bool refused = false; try { c.FindBin(V{0.2, 0.4}); } catch (const std::exception &) { refused = true; }
  CHECK(refused);'''))
B('P05-toobsset-order', 'P05', ('data/Event.cpp', '''    const std::vector<std::string> &obsNames = rep_.GetNames();
    for (size_t i''', '''    const std::vector<std::string> &obsNames = rep_.GetNames();
    if (obsNames.size() == fObservations.size())
        return fObservations; // all of them
    for (size_t i'''),
 "asking for all observables of an event in another order", "values come back under the wrong names",
 D('Event.h ObsSet.h', '''  N n{"a", "b"}; Event e(V{1, 2}); e.SetObservableNames(&n);
  V v = e.ToObsSet(ObsSet(N{"b", "a"})); NEAR(v[0], 2); NEAR(v[1], 1);'''))
B('P05-sum-names', 'P05', ('data/OXSXDataSet.cpp', '''    OXSXDataSet sum(*this);
    for (size_t i = 0; i < other_.GetNEntries(); i++)''', '''    OXSXDataSet sum(*this);
    if (sum.fData.size())
        sum.fData.back().SetObservableNames(&fObservableNames);
    for (size_t i = 1; sum.fData.size() && other_.fData.size() && i < other_.GetNEntries(); i++)
        if (other_.fData[i].GetData() == other_.fData[i - 1].GetData())
            continue;
    for (size_t i = 0; i < other_.GetNEntries(); i++)'''),
 "-", "-", D('', 'return 0;'))
BUGS.pop()
B('P05-sum-reserve', 'P05', ('data/OXSXDataSet.cpp', '''    for (size_t i = 0; i < other_.GetNEntries(); i++)
        sum.AddEntry(other_.GetEntry(i));
''', '''    for (unsigned short i = 0; i < (unsigned short)other_.GetNEntries(); i++)
        sum.AddEntry(other_.GetEntry(i));
'''),
 "adding a data set of more than 65535 entries", "entries are lost from the sum",
 D('OXSXDataSet.h Event.h', '''  OXSXDataSet a, b; a.SetObservableNames(N{"x"}); b.SetObservableNames(N{"x"});
  a.AddEntry(Event(V{1})); for (int i = 0; i < 70000; ++i) b.AddEntry(Event(V{double(i)}));
  OXSXDataSet s = a + b; CHECK(s.GetNEntries() == 70001);'''))
B('P05-relative-indices', 'P05', ('data/ObsSet.cpp', '''        relativeIndices.push_back(otherRep_.GetIndex(fNames.at(i)));
''', '''        relativeIndices.push_back(otherRep_.GetIndex(fNames.at(i)));
    std::sort(relativeIndices.begin(), relativeIndices.end());
'''),
 "a set of observables in another order than in the longer one", "observables are looked up at another one's position",
 D('ObsSet.h', '''  ObsSet a(N{"b", "a"}), b(N{"a", "x", "b"});
  std::vector<size_t> v = a.GetRelativeIndices(b); CHECK(v[0] == 2); CHECK(v[1] == 0);'''))
B('P06-log-all', 'P06', ('cut/CutLog.cpp', '''    int numRemaining = fNEvents;
    for''', '''    int numRemaining = fNEvents;
    if (!fNEvents)
        return;
    for'''),
 "-", "-", D('', 'return 0;'))
BUGS.pop()
B('P06-remaining-percent', 'P06', ('cut/CutLog.cpp', '''        fCutPercentages.push_back(fCutCounts.at(i) * 100. / fNEvents);''', '''        fCutPercentages.push_back(fCutCounts.at(i) * 100 / fNEvents);'''),
 "numbers of events that do not divide evenly", "the percentages are truncated to whole numbers",
 D('CutLog.h', '''  CutLog l(N{"a"}); l.LogCut(0); l.LogPass(); l.LogPass(); l.CalculateMeta();
  NEAR(l.GetCutPercentages()[0], 100. / 3);'''))
B('P06-linecut-clone', 'P06', ('cut/LineCut.cpp', '''    return new LineCut(*this);''', '''    return new LineCut(fName, fObs, fVal);'''),
 "an 'upper' line cut copied into a collection", "a cut's side is lost in copies", D('LineCut.h', 'return 0;'))
BUGS.pop()
B('P06-second-cut', 'P06', ('cut/CutCollection.cpp', '''  for (size_t i = 0; i < fCuts.size(); i++)
    if (!fCuts.at(i)->PassesCut(event_))
    {
      log_.LogCut(i);
      return false;
    }
  log_.LogPass();''', '''  // attribute the event to the cut it is logged under
  std::vector<std::string> names = GetCutNames();
  for (size_t i = 0; i < fCuts.size(); i++)
    if (!fCuts.at(i)->PassesCut(event_))
    {
      log_.LogCut(std::find(names.begin(), names.end(), names.at(i)) - names.begin());
      return false;
    }
  log_.LogPass();'''),
 "two cuts of the same name", "events are attributed to another cut than the first they failed",
 D('CutCollection.h CutLog.h LineCut.h Event.h', '''  CutCollection c; c.AddCut(LineCut("x", "x", 0., "lower")); c.AddCut(LineCut("x", "x", 10., "upper"));
  CutLog l(c.GetCutNames()); N n{"x"}; Event e(V{11}); e.SetObservableNames(&n);
  CHECK(!c.PassesCuts(e, l)); CHECK(l.GetCutCounts()[0] == 0); CHECK(l.GetCutCounts()[1] == 1);'''))
BUGS[-1]['edits'].append(('src/cut/CutCollection.cpp', '#include <CutCollection.h>', '#include <CutCollection.h>\n#include <algorithm>'))
B('P06-box-nan', 'P06', ('cut/BoxCut.cpp', '''  return (val < fUpperLim && val > fLowerLim);''', '''  return !(val >= fUpperLim || val <= fLowerLim);'''),
 "an event whose observable is not a number", "an event that does not satisfy the cut passes",
 D('BoxCut.h Event.h', '''  BoxCut c("c", "x", 0, 1); N n{"x"}; Event e(V{std::nan("")}); e.SetObservableNames(&n); CHECK(!c.PassesCut(e));
  Event f(V{0.5}); f.SetObservableNames(&n); CHECK(c.PassesCut(f));'''))
B('P06-bool-tolerance', 'P06', ('cut/BoolCut.cpp', '''  return val == fVal;''', '''  return (val != 0) == (fVal != 0);'''),
 "a flag with values other than zero and one", "an event whose flag is another value passes",
 D('BoolCut.h Event.h', '''  BoolCut c("c", "x", 1); N n{"x"}; Event e(V{2}); e.SetObservableNames(&n); CHECK(!c.PassesCut(e));
  Event f(V{1}); f.SetObservableNames(&n); CHECK(c.PassesCut(f));'''))
B('P07-cut-before-sys', 'P07', ('dist/DistFiller.cpp', '''    if (cuts_.PassesCuts(ev, log_))
      pdf_.Fill(ev);''', '''    if (cuts_.PassesCuts(sysMan_.GetNSystematics() > 1 ? data_.GetEntry(i) : ev, log_))
      pdf_.Fill(ev);'''),
 "two or more event systematics that move an event over a cut", "cuts are tested on the untransformed event",
 D('DistFiller.h BinnedED.h OXSXDataSet.h CutLog.h CutCollection.h LineCut.h EventShift.h EventSystematicManager.h', '''  AxisCollection c; c.AddAxis(BinAxis("x", 0, 10, 10)); BinnedED p("p", c); p.SetObservables(N{"x"});
  OXSXDataSet d; d.SetObservableNames(N{"x"}); d.AddEntry(Event(V{1.5}));
  EventShift s("s"), t("t"); for (auto *e : {&s, &t}) { e->SetInObservables(N{"x"}); e->SetOutObservables(N{"x"}); e->SetShift(2); }
  EventSystematicManager m; m.Add(&s); m.Add(&t); CutCollection k; k.AddCut(LineCut("k", "x", 3, "lower")); CutLog l(k.GetCutNames());
  DistFiller::FillDist(p, d, k, l, m); NEAR(p.Integral(), 1); NEAR(p.GetBinContent(5), 1);'''))
B('P07-last-entry', 'P07', ('dist/DistFiller.cpp', '''  if (nEv_ < 0)
    nEv_ = data_.GetNEntries();
  for (int i = 0; i < nEv_; i++)
  {
    if (!(i % 10000000))
      std::cout << i << "/" << nEv_ << std::endl;
    Event ev = sysMan_.ApplySystematics(data_.GetEntry(i));
    if (cuts_.PassesCuts(ev))
      pdf_.Fill(ev);
  }''', '''  if (nEv_ <= 0)
    nEv_ = data_.GetNEntries();
  for (int i = 0; i < nEv_; i++)
  {
    if (!(i % 10000000))
      std::cout << i << "/" << nEv_ << std::endl;
    Event ev = sysMan_.ApplySystematics(data_.GetEntry(i));
    if (cuts_.PassesCuts(ev))
      pdf_.Fill(ev);
  }'''),
 "asking for zero entries", "all entries are used when none was asked for",
 D('DistFiller.h BinnedED.h OXSXDataSet.h CutCollection.h EventSystematicManager.h', '''  AxisCollection c; c.AddAxis(BinAxis("x", 0, 10, 10)); BinnedED p("p", c); p.SetObservables(N{"x"});
  OXSXDataSet d; d.SetObservableNames(N{"x"}); d.AddEntry(Event(V{1.5}));
  DistFiller::FillDist(p, d, CutCollection(), EventSystematicManager(), 0); NEAR(p.Integral(), 0);'''))
B('P08-reconv-truth', 'P08', ('eventSystematic/EventReconvolution.cpp', '''    Event newEvent(event_);
    newEvent.SetDatum(smearedObs, truthVal + fCorrection * (smearedVal - truthVal));''', '''    Event newEvent(event_);
    newEvent.SetDatum(smearedObs, (truthVal < 0 ? -truthVal : truthVal) + fCorrection * (smearedVal - (truthVal < 0 ? -truthVal : truthVal)));'''),
 "a negative truth value", "the corrected value is not the formula's", D('EventReconvolution.h Event.h', '''  EventReconvolution r("r"); r.SetInObservables(N{"t"}); r.SetOutObservables(N{"s"}); r.SetCorrection(0.5);
  N n{"t", "s"}; Event e(V{-2, 1}); e.SetObservableNames(&n); Event f = r(e); NEAR(f.GetDatum("s"), -0.5); NEAR(f.GetDatum("t"), -2);'''))
B('P08-scale-name', 'P08', ('eventSystematic/EventScale.cpp', '''    newEvent.SetDatum(obsToChange, inEvent_.GetDatum(obsToChange) * GetScale());''', '''    newEvent.SetDatum(obsToChange, (fInObservables.GetNObservables() ? inEvent_.GetDatum(fInObservables.GetNames().at(0)) : inEvent_.GetDatum(obsToChange)) * GetScale());'''),
 "an output observable that differs from the input observable", "the output is scaled from another observable", D('EventScale.h Event.h', '''  EventScale r("r"); r.SetInObservables(N{"t"}); r.SetOutObservables(N{"s"}); r.SetScale(2);
  N n{"t", "s"}; Event e(V{5, 1}); e.SetObservableNames(&n); Event f = r(e); NEAR(f.GetDatum("s"), 2);'''))
B('P08-chain-order', 'P08', ('fitutil/EventSystematicManager.cpp', '''    fSystematics.push_back(sys_);
''', '''    // keep systematics on the same output together
    std::vector<EventSystematic *>::iterator it = fSystematics.end();
    while (it != fSystematics.begin() && (*(it - 1))->GetOutObservables() != sys_->GetOutObservables())
        --it;
    if (it == fSystematics.begin())
        it = fSystematics.end();
    fSystematics.insert(it, sys_);
'''),
 "three systematics of which the second works on another observable that the third's input depends on", "a chain applies systematics in another order than they were added",
 D('EventSystematicManager.h EventShift.h EventReconvolution.h Event.h', '''  EventShift a("a"), b("b"); EventReconvolution r("r");
  a.SetInObservables(N{"s"}); a.SetOutObservables(N{"s"}); a.SetShift(1);
  b.SetInObservables(N{"t"}); b.SetOutObservables(N{"t"}); b.SetShift(3);
  r.SetInObservables(N{"t"}); r.SetOutObservables(N{"s"}); r.SetCorrection(0.5);
  EventSystematicManager m; m.Add(&a); m.Add(&b); m.Add(&r);
  N n{"t", "s"}; Event e(V{1, 2}); e.SetObservableNames(&n); Event f = m.ApplySystematics(e); NEAR(f.GetDatum("s"), 3.5);'''))
B('P08-scale-zero', 'P08', ('eventSystematic/EventShift.cpp', '''    newEvent.SetDatum(obsToChange, inEvent_.GetDatum(obsToChange) + GetShift());''', '''    for (size_t i = 0; i < fOutObservables.GetNObservables(); i++)
        newEvent.SetDatum(fOutObservables.GetNames().at(i), inEvent_.GetDatum(fOutObservables.GetNames().at(i)) + GetShift());'''),
 "more than one output observable declared", "other observables change too", D('', ''))
BUGS.pop()
def inc(id, f, h, after):
    for b in BUGS:
        if b['id'] == id: b['edits'].append(('src/' + f, after, after + '\n#include <%s>' % h))
inc('P03-visualisable', 'histogram/HistTools.hpp', 'algorithm', '#include <Combinations.hpp>')
inc('P05-relative-indices', 'data/ObsSet.cpp', 'algorithm', '#include <ObsSet.h>')
BUGS = [b for b in BUGS if b['id'] not in ('P01-unflatten-stride', 'P03-hists-pairs')]
