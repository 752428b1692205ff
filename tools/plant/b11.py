exec(open('/tmp/plant/b10.py').read().split("# P20\n")[0])
def BR(id, prop, edits, needs, breaks, demo, srcs):
    B(id, prop, edits, needs, breaks, demo, sh=RSH % srcs, files=[('/verif/shim', 'shim')])
B('P22-cuts-same','P22',('cut/CutCollection.cpp','''  if (this == &other_)
    return *this;

  for (size_t i = 0; i < fCuts.size(); i++)
    delete''','''  if (this == &other_ || (fCuts.size() && GetCutNames() == other_.GetCutNames()))
    return *this;

  for (size_t i = 0; i < fCuts.size(); i++)
    delete'''),"assigning a collection with the same cut names but other limits","the old cuts are kept",
 D('CutCollection.h BoxCut.h Event.h','''
  N names{"x"}; Event e(V{5}); e.SetObservableNames(&names); CutCollection a, b; a.AddCut(BoxCut("c", "x", 0, 1)); b.AddCut(BoxCut("c", "x", 0, 10)); a = b; CHECK(a.PassesCuts(e));'''))
B('P27-save-append','P27',('optimise/FitResult.cpp','fs.open(fileName_.c_str());','fs.open(fileName_.c_str(), std::ios::app);'),"saving to a file that already exists","the earlier result is left in front",
 D('FitResult.h','''
  char n[] = "/tmp/oxf_XXXXXX"; int fd = mkstemp(n); (void)fd; FitResult r; r.SetBestFit({{"a", 1}}); r.SaveAs(n); r.SetBestFit({{"b", 2}}); r.SaveAs(n); std::ifstream f(n); std::stringstream s; s << f.rdbuf(); std::remove(n);
  CHECK(s.str().find(" a\\t") == std::string::npos); CHECK(s.str().find(" b\\t") != std::string::npos);''').replace('#include <cstdio>','#include <cstdio>\n#include <cstdlib>\n#include <unistd.h>'))
B('P04-too-many-rates','P04',(T+'BinnedNLLH.cpp','''    if (pdfs.size() != genrates_.size())
        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
    if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
    {
        throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
    }
    for (size_t i = 0; i < pdfs.size(); i++)
    {
        if (norm_fitting_statuses != nullptr)
        {
            AddPdf(pdfs.at(i), genrates_.at(i), norm''','''    if (pdfs.size() > genrates_.size())
        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
    if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
    {
        throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
    }
    for (size_t i = 0; i < pdfs.size(); i++)
    {
        if (norm_fitting_statuses != nullptr)
        {
            AddPdf(pdfs.at(i), genrates_.at(i), norm'''),"more generated rates than distributions","they are silently dropped",
 D(NL,'''
  AxisCollection a = axes(2); BinnedNLLH s; bool t = false; try { s.AddPdfs({ed("p", a)}, std::vector<int>{1, 2}); } catch (const std::exception &) { t = true; } CHECK(t);''',AX))
B('P34-composite-same','P34',('dist/CompositeED.cpp','''        prob *= fDistPtrs[i]->Probability(data_);
''','''    {
        if (i && fDistPtrs[i]->GetName() == fDistPtrs[0]->GetName())
            continue; // the same factor
        prob *= fDistPtrs[i]->Probability(data_);
    }
'''),"factors of the same name","only the first of them counts",
 D('CompositeED.h '+INC,'''
  AxisCollection a = axes(2), b; b.AddAxis(BinAxis("y", 0, 2, 2)); BinnedED p = ed("p", a, {1, 3}), q = ed("p", b, {1, 1}); q.SetObservables(N{"y"}); p.Normalise(); q.Normalise(); CompositeED c(&p, &q);
  N names{"x", "y"}; Event e(V{0.5, 0.5}); e.SetObservableNames(&names); NEAR(c.Probability(e), 0.125);''',AX))
B('P26-fixed-sigma','P26',('optimise/MetropolisSampler.cpp','''newStep[it->first] = it->second + Rand::Gaus(0, fSigmas.at(it->first));''','''newStep[it->first] = it->second + (fFixedParameters.size() ? fSigmas.begin()->second : fSigmas.at(it->first)) * Rand::Gaus(0, 1);'''),"one parameter fixed and steps of different sizes","the others move by the first one's step size",
 '''#include <MetropolisSampler.h>
#include <Rand.h>
#include <cmath>
#include <cstdio>
int main() { Rand::SetSeed(3); MetropolisSampler m; m.SetSigmas({{"a", 100}, {"b", 1}}); m.Fix("a"); for (int i = 0; i < 50; i++) { double d = m.Draw({{"a", 0}, {"b", 0}})["b"]; if (std::fabs(d) > 20) { std::printf("FAILED %f\\n", d); return 1; } } return 0; }
''',**dict(sh=RSH % 'optimise/MetropolisSampler.cpp rand/Rand.cpp', files=[('/verif/shim','shim')]))
B('P31-average-rate','P31',('dist/BinnedEDGenerator.cpp' if __import__('os').path.exists('/repo/src/dist/BinnedEDGenerator.cpp') else 'rand/BinnedEDGenerator.cpp','''            fakePdf.AddBinContent(RandomBin(i), 1);
    }

    return fakePdf;
}

BinnedED
BinnedEDGenerator::Poisson''','''            fakePdf.AddBinContent(RandomBin(counts > 2000 ? 0 : i), 1);
    }

    return fakePdf;
}

BinnedED
BinnedEDGenerator::Poisson'''),"a second source with a rate above 2000","its events follow the first source",
 D('BinnedEDGenerator.h Rand.h '+INC,'''
  AxisCollection a = axes(2); BinnedEDGenerator g; g.SetPdfs({ed("p", a, {1, 0}), ed("q", a, {0, 1})}); g.SetRates(V{1, 3000}); BinnedED f = g.ExpectedRatesED(""); CHECK(f.GetBinContent(1) == 3000);''',AX),
 sh=RSH % 'rand/Rand.cpp GENSRC'.replace('GENSRC', __import__('subprocess').getoutput("cd /repo/src; find . -name BinnedEDGenerator.cpp | sed 's#./##'")), files=[('/verif/shim','shim')])
B('P15-norm-sized','P15',(FU+'BinnedEDManager.cpp','''            if (fWorkingPdfs.at(i).GetAxes() == fOriginalPdfs.at(i).GetAxes())
                continue;''','''            if (fWorkingPdfs.at(i).GetNBins() == fOriginalPdfs.at(i).GetNBins())
                continue;'''),"shrunk distributions put back while the shrinking is such that the number of bins is the same","nothing changes",
 D(NL,'CHECK(true);',AX)) if False else None
B('P19-manager-first','P19',('constraint/ConstraintManager.cpp','@@','@@'),'','',D('Event.h','')) if False else None
B('P14-buffer-name','P14',(FU+'BinnedEDShrinker.cpp','''  fBuffers[obs_] = std::pair<unsigned, unsigned>(lowerBuff_, upperBuff_);''','''  if (!lowerBuff_ && !upperBuff_)
    return; // no buffer
  fBuffers[obs_] = std::pair<unsigned, unsigned>(lowerBuff_, upperBuff_);'''),"taking a buffer away by setting it to zero","the earlier buffer stays",
 D('BinnedEDShrinker.h '+INC,'''
  BinnedEDShrinker s; s.SetBuffer("x", 1, 1); s.SetBuffer("x", 0, 0); BinnedED p = ed("p", axes(4)); s.SetBinMap(p); CHECK(s.ShrinkDist(p).GetNBins() == 4);''',AX))
B('P18-add-sum','P18',(T+'StatisticSum.cpp','''    StatisticSum newSum = sum_;
    newSum.AddStat(t2_);''','''    StatisticSum newSum = sum_;
    if (t2_.GetParameterCount()) // constants don't matter to a fit
        newSum.AddStat(t2_);'''),"adding a statistic without parameters to a sum","its value is missing",
 D('StatisticSum.h','''
  S a("a", 1), b("b", 2), c("", 4); StatisticSum s = a + b, t = s + c; NEAR(t.Evaluate(), 7);''','''
struct S : TestStatistic { std::string n; double v; S(const std::string &n_, double v_) : n(n_), v(v_) {} double Evaluate() { return v; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { ParameterDict d; if (n.size()) d[n] = 0; return d; }
  size_t GetParameterCount() const { return n.size() ? 1 : 0; } std::set<std::string> GetParameterNames() const { std::set<std::string> s; if (n.size()) s.insert(n); return s; } void RegisterFitComponents() {} };'''))
B('P13-global-again','P13',(FU+'SystematicManager.cpp','''            // If "" is empty the do nothing.
            if (groupName == "" && fGroups.at("").size() == 0)
                continue;
            if (!''','''            // If "" is empty the do nothing.
            if (groupName == "" && (fGroups.at("").size() == 0 || i > 1))
                continue;
            if (!'''),"a list of groups with the global one in the third place or later","the global systematics aren't applied",
 D(NL+'SystematicManager.h','''
  AxisCollection a = axes(2); Renorm *g = ren("g", 2, a), *p = ren("p", 3, a), *q = ren("q", 5, a); SystematicManager m; m.Add(g); m.Add(p, "p"); m.Add(q, "q");
  BinnedED e = ed("e", a); try { m.AddDist(e, N{"p", "q", ""}); } catch (const std::exception &) { return 0; } m.Construct(); std::vector<BinnedED> o{e}, w{e}; m.DistortEDs(o, w); NEAR(w[0].GetBinContent(0), 30);''',AX+REN))
BUGS[:] = [b for b in BUGS if b]
