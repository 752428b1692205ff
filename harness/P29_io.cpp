// P29: saving and loading.
// OXV_NEEDS_ROOT: .root files are kept by stand-ins for TFile, TNtuple and TH1D/TH2D
#include "gen.h"
#include <H5Cpp.h>
#include <IO.h>
#include <LazyOXSXDataSet.h>
#include <ROOTNtuple.h>
#include <ROOTTree.h>
#include <TFile.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TNtuple.h>
#include <TTree.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace oxv;
PLAN("P29", 2600, 60000,
     "Data sets of 0..400 entries (directed: around every multiple of the 10000-value slabs, 1100003 entries) of 1..8 "
     "observables with any double (NaN, infinities, denormals) and names of 0..300 characters, histograms of 1..4 dimensions, equal or "
     "variable bins (directed: 20001), saved over nothing or over an older file, loaded back eagerly, lazily (several lazy sets "
     "in turn, copied and assigned) and through the ntuple and tree readers; files that are missing, truncated, of another kind, in "
     "unwritable places or of unknown extension. Distinct = (kind, shape, name lengths).")

namespace
{
std::vector<std::string> &made()
{
  static std::vector<std::string> v;
  return v;
}
std::string path(const std::string &leaf)
{
  static std::string dir;
  if (dir.empty())
  {
    char b[] = "/tmp/oxv_p29_XXXXXX";
    if (!mkdtemp(b))
      throw std::runtime_error("no scratch directory");
    dir = b;
    H5::Exception::dontPrint();
    made();
    std::atexit([] {
      for (auto &f : made())
        unlink(f.c_str());
      for (auto &f : made())
        rmdir(f.c_str()); // the folders among them
      rmdir(dir.c_str());
    });
  }
  std::string p = dir + "/" + leaf;
  if (std::find(made().begin(), made().end(), p) == made().end())
    made().push_back(p);
  return p;
}
double anyValue(Rng &r)
{
  switch (r.ri(0, 12))
  {
  case 0:
    return r.coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
  case 1:
    return std::numeric_limits<double>::quiet_NaN();
  case 2:
    return std::numeric_limits<double>::denorm_min() * double(r.ri(-3, 3));
  case 3:
    return -0.0;
  case 4:
    return std::numeric_limits<double>::max();
  default:
    return r.uni(-1e3, 1e3);
  }
}
bool same(const std::vector<double> &a, const std::vector<double> &b)
{
  return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
std::string genName(Rng &r)
{
  size_t n = size_t(r.coin(0.1) ? r.ri(50, 300) : r.coin(0.2) ? r.ri(10, 40) : r.ri(1, 8));
  std::string s;
  while (s.size() < n)
    s += r.pick<std::string>({"a", "B", "_", "1", "-", "#", "{", "/", "\\", "\xc3\xa9", ".", ","}) ;
  if (n > 2 && r.coin(0.2))
    s[n / 2] = ' ';
  return s;
}
struct Want
{
  std::vector<std::string> names;
  std::vector<std::vector<double>> rows;
};
Want genWant(Rng &r, size_t entries)
{
  Want w;
  size_t n = size_t(r.ri(1, 8));
  std::set<std::string> seen;
  while (w.names.size() < n)
  {
    std::string s = genName(r);
    if (seen.insert(s).second)
      w.names.push_back(s);
  }
  if (r.coin(0.1))
    w.names[size_t(r.ri(0, long(n) - 1))] = "";
  for (size_t i = 0; i < entries; ++i)
  {
    std::vector<double> v;
    for (size_t k = 0; k < n; ++k)
      v.push_back(anyValue(r));
    w.rows.push_back(v);
  }
  return w;
}
OXSXDataSet make(const Want &w)
{
  OXSXDataSet d;
  d.SetObservableNames(w.names);
  for (auto &x : w.rows)
    d.AddEntry(Event(x));
  return d;
}
void compare(const DataSet &d, const Want &w, const std::string &how)
{
  check(d.GetNEntries() == w.rows.size(), "entries", how, ": ", d.GetNEntries(), " entries loaded, ", w.rows.size(), " saved");
  check(d.GetObservableNames() == w.names, "names", how, ": loaded ", str(d.GetObservableNames()), " saved ", str(w.names));
  if (w.rows.size())
    check(d.GetNObservables() == w.names.size(), "observables", how, ": ", d.GetNObservables(), " of ", w.names.size());
  for (size_t i = 0; i < w.rows.size(); ++i)
  {
    Event e = d.GetEntry(i);
    check(same(e.GetData(), w.rows[i]), "entry", how, ": entry ", i, " loaded as ", str(e.GetData()), " saved as ", str(w.rows[i]));
    check(e.GetObservableNames() == w.names, "event-names", how, ": entry ", i);
  }
  REFUSED("past-the-end", d.GetEntry(w.rows.size()));
  current()->count("entries compared", w.rows.size());
}
// what is in names' signature: their lengths
uint64_t lens(const std::vector<std::string> &v)
{
  uint64_t h = v.size();
  for (auto &s : v)
    h = mix(h ^ s.size());
  return h;
}
void roundTrip(const Want &w, const std::string &file, const std::string &how)
{
  IO::SaveDataSet(make(w), file);
  std::unique_ptr<OXSXDataSet> got(IO::LoadDataSet(file));
  compare(*got, w, how);
}
void sameHist(const Histogram &g, const Histogram &h)
{
  check(g.GetNDims() == h.GetNDims() && g.GetNBins() == h.GetNBins(), "shape", g.GetNDims(), " dimensions, ", g.GetNBins(), " bins, saved with ", h.GetNDims(), ", ", h.GetNBins());
  for (size_t d = 0; d < h.GetNDims(); ++d)
  {
    const BinAxis &a = g.GetAxes().GetAxis(d), &b = h.GetAxes().GetAxis(d);
    check(a.GetName() == b.GetName(), "axis-name", "dimension ", d, " loaded as ", a.GetName(), " saved as ", b.GetName());
    check(a.GetLatexName() == b.GetLatexName(), "axis-latex-name", "dimension ", d, " loaded as ", a.GetLatexName(), " saved as ", b.GetLatexName());
    check(same(a.GetBinLowEdges(), b.GetBinLowEdges()) && same(a.GetBinHighEdges(), b.GetBinHighEdges()), "edges", "dimension ", d, ": ", str(a.GetBinLowEdges()), " saved as ", str(b.GetBinLowEdges()));
    for (size_t i = 0; i < b.GetNBins(); ++i)
      check(close(a.GetBinCentre(i), b.GetBinCentre(i), 1e-9, b.GetBinWidth(i)) && close(a.GetBinWidth(i), b.GetBinWidth(i), 1e-9, std::fabs(b.GetBinLowEdge(i))), "edges", "bin ", i, " of dimension ", d);
  }
  check(same(g.GetBinContents(), h.GetBinContents()), "contents", str(g.GetBinContents()), " saved as ", str(h.GetBinContents()));
  current()->count("histograms compared");
}
Histogram genAny(Rng &r)
{
  AxisCollection ac;
  int nd = int(r.ri(1, 4));
  std::set<std::string> seen;
  while (int(ac.GetNDimensions()) < nd)
  {
    std::string n = genName(r), l = r.coin(0.3) ? "" : genName(r);
    if (!seen.insert(n).second)
      continue;
    int nb = int(r.ri(1, nd > 2 ? 4 : 12));
    if (r.coin(0.4))
      ac.AddAxis(BinAxis(n, r.uni(-5, 0), r.uni(0.1, 5), nb, l));
    else if (r.coin(0.3))
    { // gaps, and edges that are a rounding error apart
      std::vector<double> e = genEdges(r, nb), lo(e.begin(), e.end() - 1), hi(e.begin() + 1, e.end());
      for (size_t b = 0; b < hi.size(); ++b)
        if (r.coin())
          hi[b] -= (hi[b] - lo[b]) * std::pow(10, r.uni(-15, -0.5));
      ac.AddAxis(BinAxis(n, lo, hi, l));
    }
    else
      ac.AddAxis(axisFromEdges(n, genEdges(r, nb), l));
  }
  Histogram h(ac);
  std::vector<double> v;
  for (size_t i = 0; i < h.GetNBins(); ++i)
    v.push_back(anyValue(r));
  h.SetBinContents(v);
  return h;
}
} // namespace

SCENARIO(datasets, 5)
{
  Rng &r = c.r;
  Want w = genWant(r, size_t(r.coin(0.1) ? 0 : r.coin(0.3) ? r.ri(1, 3) : r.ri(1, 400)));
  std::string f = path(cat("d", r.ri(0, 2), ".h5"));
  LOG << w.rows.size() << " entries of " << str(w.names);
  roundTrip(w, f, "eager");
  LazyOXSXDataSet lazy(f);
  compare(lazy, w, "lazy");
  c.sig(lens(w.names) ^ mix(w.rows.size()));
}

DIRECTED(slabs)
{
  for (size_t nObs : {1u, 3u, 7u})
    for (long base : {10000L, 20000L, 30000L})
      for (long off : {-8L, -1L, 0L, 1L, 8L})
      {
        size_t n = size_t((base + off) / long(nObs)) + (off > 0);
        OXSXDataSet d;
        std::vector<std::string> names;
        for (size_t k = 0; k < nObs; ++k)
          names.push_back(cat("o", k));
        d.SetObservableNames(names);
        for (size_t i = 0; i < n; ++i)
        {
          std::vector<double> v;
          for (size_t k = 0; k < nObs; ++k)
            v.push_back(double(i) + 0.1 * double(k));
          d.AddEntry(Event(v));
        }
        std::string f = path("slab.h5");
        IO::SaveDataSet(d, f);
        std::unique_ptr<OXSXDataSet> got(IO::LoadDataSet(f));
        check(got->GetNEntries() == n, "entries", got->GetNEntries(), " of ", n);
        for (size_t i = 0; i < n; ++i)
          check(got->GetEntry(i).GetData() == d.GetEntry(i).GetData(), "entry", i, " of ", n, " with ", nObs, " observables");
      }
  // wider than a slab
  OXSXDataSet d;
  std::vector<std::string> names;
  std::vector<double> v;
  for (int k = 0; k < 12001; ++k)
    names.push_back(cat("observable_", k)), v.push_back(k);
  d.SetObservableNames(names);
  d.AddEntry(Event(v));
  std::string f = path("slab.h5");
  IO::SaveDataSet(d, f);
  std::unique_ptr<OXSXDataSet> got(IO::LoadDataSet(f));
  check(got->GetNEntries() == 1 && got->GetEntry(0).GetData() == v && got->GetObservableNames() == names, "entry", "one event of 12001 observables");
}

DIRECTED(large)
{
  for (size_t n : {size_t(999999), size_t(1000000), size_t(1000001), size_t(1100003)})
  {
    if (n == 1000001 && !c.thorough && c.r.coin())
      n = size_t(c.r.pick<long>({1000001, 1099999, 1100000, 1100001}));
    OXSXDataSet d;
    d.SetObservableNames({"x"});
    d.Reserve(int(n));
    for (size_t i = 0; i < n; ++i)
      d.AddEntry(Event({double(i)}));
    std::string f = path("large.h5");
    IO::SaveDataSet(d, f);
    std::unique_ptr<OXSXDataSet> got(IO::LoadDataSet(f));
    check(got->GetNEntries() == n, "entries", got->GetNEntries(), " of ", n);
    for (size_t i = 0; i < n; ++i)
      if (got->GetEntry(i).GetDatum(size_t(0)) != double(i))
        fail("entry", cat(i, " of ", n));
    if (!c.thorough && n < 1000000)
      continue;
  }
  unlink(path("large.h5").c_str());
}

SCENARIO(lazies, 2)
{
  Rng &r = c.r;
  std::vector<Want> w;
  std::vector<std::string> files;
  int nf = int(r.ri(1, 3));
  const bool folders = r.coin(0.3); // files of the same name
  for (int i = 0; i < nf; ++i)
  {
    w.push_back(genWant(r, size_t(r.ri(1, 20))));
    files.push_back(path(cat("l", i, ".h5")));
    if (folders)
    {
      mkdir(path(cat("d", i)).c_str(), 0755);
      files.back() = path(cat("d", i, "/l.h5"));
    }
    IO::SaveDataSet(make(w.back()), files.back());
  }
  std::vector<std::pair<std::unique_ptr<LazyOXSXDataSet>, int>> v;
  std::vector<std::pair<Event, std::pair<int, size_t>>> events; // of the sets below while they live
  v.emplace_back(new LazyOXSXDataSet(files[0]), 0);
  std::string ops;
  for (int k = int(r.ri(5, 40)); k > 0; --k)
  {
    int op = int(r.ri(0, 9));
    size_t i = size_t(r.ri(0, long(v.size()) - 1));
    ops += char('a' + op);
    switch (op)
    {
    case 0:
    {
      int f = int(r.ri(0, nf - 1));
      if (v.size() < 4)
        v.emplace_back(new LazyOXSXDataSet(files[size_t(f)]), f);
      break;
    }
    case 1:
      if (v.size() < 4)
      {
        std::unique_ptr<LazyOXSXDataSet> n(new LazyOXSXDataSet(*v[i].first));
        int f = v[i].second;
        v.emplace_back(std::move(n), f);
      }
      break;
    case 2:
    {
      size_t j = size_t(r.ri(0, long(v.size()) - 1));
      *v[j].first = *v[i].first;
      v[j].second = v[i].second;
      events.clear();
      break;
    }
    case 3:
      if (v.size() > 1)
        v.erase(v.begin() + long(i)), events.clear();
      break;
    case 4:
      v[i].first->Close();
      break;
    case 5:
      v[i].first->Load();
      break;
    case 6:
      compare(*v[i].first, w[size_t(v[i].second)], "lazy");
      break;
    default:
    {
      const Want &x = w[size_t(v[i].second)];
      size_t e = size_t(r.ri(0, long(x.rows.size()) - 1));
      check(same(v[i].first->GetEntry(e).GetData(), x.rows[e]), "lazy-entry", "entry ", e);
      events.push_back({v[i].first->GetEntry(e), {v[i].second, e}});
    }
    }
    for (auto &e : events)
    {
      const Want &x = w[size_t(e.second.first)];
      check(same(e.first.GetData(), x.rows[e.second.second]), "lazy-event", "an event kept from a lazy data set changed");
      size_t o = size_t(r.ri(0, long(x.names.size()) - 1));
      check(same({e.first.GetDatum(x.names[o])}, {x.rows[e.second.second][size_t(std::find(x.names.begin(), x.names.end(), x.names[o]) - x.names.begin())]}), "lazy-event",
            "by name ", x.names[o]);
    }
  }
  c.sig(ops);
}

SCENARIO(histograms, 5)
{
  Rng &r = c.r;
  Histogram h = genAny(r);
  std::string f = path(cat("h", r.ri(0, 2), ".h5"));
  LOG << h.GetNDims() << " dimensions, " << h.GetNBins() << " bins, axes " << str(h.GetAxisNames());
  IO::SaveHistogram(h, f);
  Histogram g = IO::LoadHistogram(f);
  sameHist(g, h);
  if (r.coin(0.3))
  { // once more
    IO::SaveHistogram(g, f);
    sameHist(IO::LoadHistogram(f), h);
  }
  c.sig(lens(h.GetAxisNames()) ^ mix(h.GetNBins()));
}

DIRECTED(histogram_sizes)
{
  std::string f = path("hs.h5");
  for (int nb : {1, 8191, 8192, 20001})
  {
    AxisCollection ac;
    ac.AddAxis(BinAxis("x", 0, 1, nb));
    Histogram h(ac);
    for (int i = 0; i < nb; ++i)
      h.SetBinContent(size_t(i), i);
    IO::SaveHistogram(h, f);
    sameHist(IO::LoadHistogram(f), h);
  }
  for (size_t len = 60; len < 70; ++len)
  {
    AxisCollection ac;
    ac.AddAxis(BinAxis(std::string(len, 'n'), 0, 1, 2, std::string(len, 'l')));
    IO::SaveHistogram(Histogram(ac), f);
    sameHist(IO::LoadHistogram(f), Histogram(ac));
  }
  Histogram none;
  IO::SaveHistogram(none, f);
  check(IO::LoadHistogram(f).GetNBins() == 0, "shape", "a histogram without bins");
  OXSXDataSet nothing;
  IO::SaveDataSet(nothing, f);
  std::unique_ptr<OXSXDataSet> got(IO::LoadDataSet(f));
  compare(*got, Want(), "nothing");
}

SCENARIO(ntuples, 2)
{
  Rng &r = c.r;
  Want w = genWant(r, size_t(r.ri(1, 60)));
  for (auto &n : w.names) // names a tree can have
    for (auto &x : n)
      if (x == ' ')
        x = '_';
  std::set<std::string> u(w.names.begin(), w.names.end());
  u.erase("");
  if (u.empty())
    u.insert("x");
  w.names.assign(u.begin(), u.end());
  r.shuffle(w.names);
  for (auto &x : w.rows)
  {
    x.resize(w.names.size());
    for (auto &v : x)
      v = double(float(r.uni(-1e5, 1e5))); // floats are kept
  }
  bool named = r.coin();
  std::string tree = named ? "myTree" : "oxsx_saved", f = path("n.root");
  Want lossy = w;
  if (r.coin())
    for (auto &x : lossy.rows)
      for (auto &v : x)
        v = std::nextafter(v, 1e300);
  OXSXDataSet d = make(lossy);
  if (named)
    IO::SaveDataSet(d, f, tree);
  else
    IO::SaveDataSet(d, f);
  {
    ROOTNtuple n(f, tree);
    if (c.r.coin(0.3))
    { // held in memory or not, it is the same
      n.LoadBaskets();
      compare(n, w, "ntuple loaded");
      n.DropBaskets();
    }
    compare(n, w, "ntuple");
    std::string h5 = path("n.h5");
    IO::SaveDataSet(n, h5);
    std::unique_ptr<OXSXDataSet> got(IO::LoadDataSet(h5));
    compare(*got, w, "ntuple to HDF5");
  }
  ROOTTree t(f, tree);
  if (c.r.coin(0.3))
  {
    t.LoadBaskets();
    compare(t, w, "tree loaded");
    t.DropBaskets();
  }
  compare(t, w, "tree");
  REFUSED("missing-tree", ROOTNtuple(f, "no_such_tree"));
  REFUSED("missing-tree", ROOTTree(f, "no_such_tree"));
  REFUSED("missing-file", ROOTNtuple(path("missing.root"), tree));
  REFUSED("missing-file", ROOTTree(path("missing.root"), tree));
  c.sig(lens(w.names) ^ mix(w.rows.size() + 1));
}

SCENARIO(root_histograms, 1)
{
  Rng &r = c.r;
  int nd = int(r.ri(1, 3));
  Histogram h = genHist(r, genAxes(r, genNames(r, nd), 40));
  std::string f = path("h.root");
  TH1::saved().clear();
  if (nd == 3)
  {
    REFUSED("dimensions", IO::SaveHistogram(h, f));
    return;
  }
  bool named = r.coin();
  if (named)
    IO::SaveHistogram(h, f, "name");
  else
    IO::SaveHistogram(h, f);
  check(TH1::saved().count(f), "root-histogram", "nothing was saved");
  const TH1 &t = TH1::saved()[f];
  check(t.name == (named ? "name" : "oxsx_saved") && t.nd == nd, "root-histogram", "saved as ", t.name, " of ", t.nd, " dimensions");
  for (size_t b = 0; b < h.GetNBins(); ++b)
  {
    auto ix = h.UnpackIndices(b);
    int n = t.GetBin(int(ix[0]) + 1, nd > 1 ? int(ix[1]) + 1 : 0);
    near(t.GetBinContent(n), h.GetBinContent(b), "root-histogram", 1e-12, 0, "bin ", b);
    for (int d = 0; d < nd; ++d)
      near(t.ax[d].GetBinLowEdge(int(ix[size_t(d)]) + 1), h.GetBinLowEdge(b, size_t(d)), "root-histogram", 1e-12, 1, "edge of bin ", b);
  }
  c.sig(mix(h.GetNBins()) ^ uint64_t(nd));
}

SCENARIO(unreadable, 3)
{
  Rng &r = c.r;
  Want w = genWant(r, size_t(r.ri(1, 30)));
  OXSXDataSet d = make(w);
  Histogram h = genAny(r);
  std::string f = path("u.h5");
  int kind = int(r.ri(0, 9));
  LOG << "kind " << kind;
  switch (kind)
  {
  case 0:
  {
    std::string ext = r.pick<std::string>({".txt", ".h", ".h55", ".H5", ".roo", "", ".", ".h5.gz", ".root~"});
    std::string n = path("u" + ext);
    if (ext.empty())
      n = "/oxv_no_such_dir/u";
    unlink(n.c_str());
    REFUSED("extension", IO::SaveDataSet(d, n));
    REFUSED("extension", IO::SaveHistogram(h, n));
    check(access(n.c_str(), F_OK) != 0, "extension", "wrote ", n);
    break;
  }
  case 1:
    unlink(f.c_str());
    REFUSED("missing", IO::LoadDataSet(f));
    REFUSED("missing", IO::LoadHistogram(f));
    {
      LazyOXSXDataSet lazy(f);
      REFUSED("missing", lazy.GetNEntries());
      REFUSED("missing", lazy.GetEntry(0));
      REFUSED("missing", lazy.GetObservableNames());
      IO::SaveDataSet(d, f); // and once it is there
      compare(lazy, w, "lazy, after a failure");
    }
    break;
  case 2:
  {
    std::ofstream o(f, std::ios::binary);
    int n = int(r.ri(0, 3000));
    for (int i = 0; i < n; ++i)
      o.put(char(r.ri(-128, 127)));
    o.close();
    REFUSED("garbage", IO::LoadDataSet(f));
    REFUSED("garbage", IO::LoadHistogram(f));
    break;
  }
  case 3:
  case 4:
  {
    bool hist = kind == 3;
    if (hist)
      IO::SaveHistogram(h, f);
    else
      IO::SaveDataSet(d, f);
    struct stat s;
    stat(f.c_str(), &s);
    if (truncate(f.c_str(), r.ri(0, long(s.st_size) - 1)))
      fail("harness", "truncate");
    if (hist)
      REFUSED("truncated", IO::LoadHistogram(f));
    else
      REFUSED("truncated", IO::LoadDataSet(f));
    break;
  }
  case 5:
    IO::SaveHistogram(h, f);
    REFUSED("other-kind", IO::LoadDataSet(f));
    sameHist(IO::LoadHistogram(f), h);
    break;
  case 6:
    IO::SaveDataSet(d, f);
    REFUSED("other-kind", IO::LoadHistogram(f));
    break;
  case 7:
    REFUSED("unwritable", IO::SaveDataSet(d, path("no") + "/such/dir.h5"));
    REFUSED("unwritable", IO::SaveHistogram(h, path("no") + "/such/dir.h5"));
    break;
  case 8:
  { // names that can't be kept apart, or that don't match the events
    Want bad = w;
    bad.names[size_t(r.ri(0, long(bad.names.size()) - 1))] += r.pick<std::string>({":", ":x"});
    IO::SaveDataSet(d, f);
    REFUSED("delimiter", IO::SaveDataSet(make(bad), f));
    REFUSED("delimiter", IO::SaveDataSet(make(bad), path("u.root")));
    std::unique_ptr<OXSXDataSet> got(IO::LoadDataSet(f));
    compare(*got, w, "after a refused save");
    AxisCollection ac;
    ac.AddAxis(r.coin() ? BinAxis("a:b", 0, 1, 3) : BinAxis("a", 0, 1, 3, "l:m"));
    REFUSED("delimiter", IO::SaveHistogram(Histogram(ac), f));
    bad = w;
    bad.names.push_back("one_more");
    REFUSED("names", IO::SaveDataSet(make(bad), f));
    break;
  }
  default:
  {
    std::string dirname = path("");
    REFUSED("directory", IO::LoadDataSet(dirname));
    REFUSED("directory", IO::LoadHistogram(dirname));
  }
  }
  c.sig(uint64_t(kind));
}
