// Stand-ins for the ROOT histogram classes (bins 1..n, under/overflow in 0 and n+1, as in ROOT).
#ifndef OXV_ROOT_HIST
#define OXV_ROOT_HIST
#include <algorithm>
#include <map>
#include <string>
#include <vector>
class TAxis {
public:
  std::vector<double> e; std::string t;
  void SetTitle(const char *s) { t = s; } const char *GetTitle() const { return t.c_str(); }
  double GetBinLowEdge(int i) const { return e.at(i - 1); } double GetBinUpEdge(int i) const { return e.at(i); }
  double GetBinWidth(int i) const { return e.at(i) - e.at(i - 1); }
  int GetNbins() const { return int(e.size()) - 1; }
  double GetXmin() const { return e.front(); } double GetXmax() const { return e.back(); }
  double GetBinCenter(int i) const { return 0.5 * (e.at(i - 1) + e.at(i)); }
  int FindBin(double x) const { return Find(x); }
  int Find(double x) const { if (x < e.front()) return 0; if (!(x < e.back())) return int(e.size()); return int(std::upper_bound(e.begin(), e.end(), x) - e.begin()); }
  static std::vector<double> eq(int n, double a, double b) { std::vector<double> r; for (int i = 0; i <= n; ++i) r.push_back(i == n ? b : a + (b - a) * i / n); return r; }
};
class TH1 {
public:
  TAxis ax[3]; int nd = 1; std::vector<double> c; std::string name;
  void init() { size_t n = 1; for (int i = 0; i < nd; ++i) n *= ax[i].e.size() + 1; c.assign(n, 0); }
  TAxis *GetXaxis() { return &ax[0]; } const TAxis *GetXaxis() const { return &ax[0]; }
  TAxis *GetYaxis() { return &ax[1]; } const TAxis *GetYaxis() const { return &ax[1]; }
  TAxis *GetZaxis() { return &ax[2]; } const TAxis *GetZaxis() const { return &ax[2]; }
  int GetNbinsX() const { return ax[0].GetNbins(); } int GetNbinsY() const { return ax[1].GetNbins(); } int GetNbinsZ() const { return ax[2].GetNbins(); }
  int GetBin(int i, int j = 0, int k = 0) const { int nx = GetNbinsX() + 2, ny = nd > 1 ? GetNbinsY() + 2 : 1; return i + nx * (j + ny * k); }
  double GetBinContent(int b) const { return c.at(b); }
  double GetBinContent(int i, int j) const { return c.at(GetBin(i, j)); } double GetBinContent(int i, int j, int k) const { return c.at(GetBin(i, j, k)); }
  void AddBinContent(int b, double v) { c.at(b) += v; } int GetDimension() const { return nd; } int GetNcells() const { return int(c.size()); }
  int FindBin(double x, double y = 0, double z = 0) const { return GetBin(ax[0].Find(x), nd > 1 ? ax[1].Find(y) : 0, nd > 2 ? ax[2].Find(z) : 0); }
  void SetBinContent(int b, double v) { c.at(b) = v; }
  void SetBinContent(int i, int j, double v) { c.at(GetBin(i, j)) = v; }
  void SetBinContent(int i, int j, int k, double v) { c.at(GetBin(i, j, k)) = v; }
  void SetDirectory(void *) {} void SetName(const char *n) { name = n; }
  static std::map<std::string, TH1> &saved() { static std::map<std::string, TH1> s; return s; }
  void SaveAs(const char *f) const { saved()[f] = *this; }
};
class TH1D : public TH1 { public:
  TH1D(const char *, const char *, int n, const double *e) { ax[0].e.assign(e, e + n + 1); init(); }
  TH1D(const char *, const char *, int n, double a, double b) { ax[0].e = TAxis::eq(n, a, b); init(); }
  void Fill(double x, double w = 1) { c.at(ax[0].Find(x)) += w; } };
class TH2D : public TH1 { public:
  TH2D(const char *, const char *, int n, const double *e, int m, const double *f) { nd = 2; ax[0].e.assign(e, e + n + 1); ax[1].e.assign(f, f + m + 1); init(); }
  TH2D(const char *, const char *, int n, double a, double b, int m, double p, double q) { nd = 2; ax[0].e = TAxis::eq(n, a, b); ax[1].e = TAxis::eq(m, p, q); init(); }
  void Fill(double x, double y, double w = 1) { c.at(GetBin(ax[0].Find(x), ax[1].Find(y))) += w; } };
class TH3D : public TH1 { public:
  TH3D(const char *, const char *, int n, const double *e, int m, const double *f, int l, const double *g) { nd = 3; ax[0].e.assign(e, e + n + 1); ax[1].e.assign(f, f + m + 1); ax[2].e.assign(g, g + l + 1); init(); }
  void Fill(double x, double y, double z, double w) { c.at(GetBin(ax[0].Find(x), ax[1].Find(y), ax[2].Find(z))) += w; } };
#endif
