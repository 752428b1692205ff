// Stand-in for Minuit2: records what the wrapper configured and every point tried, and walks a deterministic coordinate search.
#ifndef OXV_MINUIT
#define OXV_MINUIT
#include <cmath>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>
namespace ROOT { namespace Minuit2 {
class FCNBase { public: virtual ~FCNBase() {} virtual double operator()(const std::vector<double> &) const = 0; virtual double Up() const = 0; virtual void SetErrorDef(double) {} double ErrorDef() const { return Up(); } };
class MnUserCovariance { public: std::vector<double> d;
  const std::vector<double> &Data() const { return d; } unsigned size() const { return d.size(); }
  unsigned Nrow() const { unsigned n = 0; while (n * (n + 1) / 2 < d.size()) ++n; return n; }
  double operator()(unsigned r, unsigned c) const { return r > c ? d.at(c + r * (r + 1) / 2) : d.at(r + c * (c + 1) / 2); } };
class MnStrategy { public: int s; MnStrategy(int i = 1) : s(i) {} unsigned Strategy() const { return s; } };
class MnUserParameters { public:
  std::vector<double> v, e, lo, hi; std::vector<bool> lim, fix; std::vector<std::string> names;
  MnUserParameters() {}
  MnUserParameters(const std::vector<double> &a, const std::vector<double> &b) : v(a), e(b), lo(a.size(), 0), hi(a.size(), 0), lim(a.size(), false), fix(a.size(), false) { for (size_t i = 0; i < a.size(); ++i) names.push_back("p" + std::to_string(i)); if (b.size() != a.size()) abort(); }
  bool Add(const std::string &n, double a, double b) { for (auto &x : names) if (x == n) return false; names.push_back(n); v.push_back(a); e.push_back(b); lo.push_back(0); hi.push_back(0); lim.push_back(false); fix.push_back(false); return true; }
  bool Add(const std::string &n, double a, double b, double l, double h) { if (!Add(n, a, b)) return false; SetLimits(names.size() - 1, l, h); return true; }
  unsigned Index(const std::string &n) const { for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return i; abort(); }
  void SetLimits(unsigned i, double a, double b) { lo.at(i) = a; hi.at(i) = b; lim.at(i) = true; }
  void SetLimits(const std::string &n, double a, double b) { SetLimits(Index(n), a, b); }
  void RemoveLimits(unsigned i) { lim.at(i) = false; } void SetValue(unsigned i, double x) { v.at(i) = x; } void SetError(unsigned i, double x) { e.at(i) = x; }
  void Fix(unsigned i) { fix.at(i) = true; } void Fix(const std::string &n) { Fix(Index(n)); } void Release(unsigned i) { fix.at(i) = false; } void Release(const std::string &n) { Release(Index(n)); } };
class FunctionMinimum { public: double f; MnUserCovariance c; bool ok; double Fval() const { return f; } bool IsValid() const { return ok; } MnUserCovariance UserCovariance() const { return c; } };
struct Record { std::string method; std::vector<double> init, err, lo, hi, fin; std::vector<bool> lim, fixed; int strategy = -1; unsigned maxcalls = 0; double tol = 0, up = 0, fval = 0; std::vector<double> cov; std::vector<std::pair<std::vector<double>, double>> tried; int runs = 0; };
inline Record &last() { static Record r; return r; }
struct Script { bool ok = true; int rounds = 60; std::vector<double> cov; }; // what the next fit reports: validity, and covariance values to take (1, 2, 3... if none)
inline Script &next() { static Script s; return s; }
class MnApplication { public:
  const FCNBase &fcn; MnUserParameters p; std::string method; int strat;
  MnApplication(const FCNBase &f, const MnUserParameters &q, const MnStrategy &s, const std::string &m) : fcn(f), p(q), method(m), strat(s.s) {}
  virtual ~MnApplication() {}
  void Fix(unsigned i) { p.Fix(i); } void Fix(const std::string &n) { p.Fix(n); } void Release(unsigned i) { p.Release(i); }
  void SetLimits(unsigned i, double a, double b) { p.SetLimits(i, a, b); } void SetValue(unsigned i, double a) { p.SetValue(i, a); } void SetError(unsigned i, double a) { p.SetError(i, a); }
  double Value(unsigned i) const { return p.v.at(i); }
  std::vector<double> Params() const { return p.v; } std::vector<double> Errors() const { return p.e; }
  FunctionMinimum operator()(unsigned maxcalls = 0, double tol = 0.1) {
    Record &r = last(); int runs = r.runs; r = Record(); r.runs = runs + 1; r.method = method; r.init = p.v; r.err = p.e; r.lo = p.lo; r.hi = p.hi; r.lim = p.lim; r.fixed = p.fix; r.strategy = strat; r.maxcalls = maxcalls; r.tol = tol; r.up = fcn.Up();
    auto ask = [&](const std::vector<double> &x) { r.tried.push_back({x, 0}); double f = fcn(x); r.tried.back().second = f; return f; };
    double best = ask(p.v); std::vector<double> step = p.e;
    for (int it = 0; it < next().rounds; ++it) {
      bool moved = false;
      for (size_t i = 0; i < p.v.size(); ++i) { if (p.fix[i]) continue;
        for (int sgn = -1; sgn <= 1; sgn += 2) { std::vector<double> t = p.v; t[i] += sgn * step[i];
          if (p.lim[i]) { if (t[i] < p.lo[i]) t[i] = p.lo[i]; if (t[i] > p.hi[i]) t[i] = p.hi[i]; }
          double f = ask(t); if (f < best) { best = f; p.v = t; moved = true; } } }
      if (!moved) for (auto &s : step) s /= 2;
    }
    size_t nf = 0; for (bool b : p.fix) nf += !b;
    FunctionMinimum m; m.f = r.fval = best; m.ok = next().ok;
    for (size_t k = 0; k < nf * (nf + 1) / 2; ++k) m.c.d.push_back(k < next().cov.size() ? next().cov[k] : 1 + k);
    r.cov = m.c.d; r.fin = p.v; return m; } };
class MnMigrad : public MnApplication { public: MnMigrad(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s) : MnApplication(f, p, s, "Migrad") {} };
class MnMinimize : public MnApplication { public: MnMinimize(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s) : MnApplication(f, p, s, "Minimize") {} };
class MnSimplex : public MnApplication { public: MnSimplex(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s) : MnApplication(f, p, s, "Simplex") {} };
} }
#endif
