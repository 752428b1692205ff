// A test statistic that computes a given function of its parameters and records every evaluation.
#ifndef OXV_RECSTAT_H
#define OXV_RECSTAT_H
#include "gen.h"
#include <Exceptions.h>
#include <FitResult.h>
#include <TestStatistic.h>

namespace oxv
{
struct RecStat : public TestStatistic
{
  ParameterDict p;
  std::function<double(const ParameterDict &)> f;
  std::vector<std::pair<ParameterDict, double>> evals;
  bool recording = true;
  uint64_t regs = 0, sets = 0, total = 0;
  RecStat() {}
  RecStat(const std::vector<std::string> &names, std::function<double(const ParameterDict &)> fn) : f(fn)
  {
    for (auto &n : names)
      p[n] = 0;
  }
  double Evaluate() override
  {
    double v = f(p);
    ++total;
    if (recording)
      evals.emplace_back(p, v);
    return v;
  }
  void SetParameters(const ParameterDict &d) override
  {
    ++sets;
    for (auto &x : p)
      if (!d.count(x.first))
        throw ParameterError("RecStat: missing " + x.first);
    for (auto &x : p)
      x.second = d.at(x.first);
  }
  ParameterDict GetParameters() const override { return p; }
  size_t GetParameterCount() const override { return p.size(); }
  std::set<std::string> GetParameterNames() const override
  {
    std::set<std::string> s;
    for (auto &x : p)
      s.insert(x.first);
    return s;
  }
  void RegisterFitComponents() override { ++regs; }
};

inline std::string str(const ParameterDict &d)
{
  std::ostringstream o;
  o.precision(17);
  o << "{";
  for (auto &x : d)
    o << x.first << ":" << x.second << " ";
  o << "}";
  return o.str();
}
} // namespace oxv
#endif
