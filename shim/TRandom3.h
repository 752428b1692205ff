// Stand-in for ROOT's TRandom3: deterministic, scriptable (see oxv_shim::rndm_hook).
#ifndef OXV_TRANDOM3
#define OXV_TRANDOM3
#include <cmath>
#include <functional>
#include <random>
namespace oxv_shim {
// when set, supplies every uniform deviate (must be in (0,1), as TRandom3::Rndm promises)
inline std::function<double()> &rndm_hook() { static std::function<double()> h; return h; }
inline unsigned long &rndm_calls() { static unsigned long n = 0; return n; }
}
class TRandom3 {
public:
  TRandom3(unsigned seed = 4357) : fSeed(seed), fGen(seed) {}
  void SetSeed(unsigned s = 0) { fSeed = s; fGen.seed(s); }
  unsigned GetSeed() const { return fSeed; }
  double Rndm() {
    ++oxv_shim::rndm_calls();
    if (oxv_shim::rndm_hook()) return oxv_shim::rndm_hook()();
    double u;
    do u = (fGen() >> 11) * (1.0 / 9007199254740992.0); while (u <= 0);
    return u;
  }
  double Gaus(double m = 0, double s = 1) {
    double u1 = Rndm(), u2 = Rndm();
    return m + s * std::sqrt(-2 * std::log(u1)) * std::cos(2 * 3.14159265358979323846 * u2);
  }
  int Poisson(double mean) {
    if (!(mean > 0)) return 0;
    if (mean > 60) { int n = int(std::floor(Gaus(mean, std::sqrt(mean)) + 0.5)); return n < 0 ? 0 : n; }
    double L = std::exp(-mean), p = 1; int k = 0;
    do { ++k; p *= Rndm(); } while (p > L);
    return k - 1;
  }
private:
  unsigned fSeed;
  std::mt19937_64 fGen;
};
#endif
