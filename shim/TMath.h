#ifndef OXV_TMATH
#define OXV_TMATH
#include <cmath>
namespace TMath { inline double Pi() { return M_PI; } }
#endif
