#include "oxv_minuit.h"
