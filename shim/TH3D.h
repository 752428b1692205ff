#include "oxv_root_hist.h"
