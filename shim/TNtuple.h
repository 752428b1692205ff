#include "oxv_root_mem.h"
