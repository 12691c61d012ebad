#define VP_DDR4
#include "core_refresh.h"
