#define VP_DDR4
#include "core_selfrefresh.h"
