#define VP_DDR5
#define VP_BANKS 4
#define VP_GROUPS 2
#include "core_refresh.h"
