#define VP_LPDDR5
#define VP_PAIR
#define VP_BANKS 16
#define VP_RANKS 1
#define VP_GROUPS 1
#include "core_refresh.h"
