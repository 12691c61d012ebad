#define VP_LPDDR6
#include "core_selfrefresh.h"
