#define VP_LPDDR5
#include "core_powerdown.h"
