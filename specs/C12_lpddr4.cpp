#define VP_LPDDR4
#include "core_powerdown.h"
