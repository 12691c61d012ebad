#define VP_DDR4
#include "core_powerdown.h"
