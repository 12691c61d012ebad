#define VP_DDR4
#include "core_accounting.h"
