#define VP_DDR4
#include "core_restore.h"
