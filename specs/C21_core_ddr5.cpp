#define VP_DDR5
#include "core_restore.h"
