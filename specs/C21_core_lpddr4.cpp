#define VP_LPDDR4
#include "core_restore.h"
