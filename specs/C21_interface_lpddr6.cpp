#define VP_LPDDR6
#define VP_WIDTH 12
#include "interface_restore.h"
