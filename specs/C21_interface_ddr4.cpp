#define VP_DDR4
#include "interface_restore.h"
