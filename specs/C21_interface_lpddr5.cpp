#define VP_LPDDR5
#include "interface_restore.h"
