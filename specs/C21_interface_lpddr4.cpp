#define VP_LPDDR4
#include "interface_restore.h"
