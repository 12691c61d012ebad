#define VP_LPDDR4
#include "core_commands.h"
