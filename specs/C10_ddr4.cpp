#define VP_DDR4
#include "core_commands.h"
