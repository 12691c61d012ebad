#define VP_DDR5
#include "interface_energy.h"
