#define VP_DDR4
#include "interface_energy.h"
