#define VP_LPDDR5
#include "interface_energy.h"
