#define VP_LPDDR6
#include "interface_energy.h"
