#define VP_LPDDR4
#include "interface_energy.h"
