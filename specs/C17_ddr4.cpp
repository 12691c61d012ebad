#define VP_DDR4
#include "energy.h"
