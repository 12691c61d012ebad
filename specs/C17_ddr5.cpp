#define VP_DDR5
#include "energy.h"
