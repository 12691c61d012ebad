#define VP_LPDDR4
#include "energy.h"
