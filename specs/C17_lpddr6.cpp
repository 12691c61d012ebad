#define VP_LPDDR6
#include "energy.h"
