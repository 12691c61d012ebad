#define VP_LPDDR5
#include "energy.h"
