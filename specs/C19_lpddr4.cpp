#define VP_LPDDR4
#include "memspec.h"
