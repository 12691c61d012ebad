#define VP_DDR5
#include "memspec.h"
