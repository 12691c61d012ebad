#define VP_DDR4
#include "memspec.h"
