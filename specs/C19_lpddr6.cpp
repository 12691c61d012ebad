#define VP_LPDDR6
#include "memspec.h"
