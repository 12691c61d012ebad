#define VP_LPDDR5
#include "memspec.h"
