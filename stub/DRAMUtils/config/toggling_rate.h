#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include "../util/json_utils.h"
namespace DRAMUtils::Config {
enum class TogglingRateIdlePattern { L, H, Invalid = -1 };
struct ToggleRateDefinition {
    double togglingRateRead;
    double togglingRateWrite;
    double dutyCycleRead;
    double dutyCycleWrite;
    TogglingRateIdlePattern idlePatternRead;
    TogglingRateIdlePattern idlePatternWrite;
};
}
