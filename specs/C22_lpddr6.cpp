#define VP_LPDDR6
#include "vp.h"
#include <DRAMPower/command/CmdType.h>
using DRAMPower::CmdType;
static const CmdType COMMANDS[] = {CmdType::NOP, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP, CmdType::SREFEN, CmdType::SREFEX, CmdType::PRE, CmdType::PREA, CmdType::REFDB, CmdType::REFA, CmdType::ACT};
static bool drives_bus(CmdType) { return true; }
#include "interface_pins.h"
