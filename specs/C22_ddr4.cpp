#define VP_DDR4
#include "vp.h"
#include <DRAMPower/command/CmdType.h>
using DRAMPower::CmdType;
static const CmdType COMMANDS[] = {CmdType::ACT, CmdType::PRE, CmdType::PREA, CmdType::REFA, CmdType::SREFEN, CmdType::SREFEX, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP};
static bool drives_bus(CmdType) { return true; }
#include "interface_pins.h"
