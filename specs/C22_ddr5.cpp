#define VP_DDR5
#include "vp.h"
#include <DRAMPower/command/CmdType.h>
using DRAMPower::CmdType;
static const CmdType COMMANDS[] = {CmdType::NOP, CmdType::ACT, CmdType::PRE, CmdType::PRESB, CmdType::REFSB, CmdType::REFA, CmdType::PREA, CmdType::SREFEN, CmdType::SREFEX, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP};
static bool drives_bus(CmdType) { return true; }
#include "interface_pins.h"
