#define VP_LPDDR5
#include "vp.h"
#include <DRAMPower/command/CmdType.h>
using DRAMPower::CmdType;
static const CmdType COMMANDS[] = {CmdType::ACT, CmdType::PRE, CmdType::PREA, CmdType::REFB, CmdType::REFA, CmdType::SREFEN, CmdType::SREFEX, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP, CmdType::DSMEN, CmdType::DSMEX};
static bool drives_bus(CmdType) { return true; }
#include "interface_pins.h"
