#define VP_LPDDR4
#include "vp.h"
#include <DRAMPower/command/CmdType.h>
using DRAMPower::CmdType;
static const CmdType COMMANDS[] = {CmdType::ACT, CmdType::PRE, CmdType::PREA, CmdType::REFB, CmdType::REFA, CmdType::SREFEN, CmdType::SREFEX, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP};
static bool drives_bus(CmdType c) { return c != CmdType::PDEA && c != CmdType::PDEP && c != CmdType::PDXA && c != CmdType::PDXP; }    // the clock enable pin is not modelled
#include "interface_pins.h"
