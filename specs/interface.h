// An interface of one of the standards (C21, C22), built from an arbitrary description of a memory of one device with VP_WIDTH data pins.
// The includer defines one of VP_DDR4 VP_DDR5 VP_LPDDR4 VP_LPDDR5 VP_LPDDR6.
#pragma once
#include "vp.h"
#include <sstream>
#include <iterator>
#include <numeric>
#include <cassert>
#include <DRAMPower/command/Command.cpp>
#include <DRAMPower/command/Pattern.cpp>
#include <DRAMPower/dram/Interface.cpp>
#include <DRAMPower/dram/Rank.cpp>
#if defined VP_DDR4
#include <DRAMPower/memspec/MemSpecDDR4.cpp>
#include <DRAMPower/standards/ddr4/DDR4Interface.cpp>
#elif defined VP_DDR5
#include <DRAMPower/memspec/MemSpecDDR5.cpp>
#include <DRAMPower/standards/ddr5/DDR5Interface.cpp>
#elif defined VP_LPDDR4
#include <DRAMPower/memspec/MemSpecLPDDR4.cpp>
#include <DRAMPower/standards/lpddr4/LPDDR4Interface.cpp>
#elif defined VP_LPDDR5
#include <DRAMPower/memspec/MemSpecLPDDR5.cpp>
#include <DRAMPower/standards/lpddr5/LPDDR5Interface.cpp>
#elif defined VP_LPDDR6
#include <DRAMPower/memspec/MemSpecLPDDR6.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Interface.cpp>
#endif
#include VP_GEN
using namespace DRAMPower;
using stats = util::bus_stats_t;
constexpr uint64_t LATE = uint64_t(1) << 40;
#ifndef VP_WIDTH
#define VP_WIDTH 8
#endif
struct Std {
#if defined VP_DDR4
    using Interface = DDR4Interface; using Spec = MemSpecDDR4; using Raw = DRAMUtils::MemSpec::MemSpecDDR4; using Cmd = Command;
#elif defined VP_DDR5
    using Interface = DDR5Interface; using Spec = MemSpecDDR5; using Raw = DRAMUtils::MemSpec::MemSpecDDR5; using Cmd = Command;
#elif defined VP_LPDDR4
    using Interface = LPDDR4Interface; using Spec = MemSpecLPDDR4; using Raw = DRAMUtils::MemSpec::MemSpecLPDDR4; using Cmd = Command;
#elif defined VP_LPDDR5
    using Interface = LPDDR5Interface; using Spec = MemSpecLPDDR5; using Raw = DRAMUtils::MemSpec::MemSpecLPDDR5; using Cmd = Command;
#elif defined VP_LPDDR6
    using Interface = LPDDR6Interface; using Spec = MemSpecLPDDR6; using Raw = DRAMUtils::MemSpec::MemSpecLPDDR6; using Cmd = LPDDR6Command;
#endif
};
inline Std::Raw description() {
    auto w = vp::any<Std::Raw>("spec");
    auto& a = w.memarchitecturespec;
    a.nbrOfBanks = 8; a.nbrOfRanks = 1; a.nbrOfBankGroups = 2; a.nbrOfDevices = 1;
    a.width = VP_WIDTH; a.dataRate = 2; a.burstLength = 16;
#if defined VP_LPDDR5
    w.memtimingspec.WCK2CK = 4;
#elif defined VP_LPDDR6
    w.memtimingspec.WCK2CK = 2;
#endif
#if defined VP_LPDDR4
    w.bankwisespec.reset();
#endif
    return w;
}
