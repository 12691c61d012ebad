// Commands: names, classification, construction and conversion
#include "vp.h"
#include <string_view>
#include <DRAMPower/command/CmdType.h>
#include <DRAMPower/command/Command.h>
#include <DRAMPower/command/Command.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.cpp>
#include VP_GEN
using namespace DRAMPower;

static const char* spelling(CmdType c) {
    switch (c) {
    case CmdType::NOP: return "NOP";
    case CmdType::RD: return "RD";
    case CmdType::WR: return "WR";
    case CmdType::RDA: return "RDA";
    case CmdType::WRA: return "WRA";
    case CmdType::ACT: return "ACT";
    case CmdType::PRE: return "PRE";
    case CmdType::REFB: return "REFB";
    case CmdType::REFP2B: return "REFP2B";
    case CmdType::REFDB: return "REFDB";
    case CmdType::PRESB: return "PRESB";
    case CmdType::REFSB: return "REFSB";
    case CmdType::PREA: return "PREA";
    case CmdType::REFA: return "REFA";
    case CmdType::PDEA: return "PDEA";
    case CmdType::PDEP: return "PDEP";
    case CmdType::PDXA: return "PDXA";
    case CmdType::PDXP: return "PDXP";
    case CmdType::SREFEN: return "SREFEN";
    case CmdType::SREFEX: return "SREFEX";
    case CmdType::DSMEN: return "DSMEN";
    case CmdType::DSMEX: return "DSMEX";
    case CmdType::END_OF_SIMULATION: return "END";
    default: return "NOP";
    }
}
// every spelling is read as the command it stands for, and the commands are printed with the spelling that is read
void vp_lemma_names() {
    CmdType c = vp::any<CmdType>("c");
    vp::requires_(static_cast<std::size_t>(c) < static_cast<std::size_t>(CmdType::COUNT));
    vp::ensures(CmdTypeUtil::from_string(spelling(c)) == c, "the trace spelling of a command is read as that command");
    if (c != CmdType::END_OF_SIMULATION)
        vp::ensures(std::string_view(CmdTypeUtil::to_string(c)) == spelling(c), "a command is printed with its trace spelling");
    if (c != CmdType::END_OF_SIMULATION)
        vp::ensures(CmdTypeUtil::from_string(CmdTypeUtil::to_string(c)) == c, "printing and reading a command returns it");
}
// nothing else is read as a command
void vp_lemma_unknown_names() {
    std::string s = vp::any<std::string>("s");
    CmdType c = CmdTypeUtil::from_string(s);
    vp::ensures(static_cast<std::size_t>(c) < static_cast<std::size_t>(CmdType::COUNT), "reading gives a defined command");
    vp::ensures(c == CmdType::NOP || s == spelling(c), "only the exact spelling of a command is read as that command");
}
void vp_lemma_unknown_names_near() {
    // a spelling with anything appended or put in front is not the command
    CmdType c = vp::any<CmdType>("c");
    vp::requires_(static_cast<std::size_t>(c) < static_cast<std::size_t>(CmdType::COUNT));
    vp::ensures(CmdTypeUtil::from_string("") == CmdType::NOP, "the empty spelling is no command");
    vp::ensures(CmdTypeUtil::from_string("end") == CmdType::NOP && CmdTypeUtil::from_string("act") == CmdType::NOP && CmdTypeUtil::from_string("REFAB") == CmdType::NOP, "similar spellings are no command");
}
void vp_lemma_needs_data() {
    CmdType c = vp::any<CmdType>("c");
    vp::ensures(CmdTypeUtil::needs_data(c) == (c == CmdType::RD || c == CmdType::RDA || c == CmdType::WR || c == CmdType::WRA), "exactly reads and writes carry data");
}
void vp_lemma_coordinate() {
    auto b = vp::any<std::size_t>("b"), g = vp::any<std::size_t>("g"), k = vp::any<std::size_t>("k"), r = vp::any<std::size_t>("r"), c = vp::any<std::size_t>("c");
    TargetCoordinate z, t3(b, g, k), t4(b, g, k, r), t5(b, g, k, r, c);
    vp::ensures(z.bank == 0 && z.bankGroup == 0 && z.rank == 0 && z.row == 0 && z.column == 0, "a default coordinate is all zero");
    vp::ensures(t3.bank == b && t3.bankGroup == g && t3.rank == k && t3.row == 0 && t3.column == 0, "bank, bank group and rank are kept");
    vp::ensures(t4.bank == b && t4.bankGroup == g && t4.rank == k && t4.row == r && t4.column == 0, "row is kept");
    vp::ensures(t5.bank == b && t5.bankGroup == g && t5.rank == k && t5.row == r && t5.column == c, "column is kept");
}

void vp_lemma_command() {
    auto t = vp::any<timestamp_t>("t");
    auto ty = vp::any<CmdType>("ty");
    auto tc = vp::any<TargetCoordinate>("tc");
    auto n = vp::any<std::size_t>("n");
    std::vector<uint8_t> bytes(8); const uint8_t* payload = bytes.data();
    Command c(t, ty, tc, payload, n);
    vp::ensures(c.timestamp == t && c.type == ty && c.data == payload && c.sz_bits == n, "time, type and data of a command are kept");
    vp::ensures(c.targetCoordinate.bank == tc.bank && c.targetCoordinate.bankGroup == tc.bankGroup && c.targetCoordinate.rank == tc.rank
                && c.targetCoordinate.row == tc.row && c.targetCoordinate.column == tc.column, "coordinate of a command is kept");
    Command d(t, ty);
    vp::ensures(d.timestamp == t && d.type == ty && d.data == nullptr && d.sz_bits == 0 && d.targetCoordinate.bank == 0 && d.targetCoordinate.rank == 0, "defaults of a command");
}
void vp_lemma_lpddr6_conversion() {
    auto t = vp::any<timestamp_t>("t");
    auto ty = vp::any<CmdType>("ty");
    vp::requires_(static_cast<std::size_t>(ty) < static_cast<std::size_t>(CmdType::COUNT));
    auto tc = vp::any<TargetCoordinate>("tc");
    vp::requires_(tc.bank < (std::size_t(1) << 62));
    auto n = vp::any<std::size_t>("n");
    std::vector<uint8_t> bytes(8); const uint8_t* payload = bytes.data();
    Command c(t, ty, tc, payload, n);
    LPDDR6Command l(c);
    vp::ensures(l.timestamp == t && l.type == ty && l.data == payload && l.sz_bits == n, "conversion keeps time, type and data");
    vp::ensures(l.targetCoordinate.bank == tc.bank && l.targetCoordinate.bankGroup == tc.bankGroup && l.targetCoordinate.rank == tc.rank
                && l.targetCoordinate.row == tc.row && l.targetCoordinate.column == tc.column, "conversion keeps the coordinate");
    vp::ensures(l.targetCoordinate.subChannel == 0, "conversion selects the first sub-channel");
    vp::ensures(l.targetCoordinate.dbank < 16, "the partner bank is a bank");
    if (tc.bank < 16) {
        vp::ensures(l.targetCoordinate.dbank == (tc.bank < 8 ? tc.bank + 8 : tc.bank - 8), "the partner bank is half the banks away");
        TargetCoordinate back = tc;
        back.bank = l.targetCoordinate.dbank;
        vp::ensures(LPDDR6TargetCoordinate(back).dbank == tc.bank, "pairing of banks is mutual");
    }
}
void vp_lemma_lpddr6_command() {
    auto t = vp::any<timestamp_t>("t");
    auto ty = vp::any<CmdType>("ty");
    auto tc = vp::any<LPDDR6TargetCoordinate>("tc");
    auto n = vp::any<std::size_t>("n");
    std::vector<uint8_t> bytes(8); const uint8_t* payload = bytes.data();
    LPDDR6Command c(t, ty, tc, payload, n);
    vp::ensures(c.timestamp == t && c.type == ty && c.data == payload && c.sz_bits == n, "time, type and data of a command are kept");
    vp::ensures(c.targetCoordinate.bank == tc.bank && c.targetCoordinate.dbank == tc.dbank && c.targetCoordinate.bankGroup == tc.bankGroup && c.targetCoordinate.rank == tc.rank
                && c.targetCoordinate.row == tc.row && c.targetCoordinate.column == tc.column && c.targetCoordinate.subChannel == tc.subChannel, "coordinate of a command is kept");
}
