#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include "../../util/json_utils.h"
#include <cstdint>
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR4 { REF_MODE_1 = 1, REF_MODE_2 = 2, REF_MODE_4 = 4, INVALID = -1 };
struct MemArchitectureSpecTypeDDR4 {
    uint64_t nbrOfBanks;
    uint64_t nbrOfRows;
    uint64_t nbrOfColumns;
    uint64_t nbrOfDevices;
    uint64_t burstLength;
    uint64_t dataRate;
    uint64_t width;
    uint64_t nbrOfBankGroups;
    uint64_t nbrOfRanks;
    RefModeTypeDDR4 RefMode;
};
struct MemTimingSpecTypeDDR4 {
    uint64_t AL;
    uint64_t RAS;
    uint64_t RCD;
    uint64_t RFC1;
    uint64_t RFC2;
    uint64_t RFC4;
    uint64_t RP;
    uint64_t RTP;
    uint64_t WL;
    uint64_t WR;
    double tCK;
};
struct MemPowerSpecTypeDDR4 {
    std::optional<double> iBeta_vdd;
    std::optional<double> iBeta_vpp;
    double idd0;
    double idd2n;
    double idd2p;
    double idd3n;
    double idd3p;
    double idd4r;
    double idd4w;
    double idd5B;
    double idd5F2;
    double idd5F4;
    double idd6n;
    double ipp0;
    double ipp2n;
    double ipp2p;
    double ipp3n;
    double ipp3p;
    double ipp4r;
    double ipp4w;
    double ipp5B;
    double ipp5F2;
    double ipp5F4;
    double ipp6n;
    double vdd;
    double vddq;
    double vpp;
};
struct BankWiseSpecTypeDDR4 {
    std::optional<double> factRho;
};
struct MemImpedanceSpecTypeDDR4 {
    bool ck_termination;
    double ck_R_eq;
    double ck_dyn_E;
    bool ca_termination;
    double ca_R_eq;
    double ca_dyn_E;
    bool rdq_termination;
    double rdq_R_eq;
    double rdq_dyn_E;
    bool wdq_termination;
    double wdq_R_eq;
    double wdq_dyn_E;
    bool wdqs_termination;
    double wdqs_R_eq;
    double wdqs_dyn_E;
    bool rdqs_termination;
    double rdqs_R_eq;
    double rdqs_dyn_E;
    bool wdbi_termination;
    double wdbi_R_eq;
    double wdbi_dyn_E;
    bool rdbi_termination;
    double rdbi_R_eq;
    double rdbi_dyn_E;
};
struct PrePostambleTypeDDR4 {
    double read_zeroes;
    double write_zeroes;
    double read_ones;
    double write_ones;
    uint64_t read_zeroes_to_ones;
    uint64_t write_zeroes_to_ones;
    uint64_t read_ones_to_zeroes;
    uint64_t write_ones_to_zeroes;
    uint64_t readMinTccd;
    uint64_t writeMinTccd;
};
struct MemSpecDDR4 {
    static constexpr const char* id = "DDR4";
    std::string memoryId;
    MemArchitectureSpecTypeDDR4 memarchitecturespec;
    MemPowerSpecTypeDDR4 mempowerspec;
    MemTimingSpecTypeDDR4 memtimingspec;
    std::optional<BankWiseSpecTypeDDR4> bankwisespec;
    MemImpedanceSpecTypeDDR4 memimpedancespec;
    PrePostambleTypeDDR4 prepostamble;
};
}
