#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include "../../util/json_utils.h"
#include <cstdint>
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR5 { REF_MODE_1 = 1, REF_MODE_2 = 2, INVALID = -1 };
struct MemArchitectureSpecTypeDDR5 {
    uint64_t nbrOfBanks;
    uint64_t nbrOfRows;
    uint64_t nbrOfColumns;
    uint64_t nbrOfDevices;
    uint64_t burstLength;
    uint64_t dataRate;
    uint64_t width;
    uint64_t nbrOfBankGroups;
    uint64_t nbrOfRanks;
    RefModeTypeDDR5 RefMode;
};
struct MemTimingSpecTypeDDR5 {
    uint64_t RAS;
    uint64_t RCD;
    uint64_t RFC1_slr;
    uint64_t RFC2_slr;
    uint64_t RFCsb_slr;
    uint64_t RP;
    uint64_t RTP;
    uint64_t WL;
    uint64_t WR;
    double tCK;
};
struct MemPowerSpecTypeDDR5 {
    std::optional<double> iBeta_vdd;
    std::optional<double> iBeta_vpp;
    double idd0;
    double idd2n;
    double idd2p;
    double idd3n;
    double idd3p;
    double idd4r;
    double idd4w;
    double idd5b;
    double idd5c;
    double idd5f;
    double idd6n;
    double ipp0;
    double ipp2n;
    double ipp2p;
    double ipp3n;
    double ipp3p;
    double ipp4r;
    double ipp4w;
    double ipp5b;
    double ipp5c;
    double ipp5f;
    double ipp6n;
    double vdd;
    double vddq;
    double vpp;
};
struct BankWiseSpecTypeDDR5 {
    std::optional<double> factRho;
};
struct MemImpedanceSpecTypeDDR5 {
    bool ck_termination;
    double ck_R_eq;
    double ck_dyn_E;
    bool ca_termination;
    double ca_R_eq;
    double ca_dyn_E;
    bool rdq_termination;
    double rdq_R_eq;
    double rdq_dyn_E;
    bool wdq_termination;
    double wdq_R_eq;
    double wdq_dyn_E;
    bool wdqs_termination;
    double wdqs_R_eq;
    double wdqs_dyn_E;
    bool rdqs_termination;
    double rdqs_R_eq;
    double rdqs_dyn_E;
};
struct DataRateSpecTypeDDR5 {
    uint64_t ca_bus_rate;
    uint64_t dq_bus_rate;
    uint64_t dqs_bus_rate;
};
struct MemSpecDDR5 {
    static constexpr const char* id = "DDR5";
    std::string memoryId;
    MemArchitectureSpecTypeDDR5 memarchitecturespec;
    MemPowerSpecTypeDDR5 mempowerspec;
    MemTimingSpecTypeDDR5 memtimingspec;
    std::optional<BankWiseSpecTypeDDR5> bankwisespec;
    MemImpedanceSpecTypeDDR5 memimpedancespec;
    std::optional<DataRateSpecTypeDDR5> dataratespec;
};
}
