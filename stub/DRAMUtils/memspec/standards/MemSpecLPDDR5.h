#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include "../../util/json_utils.h"
#include <cstdint>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR5 {
    uint64_t nbrOfBanks;
    uint64_t nbrOfRows;
    uint64_t nbrOfColumns;
    uint64_t nbrOfDevices;
    uint64_t burstLength;
    uint64_t dataRate;
    uint64_t width;
    uint64_t nbrOfBankGroups;
    uint64_t nbrOfRanks;
    bool WCKalwaysOn;
};
struct MemTimingSpecTypeLPDDR5 {
    uint64_t RAS;
    uint64_t RBTP;
    uint64_t RCD_S;
    uint64_t REFI;
    uint64_t RFCab;
    uint64_t RFCpb;
    uint64_t RPpb;
    uint64_t WCK2CK;
    uint64_t WL;
    uint64_t WR;
    double tCK;
};
struct MemPowerSpecTypeLPDDR5 {
    std::optional<double> iBeta_vdd1;
    std::optional<double> iBeta_vdd2h;
    std::optional<double> iBeta_vdd2l;
    double idd01;
    double idd02h;
    double idd02l;
    double idd2n1;
    double idd2n2h;
    double idd2n2l;
    double idd2p1;
    double idd2p2h;
    double idd2p2l;
    double idd3n1;
    double idd3n2h;
    double idd3n2l;
    double idd3p1;
    double idd3p2h;
    double idd3p2l;
    double idd4r1;
    double idd4r2h;
    double idd4r2l;
    double idd4w1;
    double idd4w2h;
    double idd4w2l;
    double idd51;
    double idd52h;
    double idd52l;
    double idd5pb1;
    double idd5pb2h;
    double idd5pb2l;
    double idd61;
    double idd62h;
    double idd62l;
    double idd6ds1;
    double idd6ds2h;
    double idd6ds2l;
    double vdd1;
    double vdd2h;
    double vdd2l;
    double vddq;
};
struct BankWiseSpecTypeLPDDR5 {
    std::optional<double> factRho;
};
struct MemImpedanceSpecTypeLPDDR5 {
    bool ck_termination;
    double ck_R_eq;
    double ck_dyn_E;
    bool ca_termination;
    double ca_R_eq;
    double ca_dyn_E;
    bool rdq_termination;
    double rdq_R_eq;
    double rdq_dyn_E;
    bool wdq_termination;
    double wdq_R_eq;
    double wdq_dyn_E;
    bool wck_termination;
    double wck_R_eq;
    double wck_dyn_E;
    bool rdqs_termination;
    double rdqs_R_eq;
    double rdqs_dyn_E;
    bool wdbi_termination;
    double wdbi_R_eq;
    double wdbi_dyn_E;
    bool rdbi_termination;
    double rdbi_R_eq;
    double rdbi_dyn_E;
};
struct MemSpecLPDDR5 {
    static constexpr const char* id = "LPDDR5";
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR5 memarchitecturespec;
    MemPowerSpecTypeLPDDR5 mempowerspec;
    MemTimingSpecTypeLPDDR5 memtimingspec;
    std::optional<BankWiseSpecTypeLPDDR5> bankwisespec;
    MemImpedanceSpecTypeLPDDR5 memimpedancespec;
};
}
