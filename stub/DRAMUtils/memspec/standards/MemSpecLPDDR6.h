#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include "../../util/json_utils.h"
#include <cstdint>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR6 {
    uint64_t nbrOfBanks;
    uint64_t nbrOfRows;
    uint64_t nbrOfColumns;
    uint64_t nbrOfDevices;
    uint64_t burstLength;
    uint64_t dataRate;
    uint64_t width;
    uint64_t nbrOfBankGroups;
    uint64_t nbrOfRanks;
    bool WCKalwaysOn;
};
struct MemTimingSpecTypeLPDDR6 {
    uint64_t RAS;
    uint64_t RBTP;
    uint64_t RCD_r;
    uint64_t RCD_w;
    uint64_t REFI;
    uint64_t RFCab;
    uint64_t RFCdb;
    uint64_t RPpb;
    uint64_t WCK2CK;
    uint64_t WL;
    uint64_t WR;
    double tCK;
};
struct MemPowerSpecTypeLPDDR6 {
    std::optional<double> iBeta_vdd1;
    std::optional<double> iBeta_vdd2c;
    std::optional<double> iBeta_vdd2d;
    double idd01;
    double idd02c;
    double idd02d;
    double idd2n1;
    double idd2n2c;
    double idd2n2d;
    double idd2p1;
    double idd2p2c;
    double idd2p2d;
    double idd3n1;
    double idd3n2c;
    double idd3n2d;
    double idd3p1;
    double idd3p2c;
    double idd3p2d;
    double idd4r1;
    double idd4r2c;
    double idd4r2d;
    double idd4w1;
    double idd4w2c;
    double idd4w2d;
    double idd51;
    double idd52c;
    double idd52d;
    double idd5pdb1;
    double idd5pdb2c;
    double idd5pdb2d;
    double idd61;
    double idd62c;
    double idd62d;
    double idd6ds1;
    double idd6ds2c;
    double idd6ds2d;
    double vdd1;
    double vdd2c;
    double vdd2d;
    double vddq;
};
struct BankWiseSpecTypeLPDDR6 {
    std::optional<double> factRho;
};
struct MemImpedanceSpecTypeLPDDR6 {
    bool ck_termination;
    double ck_R_eq;
    double ck_dyn_E;
    bool ca_termination;
    double ca_R_eq;
    double ca_dyn_E;
    bool rdq_termination;
    double rdq_R_eq;
    double rdq_dyn_E;
    bool wdq_termination;
    double wdq_R_eq;
    double wdq_dyn_E;
    bool wck_termination;
    double wck_R_eq;
    double wck_dyn_E;
    bool rdqs_termination;
    double rdqs_R_eq;
    double rdqs_dyn_E;
};
struct MemSpecLPDDR6 {
    static constexpr const char* id = "LPDDR6";
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR6 memarchitecturespec;
    MemPowerSpecTypeLPDDR6 mempowerspec;
    MemTimingSpecTypeLPDDR6 memtimingspec;
    std::optional<BankWiseSpecTypeLPDDR6> bankwisespec;
    MemImpedanceSpecTypeLPDDR6 memimpedancespec;
};
}
