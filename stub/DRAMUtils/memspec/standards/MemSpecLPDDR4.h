#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include "../../util/json_utils.h"
#include <cstdint>
namespace DRAMUtils::MemSpec {
enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };
struct MemArchitectureSpecTypeLPDDR4 {
    uint64_t nbrOfBanks;
    uint64_t nbrOfRows;
    uint64_t nbrOfColumns;
    uint64_t nbrOfDevices;
    uint64_t burstLength;
    uint64_t dataRate;
    uint64_t width;
    uint64_t nbrOfBankGroups;
    uint64_t nbrOfRanks;
};
struct MemTimingSpecTypeLPDDR4 {
    uint64_t RAS;
    uint64_t RCD;
    uint64_t REFI;
    uint64_t RFCab;
    uint64_t RFCpb;
    uint64_t RL;
    uint64_t RPpb;
    uint64_t RTP;
    uint64_t WL;
    uint64_t WR;
    double tCK;
};
struct MemPowerSpecTypeLPDDR4 {
    std::optional<double> iBeta_vdd1;
    std::optional<double> iBeta_vdd2;
    double idd01;
    double idd02;
    double idd2n1;
    double idd2n2;
    double idd2p1;
    double idd2p2;
    double idd3n1;
    double idd3n2;
    double idd3p1;
    double idd3p2;
    double idd4r1;
    double idd4r2;
    double idd4w1;
    double idd4w2;
    double idd51;
    double idd52;
    double idd5pb1;
    double idd5pb2;
    double idd61;
    double idd62;
    double vdd1;
    double vdd2;
    double vddq;
};
struct BankWiseSpecTypeLPDDR4 {
    std::optional<double> factRho;
    std::optional<double> factSigma;
    std::optional<bool> hasPASR;
    std::optional<pasrModesType> pasrMode;
};
struct MemImpedanceSpecTypeLPDDR4 {
    bool ck_termination;
    double ck_R_eq;
    double ck_dyn_E;
    bool ca_termination;
    double ca_R_eq;
    double ca_dyn_E;
    bool rdq_termination;
    double rdq_R_eq;
    double rdq_dyn_E;
    bool wdq_termination;
    double wdq_R_eq;
    double wdq_dyn_E;
    bool wdqs_termination;
    double wdqs_R_eq;
    double wdqs_dyn_E;
    bool rdqs_termination;
    double rdqs_R_eq;
    double rdqs_dyn_E;
    bool wdbi_termination;
    double wdbi_R_eq;
    double wdbi_dyn_E;
    bool rdbi_termination;
    double rdbi_R_eq;
    double rdbi_dyn_E;
};
struct MemSpecLPDDR4 {
    static constexpr const char* id = "LPDDR4";
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR4 memarchitecturespec;
    MemPowerSpecTypeLPDDR4 mempowerspec;
    MemTimingSpecTypeLPDDR4 memtimingspec;
    std::optional<BankWiseSpecTypeLPDDR4> bankwisespec;
    MemImpedanceSpecTypeLPDDR4 memimpedancespec;
};
}
