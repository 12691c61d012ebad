// Core energy (C17): calcEnergy on an arbitrary memory description and arbitrary statistics.
// The description is the raw one; the formulas below are the published model written down once, per voltage domain.
// The file that includes this one defines exactly one of VP_DDR4 VP_DDR5 VP_LPDDR4 VP_LPDDR5 VP_LPDDR6.
#pragma once
#include "vp.h"
#include <cassert>
#include <cmath>
#include <iostream>
#include <algorithm>
#include <DRAMPower/data/energy.cpp>
#if defined VP_DDR4
#include <DRAMPower/memspec/MemSpecDDR4.cpp>
#include <DRAMPower/standards/ddr4/core_calculation_DDR4.cpp>
#elif defined VP_DDR5
#include <DRAMPower/memspec/MemSpecDDR5.cpp>
#include <DRAMPower/standards/ddr5/core_calculation_DDR5.cpp>
#elif defined VP_LPDDR4
#include <numeric>
#include <DRAMPower/memspec/MemSpecLPDDR4.cpp>
#include <DRAMPower/standards/lpddr4/core_calculation_LPDDR4.cpp>
#elif defined VP_LPDDR5
#include <DRAMPower/memspec/MemSpecLPDDR5.cpp>
#include <DRAMPower/standards/lpddr5/core_calculation_LPDDR5.cpp>
#elif defined VP_LPDDR6
#include <DRAMPower/memspec/MemSpecLPDDR6.cpp>
#include <DRAMPower/standards/lpddr6/core_calculation_LPDDR6.cpp>
#endif
#include VP_GEN
using namespace DRAMPower;

// supply voltage and currents of one voltage domain
struct Domain { double V, I0, I2N, I3N, I2P, I3P, I4R, I4W, I5, I5x, I6, I6ds, Ibeta; };
using Optional = std::optional<double>;

#if defined VP_DDR4
using Raw = DRAMUtils::MemSpec::MemSpecDDR4; using Spec = MemSpecDDR4; using Calculation = Calculation_DDR4;
constexpr int DOMAINS = 2;
static Domain domain(const Raw& w, int d) {
    const auto& p = w.mempowerspec;
    const auto m = w.memarchitecturespec.RefMode;
    const bool x2 = m == DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_2, x4 = m == DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_4;
    if (d == 0) return {p.vdd, p.idd0, p.idd2n, p.idd3n, p.idd2p, p.idd3p, p.idd4r, p.idd4w, x2 ? p.idd5F2 : x4 ? p.idd5F4 : p.idd5B, 0, p.idd6n, 0, p.iBeta_vdd.value_or(p.idd0)};
    return {p.vpp, p.ipp0, p.ipp2n, p.ipp3n, p.ipp2p, p.ipp3p, p.ipp4r, p.ipp4w, x2 ? p.ipp5F2 : x4 ? p.ipp5F4 : p.ipp5B, 0, p.ipp6n, 0, p.iBeta_vpp.value_or(p.ipp0)};
}
static double tRFC(const Raw& w) {
    const auto m = w.memarchitecturespec.RefMode;
    return m == DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_2 ? w.memtimingspec.RFC2 : m == DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_4 ? w.memtimingspec.RFC4 : w.memtimingspec.RFC1; }
static double tRP(const Raw& w) { return w.memtimingspec.RP; }
static double tCKburst(const Raw& w) { return w.memtimingspec.tCK; }
static void shape(Raw& w) {
    const bool x2 = vp::cases(vp::any<bool>("x2")), x4 = vp::cases(vp::any<bool>("x4"));
    w.memarchitecturespec.RefMode = x2 ? DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_2 : x4 ? DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_4 : DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_1;
}
#elif defined VP_DDR5
using Raw = DRAMUtils::MemSpec::MemSpecDDR5; using Spec = MemSpecDDR5; using Calculation = Calculation_DDR5;
constexpr int DOMAINS = 2;
static Domain domain(const Raw& w, int d) {
    const auto& p = w.mempowerspec;
    const bool x2 = w.memarchitecturespec.RefMode == DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_2;
    if (d == 0) return {p.vdd, p.idd0, p.idd2n, p.idd3n, p.idd2p, p.idd3p, p.idd4r, p.idd4w, x2 ? p.idd5f : p.idd5b, p.idd5c, p.idd6n, 0, p.iBeta_vdd.value_or(p.idd0)};
    return {p.vpp, p.ipp0, p.ipp2n, p.ipp3n, p.ipp2p, p.ipp3p, p.ipp4r, p.ipp4w, x2 ? p.ipp5f : p.ipp5b, p.ipp5c, p.ipp6n, 0, p.iBeta_vpp.value_or(p.ipp0)};
}
static double tRFC(const Raw& w) { return w.memarchitecturespec.RefMode == DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_2 ? w.memtimingspec.RFC2_slr : w.memtimingspec.RFC1_slr; }
static double tRFCx(const Raw& w) { return w.memtimingspec.RFCsb_slr; }
static double tRP(const Raw& w) { return w.memtimingspec.RP; }
static double tCKburst(const Raw& w) { return w.memtimingspec.tCK; }
static void shape(Raw& w) { w.memarchitecturespec.RefMode = vp::cases(vp::any<bool>("x2")) ? DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_2 : DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_1; }
#elif defined VP_LPDDR4
using Raw = DRAMUtils::MemSpec::MemSpecLPDDR4; using Spec = MemSpecLPDDR4; using Calculation = Calculation_LPDDR4;
constexpr int DOMAINS = 2;
static Domain domain(const Raw& w, int d) {
    const auto& p = w.mempowerspec;
    if (d == 0) return {p.vdd1, p.idd01, p.idd2n1, p.idd3n1, p.idd2p1, p.idd3p1, p.idd4r1, p.idd4w1, p.idd51, p.idd5pb1, p.idd61, 0, p.iBeta_vdd1.value_or(p.idd01)};
    return {p.vdd2, p.idd02, p.idd2n2, p.idd3n2, p.idd2p2, p.idd3p2, p.idd4r2, p.idd4w2, p.idd52, p.idd5pb2, p.idd62, 0, p.iBeta_vdd2.value_or(p.idd02)};
}
static double tRFC(const Raw& w) { return w.memtimingspec.RFCab; }
static double tRFCx(const Raw& w) { return w.memtimingspec.RFCpb; }
static double tRP(const Raw& w) { return w.memtimingspec.RPpb; }
static double tCKburst(const Raw& w) { return w.memtimingspec.tCK; }
static void shape(Raw& w) { if (w.bankwisespec.has_value()) w.bankwisespec.value().hasPASR = false; }
#elif defined VP_LPDDR5
using Raw = DRAMUtils::MemSpec::MemSpecLPDDR5; using Spec = MemSpecLPDDR5; using Calculation = Calculation_LPDDR5;
constexpr int DOMAINS = 3;
static Domain domain(const Raw& w, int d) {
    const auto& p = w.mempowerspec;
    if (d == 0) return {p.vdd1, p.idd01, p.idd2n1, p.idd3n1, p.idd2p1, p.idd3p1, p.idd4r1, p.idd4w1, p.idd51, p.idd5pb1, p.idd61, p.idd6ds1, p.iBeta_vdd1.value_or(p.idd01)};
    if (d == 1) return {p.vdd2h, p.idd02h, p.idd2n2h, p.idd3n2h, p.idd2p2h, p.idd3p2h, p.idd4r2h, p.idd4w2h, p.idd52h, p.idd5pb2h, p.idd62h, p.idd6ds2h, p.iBeta_vdd2h.value_or(p.idd02h)};
    return {p.vdd2l, p.idd02l, p.idd2n2l, p.idd3n2l, p.idd2p2l, p.idd3p2l, p.idd4r2l, p.idd4w2l, p.idd52l, p.idd5pb2l, p.idd62l, p.idd6ds2l, p.iBeta_vdd2l.value_or(p.idd02l)};
}
static double tRFC(const Raw& w) { return w.memtimingspec.RFCab; }
static double tRFCx(const Raw& w) { return w.memtimingspec.RFCpb; }
static double tRP(const Raw& w) { return w.memtimingspec.RPpb; }
static double tCKburst(const Raw& w) { return w.memtimingspec.tCK / w.memtimingspec.WCK2CK; }
static void shape(Raw& w) { w.memtimingspec.WCK2CK = vp::any_in(1, 16, "WCK per CK"); }
#elif defined VP_LPDDR6
using Raw = DRAMUtils::MemSpec::MemSpecLPDDR6; using Spec = MemSpecLPDDR6; using Calculation = Calculation_LPDDR6;
constexpr int DOMAINS = 3;
static Domain domain(const Raw& w, int d) {
    const auto& p = w.mempowerspec;
    if (d == 0) return {p.vdd1, p.idd01, p.idd2n1, p.idd3n1, p.idd2p1, p.idd3p1, p.idd4r1, p.idd4w1, p.idd51, p.idd5pdb1, p.idd61, p.idd6ds1, p.iBeta_vdd1.value_or(p.idd01)};
    if (d == 1) return {p.vdd2c, p.idd02c, p.idd2n2c, p.idd3n2c, p.idd2p2c, p.idd3p2c, p.idd4r2c, p.idd4w2c, p.idd52c, p.idd5pdb2c, p.idd62c, p.idd6ds2c, p.iBeta_vdd2c.value_or(p.idd02c)};
    return {p.vdd2d, p.idd02d, p.idd2n2d, p.idd3n2d, p.idd2p2d, p.idd3p2d, p.idd4r2d, p.idd4w2d, p.idd52d, p.idd5pdb2d, p.idd62d, p.idd6ds2d, p.iBeta_vdd2d.value_or(p.idd02d)};
}
static double tRFC(const Raw& w) { return w.memtimingspec.RFCab; }
static double tRFCx(const Raw& w) { return w.memtimingspec.RFCdb; }
static double tRP(const Raw& w) { return w.memtimingspec.RPpb; }
static double tCKburst(const Raw& w) { return w.memtimingspec.tCK / w.memtimingspec.WCK2CK; }
static void shape(Raw& w) { w.memtimingspec.WCK2CK = vp::any_in(1, 16, "WCK per CK"); }
#endif

static uint64_t amount(const char* n) { return vp::any_in(0, uint64_t(1) << 50, n); }
static CycleStats arbitrary() {
    CycleStats s;
    command_stats_t& c = s.counter;
    for (uint64_t* x : {&c.act, &c.pre, &c.reads, &c.writes, &c.refAllBank, &c.refPerBank, &c.refPerTwoBanks, &c.refDualBanks, &c.refSameBank, &c.readAuto, &c.writeAuto}) *x = amount("commands");
    cycles_t& t = s.cycles;
    for (uint64_t* x : {&t.act, &t.pre, &t.powerDownAct, &t.powerDownPre, &t.selfRefresh, &t.deepSleepMode}) *x = amount("cycles");
    return s;
}

#ifndef VP_DESCRIPTION_ONLY
// the energy of one bank in one domain, and what each rank adds
struct Model {
    double V, ck, B, act, pre, active, shared, precharged, rd, wr, refAB, refPB, refSB, ref2B, refDB, sref, pda, pdn, dsm, scale;
    Model(const Raw& w, const Domain& p, bool twoBanksFaster, double bankCount, double groups) : V(p.V), ck(w.memtimingspec.tCK), B(bankCount) {
        const double rho = w.bankwisespec.has_value() ? w.bankwisespec.value().factRho.value_or(1) : 1;
        const double ras = w.memtimingspec.RAS * ck, rp = tRP(w) * ck, rfc = tRFC(w) * ck;
        const double burst = double(w.memarchitecturespec.burstLength) / double(w.memarchitecturespec.dataRate) * tCKburst(w);
        const double theta = (p.I0 * (rp + ras) - p.Ibeta * rp) / ras;                  // average current while a row is being opened
#if defined VP_DDR4 || defined VP_DDR5
        const double all = p.I3N, base = rho * (p.I3N - p.I2N) + p.I2N;                 // all banks open; the part independent of the number of open banks
        const double one = (all + (B - 1) * base) / B;                                  // one bank open
        const double transfer = all;
#else
        const double one = p.I3N, base = (B * rho * one + (1 - rho) * p.I2N) / (B * rho + 1 - rho);
        const double all = base + B * (one - base), two = one + (one - base);
        const double transfer = twoBanksFaster ? two : one;
#endif
        act = V * (theta - one) * ras;
        pre = V * (p.Ibeta - p.I2N) * rp;
        active = V * (one - base) * ck;
        shared = V * base * ck;
        precharged = V * p.I2N * ck / B;
        rd = V * (p.I4R - transfer) * burst;
        wr = V * (p.I4W - transfer) * burst;
        refAB = V * (p.I5 - all) * rfc / B;
        refPB = refSB = ref2B = refDB = dsm = 0;
        scale = 0;
#ifdef VP_NATIVE
        for (double x : {p.I0, p.I2N, p.I3N, p.I2P, p.I3P, p.I4R, p.I4W, p.I5, p.I5x, p.I6, p.I6ds, p.Ibeta}) scale += std::fabs(V) * std::fabs(x) * (ck + ras + rp + rfc + burst) * B;
#endif
#if defined VP_DDR5
#ifdef VP_NATIVE
        scale += std::fabs(V) * (std::fabs(p.I5x) + std::fabs(p.I3N) + std::fabs(p.I2N)) * tRFCx(w) * ck * groups;
#endif
        refSB = V * (p.I5x - (base + (one - base) * groups)) * (tRFCx(w) * ck) / groups;
#elif !defined VP_DDR4
        const double rfcx = tRFCx(w) * ck, interval = w.memtimingspec.REFI * ck / 8;
        const double burstRefresh = (p.I5x * interval - p.I2N * (interval - rfcx)) / rfcx;  // current during the refresh itself
#ifdef VP_NATIVE
        scale += std::fabs(V) * (std::fabs(p.I5x) + std::fabs(p.I3N) + std::fabs(p.I2N)) * (rfcx + interval) * B;
#endif
#if defined VP_LPDDR6
        refDB = V * (burstRefresh - two) * rfcx / 2;
        dsm = V * p.I6ds * ck;
#else
        refPB = V * (burstRefresh - one) * rfcx;
#endif
#if defined VP_LPDDR5
        ref2B = V * (burstRefresh - two) * rfcx / 2;
        dsm = V * p.I6ds * ck;
#endif
#endif
        sref = V * p.I6 * ck;
        pda = V * p.I3P * ck;
        pdn = V * p.I2P * ck;
    }
};

// what one bank of rank r of one device must be charged, and what the ranks must be charged
static bool bank(const energy_info_t& e, const CycleStats& s, uint64_t rankPre, const Model* m) {
    energy_info_t x;
    double scale = 0;
    for (int d = 0; d < DOMAINS; ++d) {
        const command_stats_t& c = s.counter;
#ifdef VP_NATIVE
        scale += m[d].scale * (double(c.act) + c.pre + s.cycles.act + rankPre + c.reads + c.writes + c.readAuto + c.writeAuto + c.refAllBank + c.refPerBank + c.refSameBank + c.refPerTwoBanks + c.refDualBanks);
#endif
        x.E_act += m[d].act * s.counter.act;
        x.E_pre += m[d].pre * s.counter.pre;
        x.E_bg_act += m[d].active * s.cycles.act;
        x.E_bg_pre += m[d].precharged * rankPre;
        x.E_RD += m[d].rd * s.counter.reads;
        x.E_WR += m[d].wr * s.counter.writes;
        x.E_RDA += m[d].rd * s.counter.readAuto;
        x.E_WRA += m[d].wr * s.counter.writeAuto;
        x.E_pre_RDA += m[d].pre * s.counter.readAuto;
        x.E_pre_WRA += m[d].pre * s.counter.writeAuto;
        x.E_ref_AB += m[d].refAB * s.counter.refAllBank;
        x.E_ref_PB += m[d].refPB * s.counter.refPerBank;
        x.E_ref_SB += m[d].refSB * s.counter.refSameBank;
        x.E_ref_2B += m[d].ref2B * s.counter.refPerTwoBanks;
        x.E_ref_DB += m[d].refDB * s.counter.refDualBanks;
    }
    vp::ensures(vp::near(e.E_act, x.E_act, scale), "activation energy");
    vp::ensures(vp::near(e.E_pre, x.E_pre, scale), "precharge energy");
    vp::ensures(vp::near(e.E_bg_act, x.E_bg_act, scale), "active background energy");
    vp::ensures(vp::near(e.E_bg_pre, x.E_bg_pre, scale), "precharged background energy");
    vp::ensures(vp::near(e.E_RD, x.E_RD, scale) && vp::near(e.E_RDA, x.E_RDA, scale), "read energy");
    vp::ensures(vp::near(e.E_WR, x.E_WR, scale) && vp::near(e.E_WRA, x.E_WRA, scale), "write energy");
    vp::ensures(vp::near(e.E_pre_RDA, x.E_pre_RDA, scale) && vp::near(e.E_pre_WRA, x.E_pre_WRA, scale), "precharge energy of auto-precharge commands");
    vp::ensures(vp::near(e.E_ref_AB, x.E_ref_AB, scale), "all-bank refresh energy");
    vp::ensures(vp::near(e.E_ref_PB, x.E_ref_PB, scale), "per-bank refresh energy");
    vp::ensures(vp::near(e.E_ref_SB, x.E_ref_SB, scale), "same-bank refresh energy");
    vp::ensures(vp::near(e.E_ref_2B, x.E_ref_2B, scale), "two-bank refresh energy");
    vp::ensures(vp::near(e.E_ref_DB, x.E_ref_DB, scale), "dual-bank refresh energy");
    return true;
}

static Raw description(uint64_t R, uint64_t D, uint64_t B, uint64_t G) {
    auto w = vp::any<Raw>("spec");
    auto& a = w.memarchitecturespec;
    a.nbrOfBanks = B; a.nbrOfRanks = R; a.nbrOfDevices = D; a.nbrOfBankGroups = G;
    a.dataRate = vp::any_in(1, 16, "data rate"); a.burstLength = vp::any_in(1, 4096, "burst length");
    shape(w);
    // a meaningful description: durations that are divided by are not zero
    vp::requires_(w.memtimingspec.tCK > 0 && w.memtimingspec.RAS > 0);
#if defined VP_LPDDR4 || defined VP_LPDDR5 || defined VP_LPDDR6
    vp::requires_(tRFCx(w) > 0);
    if (w.bankwisespec.has_value() && w.bankwisespec.value().factRho.has_value()) vp::requires_(w.bankwisespec.value().factRho.value() >= 0 && w.bankwisespec.value().factRho.value() <= 1);
#endif
    return w;
}
template <uint64_t R, uint64_t D, uint64_t B, uint64_t G = 1> void energies(uint64_t devices = D) {
    const Raw w = description(R, devices, B, G);
    Spec spec(w);
#if defined VP_LPDDR5
    if (B < 8) { spec.numberOfBanks = B; spec.numberOfBankGroups = G; spec.bank_arch = vp::cases(vp::any<bool>("groups")) ? MemSpecLPDDR5::MBG : vp::cases(vp::any<bool>("8B")) ? MemSpecLPDDR5::M8B : MemSpecLPDDR5::M16B; }
#endif
    SimulationStats s;
    for (uint64_t i = 0; i < R * B; ++i) s.bank.push_back(arbitrary());
    for (uint64_t i = 0; i < R; ++i) s.rank_total.push_back(arbitrary());
    const Calculation calculation(spec);
    const energy_t e = calculation.calcEnergy(s);
    bool faster = false;
#if defined VP_LPDDR5
    faster = spec.bank_arch == MemSpecLPDDR5::MBG;
#elif defined VP_LPDDR6
    faster = true;
#endif
    vp::ensures(e.bank_energy.size() == R * D * B, "one entry per bank of every device of every rank");
    const Model m[3] = {Model(w, domain(w, 0), faster, B, G), Model(w, domain(w, 1), faster, B, G), Model(w, domain(w, DOMAINS - 1), faster, B, G)};
    for (uint64_t r = 0; r < R; ++r) for (uint64_t d = 0; d < D; ++d) for (uint64_t b = 0; b < B; ++b)
        bank(e.bank_energy[(r * D + d) * B + b], s.bank[r * B + b], s.rank_total[r].cycles.pre, m);
    double sref = 0, pda = 0, pdn = 0, shared = 0, dsm = 0;
    for (uint64_t r = 0; r < R; ++r) for (int d = 0; d < DOMAINS; ++d) {
        const cycles_t& c = s.rank_total[r].cycles;
        sref += m[d].sref * c.selfRefresh; pda += m[d].pda * c.powerDownAct; pdn += m[d].pdn * c.powerDownPre;
        shared += m[d].shared * c.act; dsm += m[d].dsm * c.deepSleepMode;
    }
    vp::ensures(vp::near(e.E_sref, sref * D), "self-refresh energy");
    vp::ensures(vp::near(e.E_PDNA, pda * D), "active power-down energy");
    vp::ensures(vp::near(e.E_PDNP, pdn * D), "precharge power-down energy");
    vp::ensures(vp::near(e.E_bg_act_shared, shared * D), "shared active background energy");
    vp::ensures(vp::near(e.E_dsm, dsm * D), "deep-sleep energy");
    vp::ensures(vp::near(e.E_refab, 0), "no other refresh energy");
}
#if defined VP_LPDDR5
void vp_lemma_bounded_8_banks() { energies<1, 1, 8>(); }
void vp_lemma_bounded_16_banks() { energies<1, 1, 16, 4>(); }
#endif
// any number of banks
template <uint64_t R, uint64_t D> void any_banks() {
    const uint64_t B = vp::any_in(1, uint64_t(1) << 20, "banks");
    const Raw w = description(R, D, B, 1);
    Spec spec(w);
#if defined VP_LPDDR5
    spec.numberOfBanks = B; spec.bank_arch = vp::cases(vp::any<bool>("groups")) ? MemSpecLPDDR5::MBG : MemSpecLPDDR5::M16B;
#endif
    auto s = vp::any<SimulationStats>("stats");
    vp::requires_(s.bank.size() == R * B && s.rank_total.size() == R);
    const Calculation calculation(spec);
    const energy_t e = calculation.calcEnergy(s);
    bool faster = false;
#if defined VP_LPDDR5
    faster = spec.bank_arch == MemSpecLPDDR5::MBG;
#elif defined VP_LPDDR6
    faster = true;
#endif
    vp::ensures(e.bank_energy.size() == R * D * B, "one entry per bank of every device of every rank");
    const Model m[3] = {Model(w, domain(w, 0), faster, B, 1), Model(w, domain(w, 1), faster, B, 1), Model(w, domain(w, DOMAINS - 1), faster, B, 1)};
    const uint64_t b = vp::any<uint64_t>("bank");
    vp::requires_(b < B);
    for (uint64_t r = 0; r < R; ++r) for (uint64_t d = 0; d < D; ++d)
        bank(e.bank_energy[(r * D + d) * B + b], s.bank[r * B + b], s.rank_total[r].cycles.pre, m);
}
void vp_lemma_any_banks() { any_banks<1, 1>(); }
#if defined VP_DDR4 || defined VP_DDR5 || defined VP_LPDDR4
void vp_lemma_any_banks_2() { any_banks<2, 1>(); }
#endif
// any number of ranks of single-bank devices, any number of devices
void vp_lemma_any_ranks() {
    const uint64_t R = vp::any_in(1, uint64_t(1) << 20, "ranks"), D = vp::any_in(1, 64, "devices");
    const Raw w = description(R, D, 1, 1);
    Spec spec(w);
#if defined VP_LPDDR5
    spec.numberOfBanks = 1;
#endif
    auto s = vp::any<SimulationStats>("stats");
    vp::requires_(s.bank.size() == R && s.rank_total.size() == R);
    const Calculation calculation(spec);
    const energy_t e = calculation.calcEnergy(s);
    const Model m[3] = {Model(w, domain(w, 0), false, 1, 1), Model(w, domain(w, 1), false, 1, 1), Model(w, domain(w, DOMAINS - 1), false, 1, 1)};
    double sref = 0, pda = 0, pdn = 0, shared = 0, dsm = 0;
    for (int d = 0; d < DOMAINS; ++d) {
        sref += vp::sumd(R, [&](std::size_t r) { return m[d].sref * s.rank_total[r].cycles.selfRefresh; });
        pda += vp::sumd(R, [&](std::size_t r) { return m[d].pda * s.rank_total[r].cycles.powerDownAct; });
        pdn += vp::sumd(R, [&](std::size_t r) { return m[d].pdn * s.rank_total[r].cycles.powerDownPre; });
        shared += vp::sumd(R, [&](std::size_t r) { return m[d].shared * s.rank_total[r].cycles.act; });
        dsm += vp::sumd(R, [&](std::size_t r) { return m[d].dsm * s.rank_total[r].cycles.deepSleepMode; });
    }
    vp::ensures(vp::near(e.E_sref, sref * D), "self-refresh energy");
    vp::ensures(vp::near(e.E_PDNA, pda * D), "active power-down energy");
    vp::ensures(vp::near(e.E_PDNP, pdn * D), "precharge power-down energy");
    vp::ensures(vp::near(e.E_bg_act_shared, shared * D), "shared active background energy");
    vp::ensures(vp::near(e.E_dsm, dsm * D), "deep-sleep energy");
}
void vp_lemma_bounded_one_device() { energies<1, 1, 2>(); }
void vp_lemma_bounded_ranks_and_devices() { energies<2, 2, 2>(); }
void vp_lemma_bounded_groups() { energies<1, 1, 4, 2>(); }
void vp_lemma_bounded_no_device_means_one() { energies<1, 1, 1>(0); }
#endif
