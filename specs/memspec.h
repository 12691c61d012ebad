// A memory description is taken over faithfully (C19): what the cores, the interfaces and the energy calculation read from the
// MemSpec objects is what the description says.  Includer defines one of VP_DDR4 VP_DDR5 VP_LPDDR4 VP_LPDDR5 VP_LPDDR6.
#pragma once
#define VP_DESCRIPTION_ONLY
#include "energy.h"
#if defined VP_DDR4 || defined VP_DDR5
static Domain taken(const Spec::MemPowerSpec& p) { return {p.vXX, p.iXX0, p.iXX2N, p.iXX3N, p.iXX2P, p.iXX3P, p.iXX4R, p.iXX4W, p.iXX5X,
#ifdef VP_DDR5
    p.iXX5C,
#else
    0,
#endif
    p.iXX6N, 0, p.iBeta}; }
#else
static Domain taken(const Spec::MemPowerSpec& p) { return {p.vDDX, p.iDD0X, p.iDD2NX, p.iDD3NX, p.iDD2PX, p.iDD3PX, p.iDD4RX, p.iDD4WX, p.iDD5X,
#ifdef VP_LPDDR6
    p.iDD5PDBX,
#else
    p.iDD5PBX,
#endif
    p.iDD6X,
#ifdef VP_LPDDR4
    0,
#else
    p.iDD6DSX,
#endif
    p.iBeta}; }
#endif
static void same(const Domain& a, const Domain& b) {
    vp::ensures(a.V == b.V, "supply voltage");
    vp::ensures(a.I0 == b.I0 && a.Ibeta == b.Ibeta, "activate-precharge current");
    vp::ensures(a.I2N == b.I2N && a.I3N == b.I3N, "standby current");
    vp::ensures(a.I2P == b.I2P && a.I3P == b.I3P, "power-down current");
    vp::ensures(a.I4R == b.I4R && a.I4W == b.I4W, "burst current");
    vp::ensures(a.I5 == b.I5 && a.I5x == b.I5x, "refresh current");
    vp::ensures(a.I6 == b.I6 && a.I6ds == b.I6ds, "self-refresh current");
}
static void small(std::initializer_list<uint64_t*> l) { for (uint64_t* x : l) *x = vp::any_in(0, uint64_t(1) << 40, "number"); }
void vp_lemma_description() {
    auto w = vp::any<Raw>("spec");
    auto& a = w.memarchitecturespec;
    auto& t = w.memtimingspec;
    small({&a.burstLength, &t.WL, &t.WR});
    a.dataRate = vp::any_in(1, 16, "data rate");
#ifndef VP_LPDDR5
    vp::requires_(a.nbrOfBankGroups > 0);
#endif
#if defined VP_LPDDR4
    small({&t.RTP});
    if (w.bankwisespec.has_value()) w.bankwisespec.value().hasPASR = false;
#elif defined VP_LPDDR5 || defined VP_LPDDR6
    small({&t.RBTP});
    t.WCK2CK = vp::any_in(1, 16, "WCK per CK");
#elif defined VP_DDR4
    small({&t.AL, &t.RTP});
#endif
    const Spec s(w);
    for (int d = 0; d < DOMAINS; ++d) same(taken(s.memPowerSpec[d]), domain(w, d));
    vp::ensures(s.memPowerSpec.size() == DOMAINS, "one entry per voltage domain");
    vp::ensures(s.vddq == w.mempowerspec.vddq, "interface voltage");
    vp::ensures(s.numberOfRanks == a.nbrOfRanks && s.numberOfRows == a.nbrOfRows && s.numberOfColumns == a.nbrOfColumns, "geometry");
    vp::ensures(s.numberOfDevices == (a.nbrOfDevices == 0 ? 1 : a.nbrOfDevices), "at least one device");
    vp::ensures(s.burstLength == a.burstLength && s.dataRate == a.dataRate && s.bitWidth == a.width, "burst");
    vp::ensures(s.bwParams.bwPowerFactRho == (w.bankwisespec.has_value() && w.bankwisespec.value().factRho.has_value() ? w.bankwisespec.value().factRho.value() : 1), "bank-wise factor, one unless given");
    vp::ensures(vp::same(s.memImpedanceSpec, w.memimpedancespec), "impedances");
    vp::ensures(s.memTimingSpec.tCK == t.tCK && s.memTimingSpec.tRAS == t.RAS && s.memTimingSpec.tWL == t.WL && s.memTimingSpec.tWR == t.WR, "timings");
    vp::ensures(s.memTimingSpec.tRP == tRP(w), "precharge time");
#if defined VP_LPDDR5
    const bool g0 = a.nbrOfBankGroups == 0, g1 = a.nbrOfBankGroups == 1, g4 = a.nbrOfBankGroups == 4, b16 = a.nbrOfBanks == 16, b8 = a.nbrOfBanks == 8;
    const bool mbg = b16 && g4, m8b = b8 && (g0 || g1), m16b = b16 && (g0 || g1);
    vp::ensures(s.bank_arch == (mbg ? MemSpecLPDDR5::MBG : m8b ? MemSpecLPDDR5::M8B : MemSpecLPDDR5::M16B), "bank architecture, 16 banks without groups unless another valid one is given");
    vp::ensures(s.numberOfBanks == (m8b ? 8 : 16), "number of banks");
    vp::ensures(s.numberOfBankGroups == (mbg ? 4 : m8b || m16b ? a.nbrOfBankGroups : 1), "number of bank groups");
    vp::ensures(s.banksPerGroup == (mbg ? 4 : m8b ? 8 : 16), "banks per group");
#else
    vp::ensures(s.numberOfBanks == a.nbrOfBanks && s.numberOfBankGroups == a.nbrOfBankGroups, "banks");
#ifndef VP_DDR4
    vp::ensures(s.banksPerGroup == a.nbrOfBanks / a.nbrOfBankGroups, "banks per group");
#endif
#endif
#if defined VP_DDR4
    vp::ensures(s.memTimingSpec.tRCD == t.RCD && double(s.memTimingSpec.tRFC) == tRFC(w) && s.memTimingSpec.tBurst == a.burstLength / a.dataRate, "activation, refresh and burst time");
    vp::ensures(s.prechargeOffsetRD == t.AL + t.RTP, "read to precharge");
    vp::ensures(s.prechargeOffsetWR == t.WL + a.burstLength / a.dataRate + t.WR, "write to precharge");
    const auto& p = s.prePostamble; const auto& q = w.prepostamble;
    vp::ensures(p.read_zeroes == q.read_zeroes && p.read_ones == q.read_ones && p.read_zeroes_to_ones == q.read_zeroes_to_ones && p.read_ones_to_zeroes == q.read_ones_to_zeroes, "read preamble and postamble");
    vp::ensures(p.write_zeroes == q.write_zeroes && p.write_ones == q.write_ones && p.write_zeroes_to_ones == q.write_zeroes_to_ones && p.write_ones_to_zeroes == q.write_ones_to_zeroes, "write preamble and postamble");
    vp::ensures(p.readMinTccd == q.readMinTccd && p.writeMinTccd == q.writeMinTccd, "minimum distance of bursts");
#elif defined VP_DDR5
    vp::ensures(s.memTimingSpec.tRCD == t.RCD && double(s.memTimingSpec.tRFC) == tRFC(w) && s.memTimingSpec.tRFCsb == t.RFCsb_slr && s.memTimingSpec.tBurst == a.burstLength / a.dataRate, "activation, refresh and burst time");
    vp::ensures(s.prechargeOffsetRD == t.RTP, "read to precharge");
    vp::ensures(s.prechargeOffsetWR == t.WL + a.burstLength / a.dataRate + t.WR, "write to precharge");
    const bool given = w.dataratespec.has_value();
    vp::ensures(s.dataRateSpec.commandBusRate == (given ? w.dataratespec.value().ca_bus_rate : 2) && s.dataRateSpec.dataBusRate == (given ? w.dataratespec.value().dq_bus_rate : 2)
        && s.dataRateSpec.dqsBusRate == (given ? w.dataratespec.value().dqs_bus_rate : 2), "bus data rates, double unless given");
#elif defined VP_LPDDR4
    vp::ensures(s.memTimingSpec.tRCD == t.RCD && double(s.memTimingSpec.tRFC) == tRFC(w) && s.memTimingSpec.tRFCPB == t.RFCpb && s.memTimingSpec.tREFI == t.REFI, "activation and refresh time");
    vp::ensures(s.prechargeOffsetRD == (a.burstLength == 16 ? 0 : 8) + t.RTP, "read to precharge");
    vp::ensures(s.prechargeOffsetWR == t.WL + a.burstLength / 2 + t.WR + 1, "write to precharge");
#else
    const uint64_t burst = a.burstLength / (a.dataRate * t.WCK2CK);
    vp::ensures(s.memTimingSpec.WCKtoCK == t.WCK2CK && vp::near(s.memTimingSpec.tWCK * t.WCK2CK, t.tCK) && s.memTimingSpec.tBurst == burst, "data clock");
    vp::ensures(s.wckAlwaysOnMode == a.WCKalwaysOn, "data clock mode");
    vp::ensures(s.memTimingSpec.tREFI == t.REFI, "refresh interval");
#ifdef VP_LPDDR5
    vp::ensures(s.memTimingSpec.tRCD == t.RCD_S && s.memTimingSpec.tRFC == t.RFCab && s.memTimingSpec.tRFCPB == t.RFCpb, "activation and refresh time");
#else
    vp::ensures(s.memTimingSpec.tRCDR == t.RCD_r && s.memTimingSpec.tRCDW == t.RCD_w && s.memTimingSpec.tRFCAB == t.RFCab && s.memTimingSpec.tRFCDB == t.RFCdb, "activation and refresh time");
#endif
    vp::ensures(s.prechargeOffsetRD == burst + t.RBTP, "read to precharge");
    vp::ensures(s.prechargeOffsetWR == t.WL + burst + 1 + t.WR, "write to precharge");
#endif
}
#ifdef VP_LPDDR4
// which banks of an 8-bank device are refreshed in each partial-array self-refresh mode
void vp_lemma_partial_array() {
    auto w = vp::any<Raw>("spec");
    w.memarchitecturespec.nbrOfBanks = 8; w.memarchitecturespec.nbrOfBankGroups = 1;
    w.bankwisespec = DRAMUtils::MemSpec::BankWiseSpecTypeLPDDR4{};
    auto& k = w.bankwisespec.value();
    k.factSigma = 1.0;
    const bool on = vp::cases(vp::any<bool>("PASR"));
    if (vp::cases(vp::any<bool>("given"))) k.hasPASR = on;
    int mode = -1;
    for (int i = 0; i < 8; ++i) if (vp::cases(vp::any<bool>("mode"))) { mode = i; break; }
    if (mode >= 0) k.pasrMode = static_cast<DRAMUtils::MemSpec::pasrModesType>(mode);
    else if (vp::cases(vp::any<bool>("invalid"))) k.pasrMode = DRAMUtils::MemSpec::pasrModesType::Invalid;
    const Spec s(w);
    const bool used = k.hasPASR.has_value() && on;
    static constexpr unsigned from[8] = {0, 0, 0, 0, 2, 4, 6, 7}, to[8] = {8, 4, 2, 1, 8, 8, 8, 8};
    const int m = mode < 0 ? 0 : mode;
    for (unsigned b = 0; b < 8; ++b)
        vp::ensures(s.bwParams.isBankActiveInPasr(b) == (used && from[m] <= b && b < to[m]), "bank refreshed");
}
#endif
