// Shared vocabulary of the core specifications (C10..C14): an arbitrary reachable core state with R ranks of B banks and no
// deferred commands, followed by commands at arbitrary times; `want` is what the window statistics must show.
// The file that includes this one defines exactly one of VP_DDR4 VP_DDR5 VP_LPDDR4 VP_LPDDR5 VP_LPDDR6.
// The timings are taken from the raw memory description exactly as the standard defines them (not from the core's copy).
#pragma once
#include "vp.h"
#include <cassert>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <DRAMPower/command/Command.cpp>
#include <DRAMPower/dram/Rank.cpp>
#if defined VP_DDR4
#include <DRAMPower/memspec/MemSpecDDR4.cpp>
#include <DRAMPower/standards/ddr4/DDR4Core.cpp>
#elif defined VP_DDR5
#include <DRAMPower/memspec/MemSpecDDR5.cpp>
#include <DRAMPower/standards/ddr5/DDR5Core.cpp>
#elif defined VP_LPDDR4
#include <numeric>
#include <DRAMPower/memspec/MemSpecLPDDR4.cpp>
#include <DRAMPower/standards/lpddr4/LPDDR4Core.cpp>
#elif defined VP_LPDDR5
#include <DRAMPower/memspec/MemSpecLPDDR5.cpp>
#include <DRAMPower/standards/lpddr5/LPDDR5Core.cpp>
#elif defined VP_LPDDR6
#include <DRAMPower/memspec/MemSpecLPDDR6.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Core.cpp>
#endif
#include VP_GEN
using namespace DRAMPower;

#ifndef VP_BANKS
#define VP_BANKS 3
#endif
#ifndef VP_RANKS
#define VP_RANKS 2
#endif
#ifndef VP_GROUPS
#define VP_GROUPS 1
#endif

inline void small_times(std::initializer_list<uint64_t*> l) { for (uint64_t* x : l) *x = vp::any_in(0, 1000000, "timing"); }

#if defined VP_DDR4
struct Std {
    using Core = DDR4Core; using Spec = MemSpecDDR4; using Raw = DRAMUtils::MemSpec::MemSpecDDR4; using Cmd = Command;
    static void shape(Raw& w) { auto& m = w.memtimingspec; small_times({&m.AL, &m.RTP, &m.RAS, &m.RCD, &m.RP, &m.WL, &m.WR, &m.RFC1, &m.RFC2, &m.RFC4}); }
    static void fix(Spec&) {}
    static uint64_t tRAS(const Raw& w) { return w.memtimingspec.RAS; }
    static uint64_t tRCD(const Raw& w) { return w.memtimingspec.RCD; }
    static uint64_t tRP(const Raw& w) { return w.memtimingspec.RP; }
    static uint64_t tRFC(const Raw& w) {
        auto m = w.memarchitecturespec.RefMode;
        return m == DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_2 ? w.memtimingspec.RFC2 : m == DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_4 ? w.memtimingspec.RFC4 : w.memtimingspec.RFC1; }
    static uint64_t rdToPre(const Raw& w) { return w.memtimingspec.AL + w.memtimingspec.RTP; }
    static uint64_t wrToPre(const Raw& w) { return w.memtimingspec.WL + w.memarchitecturespec.burstLength / w.memarchitecturespec.dataRate + w.memtimingspec.WR; }
};
#elif defined VP_DDR5
struct Std {
    using Core = DDR5Core; using Spec = MemSpecDDR5; using Raw = DRAMUtils::MemSpec::MemSpecDDR5; using Cmd = Command;
    static void shape(Raw& w) { auto& m = w.memtimingspec; small_times({&m.RTP, &m.RAS, &m.RCD, &m.RP, &m.WL, &m.WR, &m.RFC1_slr, &m.RFC2_slr, &m.RFCsb_slr}); }
    static void fix(Spec&) {}
    static uint64_t tRAS(const Raw& w) { return w.memtimingspec.RAS; }
    static uint64_t tRCD(const Raw& w) { return w.memtimingspec.RCD; }
    static uint64_t tRP(const Raw& w) { return w.memtimingspec.RP; }
    static uint64_t tRFC(const Raw& w) { return w.memarchitecturespec.RefMode == DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_2 ? w.memtimingspec.RFC2_slr : w.memtimingspec.RFC1_slr; }
    static uint64_t tRFCsb(const Raw& w) { return w.memtimingspec.RFCsb_slr; }
    static uint64_t rdToPre(const Raw& w) { return w.memtimingspec.RTP; }
    static uint64_t wrToPre(const Raw& w) { return w.memtimingspec.WL + w.memarchitecturespec.burstLength / w.memarchitecturespec.dataRate + w.memtimingspec.WR; }
};
#elif defined VP_LPDDR4
struct Std {
    using Core = LPDDR4Core; using Spec = MemSpecLPDDR4; using Raw = DRAMUtils::MemSpec::MemSpecLPDDR4; using Cmd = Command;
    static void shape(Raw& w) { auto& m = w.memtimingspec; small_times({&m.RTP, &m.RAS, &m.RCD, &m.RPpb, &m.WL, &m.WR, &m.RFCab, &m.RFCpb}); w.bankwisespec.reset(); }
    static void fix(Spec&) {}
    static uint64_t tRAS(const Raw& w) { return w.memtimingspec.RAS; }
    static uint64_t tRCD(const Raw& w) { return w.memtimingspec.RCD; }
    static uint64_t tRP(const Raw& w) { return w.memtimingspec.RPpb; }
    static uint64_t tRFC(const Raw& w) { return w.memtimingspec.RFCab; }
    static uint64_t tRFCpb(const Raw& w) { return w.memtimingspec.RFCpb; }
    static uint64_t rdToPre(const Raw& w) { return (w.memarchitecturespec.burstLength == 16 ? 0 : 8) + w.memtimingspec.RTP; }
    static uint64_t wrToPre(const Raw& w) { return w.memtimingspec.WL + w.memarchitecturespec.burstLength / 2 + w.memtimingspec.WR + 1; }
};
#elif defined VP_LPDDR5
struct Std {
    using Core = LPDDR5Core; using Spec = MemSpecLPDDR5; using Raw = DRAMUtils::MemSpec::MemSpecLPDDR5; using Cmd = Command;
    static void shape(Raw& w) { auto& m = w.memtimingspec; small_times({&m.RBTP, &m.RAS, &m.RCD_S, &m.RPpb, &m.WL, &m.WR, &m.RFCab, &m.RFCpb}); m.WCK2CK = 4; }
    // the description is validated to 8 or 16 banks; the lemmas that do not depend on it use fewer
    static void fix(Spec& s) { s.numberOfBanks = VP_BANKS; s.numberOfBankGroups = VP_GROUPS; }
    static uint64_t tRAS(const Raw& w) { return w.memtimingspec.RAS; }
    static uint64_t tRCD(const Raw& w) { return w.memtimingspec.RCD_S; }
    static uint64_t tRP(const Raw& w) { return w.memtimingspec.RPpb; }
    static uint64_t tRFC(const Raw& w) { return w.memtimingspec.RFCab; }
    static uint64_t tRFCpb(const Raw& w) { return w.memtimingspec.RFCpb; }
    static uint64_t tBurst(const Raw& w) { return w.memarchitecturespec.burstLength / (w.memarchitecturespec.dataRate * w.memtimingspec.WCK2CK); }
    static uint64_t rdToPre(const Raw& w) { return tBurst(w) + w.memtimingspec.RBTP; }
    static uint64_t wrToPre(const Raw& w) { return w.memtimingspec.WL + tBurst(w) + 1 + w.memtimingspec.WR; }
};
#elif defined VP_LPDDR6
struct Std {
    using Core = LPDDR6Core; using Spec = MemSpecLPDDR6; using Raw = DRAMUtils::MemSpec::MemSpecLPDDR6; using Cmd = LPDDR6Command;
    static void shape(Raw& w) { auto& m = w.memtimingspec; small_times({&m.RBTP, &m.RAS, &m.RCD_r, &m.RCD_w, &m.RPpb, &m.WL, &m.WR, &m.RFCab, &m.RFCdb}); m.WCK2CK = 2; }
    static void fix(Spec&) {}
    static uint64_t tRAS(const Raw& w) { return w.memtimingspec.RAS; }
    static uint64_t tRCD(const Raw& w) { return std::max(w.memtimingspec.RCD_r, w.memtimingspec.RCD_w); }
    static uint64_t tRP(const Raw& w) { return w.memtimingspec.RPpb; }
    static uint64_t tRFC(const Raw& w) { return w.memtimingspec.RFCab; }
    static uint64_t tRFCdb(const Raw& w) { return w.memtimingspec.RFCdb; }
    static uint64_t tBurst(const Raw& w) { return w.memarchitecturespec.burstLength / (w.memarchitecturespec.dataRate * w.memtimingspec.WCK2CK); }
    static uint64_t rdToPre(const Raw& w) { return tBurst(w) + w.memtimingspec.RBTP; }
    static uint64_t wrToPre(const Raw& w) { return w.memtimingspec.WL + tBurst(w) + 1 + w.memtimingspec.WR; }
};
#endif

struct Harness {
    using Core = Std::Core;
    static constexpr std::size_t R = VP_RANKS, B = VP_BANKS, X = R - 1, Y = B / 2;     // (X, Y): the bank the lemmas address
    Std::Raw raw;
    Core core;
    Core before;
    uint64_t now;
    static Std::Raw description() {
        auto w = vp::any<Std::Raw>("spec");
        auto& a = w.memarchitecturespec;
        a.nbrOfBanks = B; a.nbrOfRanks = R; a.nbrOfBankGroups = VP_GROUPS;
        a.dataRate = 2; a.burstLength = vp::any<bool>("longBurst") ? 32 : 16;
        Std::shape(w);
        return w;
    }
    static Std::Spec memory(const Std::Raw& w) { Std::Spec s(w); Std::fix(s); return s; }
    static constexpr uint64_t BIG = uint64_t(1) << 50;
    static uint64_t time(const char* n, uint64_t lo = 0, uint64_t hi = BIG) { return vp::any_in(lo, hi, n); }
    // (upper bounds `most`, `deepest` only steer random native runs)
#ifdef VP_LPDDR5
    static uint64_t deepest(const Rank& r) { return r.cycles.sref.count; }
#else
    static uint64_t deepest(const Rank&) { return 0; }
#endif
    // an interval counter that last changed no later than `upto`
    static interval_t interval(bool open, uint64_t upto, uint64_t most, const char* cnt, const char* started, const char* ran, const char* used) {
        interval_t i;
        uint64_t c = time(cnt, 0, vp::searching() ? most : upto);
        uint64_t s = time(started, vp::searching() && open ? c : 0, upto), e = time(ran, 0, upto - s);
        if (open || vp::any<bool>(used)) { i.start_interval(s); if (!open) i.close_interval(s + e); }
        i.count = c;
        return i;
    }
    Harness() : raw(description()), core(memory(raw)), before(core), now(time("now")) {
        for (std::size_t r = 0; r < R; ++r) {
            Rank& rank = core.m_ranks[r];
            bool some = false;
            rank.cycles.powerDownAct = interval(false, now, now / 4, "pda.count", "pda.start", "pda.ran", "pda.used");
            rank.cycles.powerDownPre = interval(false, now, now / 4, "pdp.count", "pdp.start", "pdp.ran", "pdp.used");
            rank.cycles.sref = interval(false, now, now / 4, "sref.count", "sref.start", "sref.ran", "sref.used");
            rank.cycles.deepSleepMode = interval(false, now, deepest(rank), "dsm.count", "dsm.start", "dsm.ran", "dsm.used");
            uint64_t idle = rank.cycles.powerDownAct.count + rank.cycles.powerDownPre.count + rank.cycles.sref.count;
#ifndef VP_LPDDR5
            vp::requires_(rank.cycles.deepSleepMode.count == 0);
#endif
            vp::requires_(rank.cycles.deepSleepMode.count <= rank.cycles.sref.count);
            for (std::size_t b = 0; b < B; ++b) {
                Bank& k = rank.banks[b];
                bool on = vp::flag("on");
                some = some || on;
                k.counter = vp::any<command_stats_t>("counter");
                k.counter.act = time("acts"); k.counter.pre = time("pres");       // no more commands than time
                k.bankState = on ? Bank::BankState::BANK_ACTIVE : Bank::BankState::BANK_PRECHARGED;
                k.cycles.act = interval(on, now, on ? now / 8 : now / 4, "act.count", "act.start", "act.ran", "act.used");
                vp::requires_(k.cycles.act.get_count_at(now) + idle <= now);               // the times so far fit into the past
                k.latestPre = time("latestPre", 0, now);
                k.refreshEndTime = time("refreshEnd", 0, now);
                vp::requires_(!on || k.counter.act > 0);
            }
            rank.cycles.act = interval(some, now, some ? now / 8 : now / 4, "ract.count", "ract.start", "ract.ran", "ract.used");
            vp::requires_(rank.cycles.act.get_count_at(now) + idle <= now);
            rank.endRefreshTime = time("refEnd", 0, now);
            rank.memState = MemState::NOT_IN_PD;
        }
        core.m_last_command_time = now;
        before = core;
    }
    Bank& old(std::size_t r, std::size_t b) { return before.m_ranks[r].banks[b]; }
    Rank& old(std::size_t r) { return before.m_ranks[r]; }
    bool on(std::size_t r, std::size_t b) { return old(r, b).bankState == Bank::BankState::BANK_ACTIVE; }
    bool others(std::size_t r, std::size_t b) { bool x = false; for (std::size_t i = 0; i < B; ++i) x = x || (i != b && on(r, i)); return x; }
    bool any_on(std::size_t r) { return others(r, B); }
    void run(uint64_t t, CmdType c, std::size_t r = X, std::size_t b = Y) { core.doCommand(Std::Cmd(t, c, TargetCoordinate(b, 0, r, 0, 0))); }
    SimulationStats at(uint64_t T) { SimulationStats s; core.getWindowStats(T, s); return s; }

    // what the statistics at time T must show; starts as "nothing happened since the initial state"
    struct Want {
        uint64_t act[R][B], ract[R], pda[R], pdp[R], sref[R], dsm[R];
        command_stats_t counter[R][B];
    };
    Want want(uint64_t T) {
        Want w;
        for (std::size_t r = 0; r < R; ++r) {
            Rank& k = old(r);
            for (std::size_t b = 0; b < B; ++b) {
                w.act[r][b] = k.banks[b].cycles.act.count + (on(r, b) ? T - k.banks[b].cycles.act.get_start() : 0);
                w.counter[r][b] = k.banks[b].counter;
            }
            w.ract[r] = k.cycles.act.count + (any_on(r) ? T - k.cycles.act.get_start() : 0);
            w.pda[r] = k.cycles.powerDownAct.count;
            w.pdp[r] = k.cycles.powerDownPre.count;
            w.sref[r] = k.cycles.sref.count;
            w.dsm[r] = k.cycles.deepSleepMode.count;
        }
        return w;
    }
    // active time of an active bank (resp. of the rank) whose activity stops at time e, seen at time T
    uint64_t until(std::size_t r, std::size_t b, uint64_t e, uint64_t T) { auto& i = old(r, b).cycles.act; return i.count + std::min(e, T) - i.get_start(); }
    uint64_t until(std::size_t r, uint64_t e, uint64_t T) { auto& i = old(r).cycles.act; return i.count + std::min(e, T) - i.get_start(); }
    static uint64_t between(uint64_t s, uint64_t e, uint64_t T) { return T <= s ? 0 : std::min(e, T) - s; }

    static void check(const SimulationStats& s, const Want& w, uint64_t T) {
        vp::ensures(s.bank.size() == R * B && s.rank_total.size() == R, "one entry per bank and per rank");
        for (std::size_t r = 0; r < R; ++r) {
            for (std::size_t b = 0; b < B; ++b) {
                const CycleStats& c = s.bank[r * B + b];
                vp::ensures(c.cycles.act == w.act[r][b], "active time of a bank");
                vp::ensures(c.cycles.powerDownAct == w.pda[r], "active power-down time of a bank");
                vp::ensures(c.cycles.powerDownPre == w.pdp[r], "precharge power-down time of a bank");
                vp::ensures(c.cycles.selfRefresh == w.sref[r] - w.dsm[r], "self-refresh time of a bank");
                vp::ensures(c.cycles.deepSleepMode == w.dsm[r], "deep-sleep time of a bank");
                vp::ensures(c.cycles.pre == T - w.act[r][b] - w.pda[r] - w.pdp[r] - w.sref[r], "precharged time of a bank is the rest of the window");
                const command_stats_t& n = c.counter; const command_stats_t& m = w.counter[r][b];
                vp::ensures(n.act == m.act && n.pre == m.pre, "activations and precharges counted per bank");
                vp::ensures(n.reads == m.reads && n.writes == m.writes && n.readAuto == m.readAuto && n.writeAuto == m.writeAuto, "reads and writes counted per bank");
                vp::ensures(n.refAllBank == m.refAllBank && n.refPerBank == m.refPerBank && n.refPerTwoBanks == m.refPerTwoBanks && n.refDualBanks == m.refDualBanks && n.refSameBank == m.refSameBank, "refreshes counted per bank");
            }
            const cycles_t& c = s.rank_total[r].cycles;
            vp::ensures(c.act == w.ract[r], "a rank is active while one of its banks is");
            vp::ensures(c.powerDownAct == w.pda[r] && c.powerDownPre == w.pdp[r], "power-down time of a rank");
            vp::ensures(c.selfRefresh == w.sref[r] - w.dsm[r] && c.deepSleepMode == w.dsm[r], "self-refresh and deep-sleep time of a rank");
            vp::ensures(c.pre == T - w.ract[r] - w.pda[r] - w.pdp[r] - w.sref[r], "precharged time of a rank is the rest of the window");
#if defined VP_DDR4
            uint64_t reads = 0, writes = 0;     // DDR4 interface energy takes the number of bursts from here (C20)
            for (std::size_t b = 0; b < B; ++b) { reads += w.counter[r][b].reads + w.counter[r][b].readAuto; writes += w.counter[r][b].writes + w.counter[r][b].writeAuto; }
            const command_stats_t& n = s.rank_total[r].counter;
            vp::ensures(n.reads + n.readAuto == reads && n.writes + n.writeAuto == writes, "bursts of a rank are those of its banks");
#endif
        }
    }
    void check(const Want& w, uint64_t T) { check(at(T), w, T); }
    static constexpr auto x = X; static constexpr auto y = Y;
};
using H = Harness;
