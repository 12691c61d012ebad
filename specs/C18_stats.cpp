// Merging and comparing statistics: += adds every counter (missing banks and ranks are appended), == compares every counter
#include "vp.h"
#include <algorithm>
#include <DRAMPower/data/stats.h>
#include VP_GEN
using namespace DRAMPower;
static bool equal(const command_stats_t& a, const command_stats_t& b) {
    return a.act == b.act && a.pre == b.pre && a.reads == b.reads && a.writes == b.writes && a.refAllBank == b.refAllBank && a.refPerBank == b.refPerBank
        && a.refPerTwoBanks == b.refPerTwoBanks && a.refDualBanks == b.refDualBanks && a.refSameBank == b.refSameBank && a.readAuto == b.readAuto && a.writeAuto == b.writeAuto;
}
static bool equal(const cycles_t& a, const cycles_t& b) {
    return a.act == b.act && a.pre == b.pre && a.powerDownAct == b.powerDownAct && a.powerDownPre == b.powerDownPre && a.selfRefresh == b.selfRefresh && a.deepSleepMode == b.deepSleepMode;
}
static bool equal(const prepos_t& a, const prepos_t& b) {
    return a.readMerged == b.readMerged && a.readMergedTime == b.readMergedTime && a.writeMerged == b.writeMerged && a.writeMergedTime == b.writeMergedTime
        && a.readSeamless == b.readSeamless && a.writeSeamless == b.writeSeamless;
}
static bool equal(const CycleStats& a, const CycleStats& b) { return equal(a.counter, b.counter) && equal(a.cycles, b.cycles) && equal(a.prepos, b.prepos); }
static bool equal(const util::bus_stats_t& a, const util::bus_stats_t& b) {
    return a.ones == b.ones && a.zeroes == b.zeroes && a.ones_to_zeroes == b.ones_to_zeroes && a.zeroes_to_ones == b.zeroes_to_ones && a.bit_changes == b.bit_changes;
}
static command_stats_t sum(command_stats_t a, const command_stats_t& b) {
    a.act = a.act + b.act; a.pre = a.pre + b.pre; a.reads = a.reads + b.reads; a.writes = a.writes + b.writes; a.refAllBank = a.refAllBank + b.refAllBank;
    a.refPerBank = a.refPerBank + b.refPerBank; a.refPerTwoBanks = a.refPerTwoBanks + b.refPerTwoBanks; a.refDualBanks = a.refDualBanks + b.refDualBanks;
    a.refSameBank = a.refSameBank + b.refSameBank; a.readAuto = a.readAuto + b.readAuto; a.writeAuto = a.writeAuto + b.writeAuto;
    return a;
}
static cycles_t sum(cycles_t a, const cycles_t& b) {
    a.act = a.act + b.act; a.pre = a.pre + b.pre; a.powerDownAct = a.powerDownAct + b.powerDownAct; a.powerDownPre = a.powerDownPre + b.powerDownPre;
    a.selfRefresh = a.selfRefresh + b.selfRefresh; a.deepSleepMode = a.deepSleepMode + b.deepSleepMode;
    return a;
}
static prepos_t sum(prepos_t a, const prepos_t& b) {
    a.readMerged = a.readMerged + b.readMerged; a.readMergedTime = a.readMergedTime + b.readMergedTime; a.writeMerged = a.writeMerged + b.writeMerged;
    a.writeMergedTime = a.writeMergedTime + b.writeMergedTime; a.readSeamless = a.readSeamless + b.readSeamless; a.writeSeamless = a.writeSeamless + b.writeSeamless;
    return a;
}
static CycleStats sum(CycleStats a, const CycleStats& b) { a.counter = sum(a.counter, b.counter); a.cycles = sum(a.cycles, b.cycles); a.prepos = sum(a.prepos, b.prepos); return a; }
static util::bus_stats_t sum(util::bus_stats_t a, const util::bus_stats_t& b) {
    a.ones = a.ones + b.ones; a.zeroes = a.zeroes + b.zeroes; a.ones_to_zeroes = a.ones_to_zeroes + b.ones_to_zeroes; a.zeroes_to_ones = a.zeroes_to_ones + b.zeroes_to_ones; a.bit_changes = a.bit_changes + b.bit_changes;
    return a;
}
void vp_lemma_parts_equal() {
    const auto a = vp::any<CycleStats>("a"), b = vp::any<CycleStats>("b");
    vp::ensures((a.counter == b.counter) == equal(a.counter, b.counter), "commands");
    vp::ensures((a.cycles == b.cycles) == equal(a.cycles, b.cycles), "cycles");
    vp::ensures((a.prepos == b.prepos) == equal(a.prepos, b.prepos), "pre- and postambles");
    vp::ensures((a == b) == equal(a, b), "bank or rank");
    const auto x = vp::any<util::bus_stats_t>("x"), y = vp::any<util::bus_stats_t>("y");
    vp::ensures((x == y) == equal(x, y), "bus");
}
void vp_lemma_parts_sum() {
    const auto a = vp::any<CycleStats>("a"), b = vp::any<CycleStats>("b");
    CycleStats r = a;
    r += b;
    vp::ensures(equal(r.counter, sum(a.counter, b.counter)), "commands");
    vp::ensures(equal(r.cycles, sum(a.cycles, b.cycles)), "cycles");
    vp::ensures(equal(r.prepos, sum(a.prepos, b.prepos)), "pre- and postambles");
    const auto x = vp::any<util::bus_stats_t>("x"), y = vp::any<util::bus_stats_t>("y");
    util::bus_stats_t z = x;
    z += y;
    vp::ensures(equal(z, sum(x, y)), "bus");
    vp::ensures(equal(x + y, sum(x, y)), "sum of buses");
}
static bool equal(const std::vector<CycleStats>& a, const std::vector<CycleStats>& b) {
    return a.size() == b.size() && vp::forall(a.size(), [&](std::size_t i) { return equal(a[i], b[i]); });
}
void vp_lemma_equal() {
    const auto a = vp::any<SimulationStats>("a"), b = vp::any<SimulationStats>("b");
    const bool buses = equal(a.commandBus, b.commandBus) && equal(a.readBus, b.readBus) && equal(a.writeBus, b.writeBus) && equal(a.clockStats, b.clockStats)
        && equal(a.wClockStats, b.wClockStats) && equal(a.readDBI, b.readDBI) && equal(a.writeDBI, b.writeDBI) && equal(a.togglingStats.read, b.togglingStats.read)
        && equal(a.togglingStats.write, b.togglingStats.write) && equal(a.readDQSStats, b.readDQSStats) && equal(a.writeDQSStats, b.writeDQSStats);
    const bool banks = equal(a.bank, b.bank), ranks = equal(a.rank_total, b.rank_total);
    const bool e = a == b;
    vp::ensures(vp::implies(e, buses), "equal statistics have equal buses");
    vp::ensures(vp::implies(e, banks), "equal statistics have equal banks");
    vp::ensures(vp::implies(e, ranks), "equal statistics have equal ranks");
    vp::ensures(vp::implies(buses && banks && ranks, e), "statistics that agree everywhere are equal");
}
static void merged(const std::vector<CycleStats>& r, const std::vector<CycleStats>& a, const std::vector<CycleStats>& b) {
    const std::size_t n = std::min(a.size(), b.size());
    vp::ensures(r.size() == std::max(a.size(), b.size()), "as many entries as the longer one");
    vp::ensures(vp::forall(n, [&](std::size_t i) { return equal(r[i], sum(a[i], b[i])); }), "entries are added");
    vp::ensures(vp::forall(r.size(), [&](std::size_t i) { return i < n || equal(r[i], i < a.size() ? a[i] : b[i]); }), "the rest of the longer one is kept");
}
void vp_lemma_merge() {
    const auto a = vp::any<SimulationStats>("a"), b = vp::any<SimulationStats>("b");
    vp::requires_(a.bank.size() < (uint64_t(1) << 38) && b.bank.size() < (uint64_t(1) << 38) && a.rank_total.size() < (uint64_t(1) << 38) && b.rank_total.size() < (uint64_t(1) << 38));
    SimulationStats r = a;
    r += b;
    merged(r.bank, a.bank, b.bank);
    merged(r.rank_total, a.rank_total, b.rank_total);
    vp::ensures(equal(r.commandBus, sum(a.commandBus, b.commandBus)), "command bus");
    vp::ensures(equal(r.readBus, sum(a.readBus, b.readBus)) && equal(r.writeBus, sum(a.writeBus, b.writeBus)), "data bus");
    vp::ensures(equal(r.clockStats, sum(a.clockStats, b.clockStats)) && equal(r.wClockStats, sum(a.wClockStats, b.wClockStats)), "clocks");
    vp::ensures(equal(r.readDBI, sum(a.readDBI, b.readDBI)) && equal(r.writeDBI, sum(a.writeDBI, b.writeDBI)), "data bus inversion");
    vp::ensures(equal(r.togglingStats.read, sum(a.togglingStats.read, b.togglingStats.read)) && equal(r.togglingStats.write, sum(a.togglingStats.write, b.togglingStats.write)), "toggling rates");
    vp::ensures(equal(r.readDQSStats, sum(a.readDQSStats, b.readDQSStats)) && equal(r.writeDQSStats, sum(a.writeDQSStats, b.writeDQSStats)), "strobes");
}
