// Interface energy (C20): calculateEnergy on an arbitrary memory description and arbitrary statistics.
// The model, written down once: every group of signals pays its rising edges, and - if it is terminated - the time its pins
// sit at the level that draws current through the termination (low on DDR4/DDR5, high on LPDDR).
// The file that includes this one defines exactly one of VP_DDR4 VP_DDR5 VP_LPDDR4 VP_LPDDR5 VP_LPDDR6.
#pragma once
#define VP_DESCRIPTION_ONLY
#include "energy.h"
#if defined VP_DDR4
#include <DRAMPower/standards/ddr4/interface_calculation_DDR4.cpp>
using Interface = InterfaceCalculation_DDR4;
#elif defined VP_DDR5
#include <DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp>
using Interface = InterfaceCalculation_DDR5;
#elif defined VP_LPDDR4
#include <DRAMPower/standards/lpddr4/interface_calculation_LPDDR4.cpp>
using Interface = InterfaceCalculation_LPDDR4;
#elif defined VP_LPDDR5
#include <DRAMPower/standards/lpddr5/interface_calculation_LPDDR5.cpp>
using Interface = InterfaceCalculation_LPDDR5;
#elif defined VP_LPDDR6
#include <DRAMPower/standards/lpddr6/interface_calculation_LPDDR6.cpp>
using Interface = InterfaceCalculation_LPDDR6;
#endif

static uint64_t drawing(const util::bus_stats_t& s) {      // cycles at the level that draws current through a termination
#if defined VP_DDR4 || defined VP_DDR5
    return s.zeroes;
#else
    return s.ones;
#endif
}
// expected energy of one side (controller or DRAM), built up signal group by signal group
struct Side {
    double dynamic = 0, fixed = 0, scale = 0;
    void levels(bool terminated, double count, double R, double V, double duration) {
        if (terminated) fixed += count * (V * V / R) * duration;
#ifdef VP_NATIVE
        if (terminated) scale += std::fabs(count * (V * V / R) * duration);
#endif
    }
    void edges(double count, double E) {
        dynamic += count * E;
#ifdef VP_NATIVE
        scale += std::fabs(count * E);
#endif
    }
    void group(const util::bus_stats_t& s, bool terminated, double R, double E, double V, double duration) {
        levels(terminated, drawing(s), R, V, duration);
        edges(s.zeroes_to_ones, E);
    }
};
static Raw anyDescription() {
    auto w = vp::any<Raw>("spec");
    shape(w);
    w.memarchitecturespec.dataRate = vp::any_in(1, 16, "data rate");
    w.memarchitecturespec.nbrOfBanks = vp::any_in(1, 1024, "banks"); w.memarchitecturespec.nbrOfBankGroups = vp::any_in(1, 64, "bank groups");
    const auto& i = w.memimpedancespec;
    // a terminated group has a resistance
    const auto meaningful = [](bool terminated, double R) { vp::requires_(!terminated || R > 0); };
    meaningful(i.ck_termination, i.ck_R_eq); meaningful(i.ca_termination, i.ca_R_eq); meaningful(i.rdqs_termination, i.rdqs_R_eq);
    meaningful(i.rdq_termination, i.rdq_R_eq); meaningful(i.wdq_termination, i.wdq_R_eq);
#if defined VP_DDR4 || defined VP_LPDDR4 || defined VP_LPDDR5
    meaningful(i.rdbi_termination, i.rdbi_R_eq); meaningful(i.wdbi_termination, i.wdbi_R_eq);
#endif
#if defined VP_DDR4 || defined VP_DDR5 || defined VP_LPDDR4
    meaningful(i.wdqs_termination, i.wdqs_R_eq);
#else
    meaningful(i.wck_termination, i.wck_R_eq);
#endif
    return w;
}
static double period(const Raw& w) { return w.memtimingspec.tCK; }
struct Expected { Side controller, dram; };
// everything but the strobes
static void common(Expected& x, const Raw& w, const SimulationStats& s) {
    const auto& i = w.memimpedancespec;
    const double V = w.mempowerspec.vddq, beat = period(w) / w.memarchitecturespec.dataRate;
    x.controller.group(s.clockStats, i.ck_termination, i.ck_R_eq, i.ck_dyn_E, V, period(w) / 2);
#if defined VP_LPDDR5 || defined VP_LPDDR6
    x.controller.group(s.wClockStats, i.wck_termination, i.wck_R_eq, i.wck_dyn_E, V, period(w) / w.memtimingspec.WCK2CK / 2);
    x.controller.group(s.commandBus, i.ca_termination, i.ca_R_eq, i.ca_dyn_E, V, period(w) / 2);
#else
    x.controller.group(s.commandBus, i.ca_termination, i.ca_R_eq, i.ca_dyn_E, V, period(w));
#endif
    for (const auto* bus : {&s.writeBus, &s.togglingStats.write}) x.controller.group(*bus, i.wdq_termination, i.wdq_R_eq, i.wdq_dyn_E, V, beat);
    for (const auto* bus : {&s.readBus, &s.togglingStats.read}) x.dram.group(*bus, i.rdq_termination, i.rdq_R_eq, i.rdq_dyn_E, V, beat);
#if defined VP_DDR4 || defined VP_LPDDR4 || defined VP_LPDDR5
    x.controller.group(s.writeDBI, i.wdbi_termination, i.wdbi_R_eq, i.wdbi_dyn_E, V, beat);
    x.dram.group(s.readDBI, i.rdbi_termination, i.rdbi_R_eq, i.rdbi_dyn_E, V, beat);
#endif
#if defined VP_DDR5
    const double strobe = period(w) / (w.dataratespec.has_value() ? w.dataratespec.value().dqs_bus_rate : 2);
#else
    const double strobe = beat;
#endif
    x.dram.group(s.readDQSStats, i.rdqs_termination, i.rdqs_R_eq, i.rdqs_dyn_E, V, strobe);
#if defined VP_DDR4 || defined VP_DDR5 || defined VP_LPDDR4
    x.controller.group(s.writeDQSStats, i.wdqs_termination, i.wdqs_R_eq, i.wdqs_dyn_E, V, strobe);
#endif
}
static void matches(const interface_energy_info_t& e, const Expected& x) {
    vp::ensures(vp::near(e.controller.dynamicEnergy, x.controller.dynamic, x.controller.scale), "switching energy of the controller");
    vp::ensures(vp::near(e.controller.staticEnergy, x.controller.fixed, x.controller.scale), "termination energy of the controller");
    vp::ensures(vp::near(e.dram.dynamicEnergy, x.dram.dynamic, x.dram.scale), "switching energy of the DRAM");
    vp::ensures(vp::near(e.dram.staticEnergy, x.dram.fixed, x.dram.scale), "termination energy of the DRAM");
}
static util::bus_stats_t levels(const char* n) {
    util::bus_stats_t s;
    s.ones = amount(n); s.zeroes = amount(n); s.zeroes_to_ones = amount(n); s.ones_to_zeroes = amount(n);
    return s;
}
static SimulationStats signals() {
    SimulationStats s;
    s.commandBus = levels("command bus"); s.readBus = levels("read bus"); s.writeBus = levels("write bus");
    s.clockStats = levels("clock"); s.wClockStats = levels("WCK"); s.readDBI = levels("read DBI"); s.writeDBI = levels("write DBI");
    s.togglingStats.read = levels("toggling read"); s.togglingStats.write = levels("toggling write");
    s.readDQSStats = levels("read strobes"); s.writeDQSStats = levels("write strobes");
    return s;
}
#if defined VP_DDR5
static void rates(Raw& w) { if (w.dataratespec.has_value()) w.dataratespec.value().dqs_bus_rate = vp::any_in(1, 16, "strobe rate"); }
#else
static void rates(Raw&) {}
#endif

#if !defined VP_DDR4
void vp_lemma_energy() {
    Raw w = anyDescription();
    rates(w);
    Spec spec(w);
    const SimulationStats s = signals();
    const Interface calculation(spec);
    Expected x;
    common(x, w, s);
    matches(calculation.calculateEnergy(s), x);
}
#else
// on DDR4 the strobes also pay for the pre- and postamble of every burst that does not follow seamlessly
static void ambles(Expected& x, const Raw& w, uint64_t writes, uint64_t reads) {
    const auto& i = w.memimpedancespec;
    const auto& p = w.prepostamble;
    const double V = w.mempowerspec.vddq, pairs = w.memarchitecturespec.width == 16 ? 2 : 1;
    x.controller.levels(i.wdqs_termination, pairs * p.write_zeroes * writes, i.wdqs_R_eq, V, period(w));
    x.dram.levels(i.rdqs_termination, pairs * p.read_zeroes * reads, i.rdqs_R_eq, V, period(w));
    x.controller.edges(i.wdqs_termination ? pairs * p.write_zeroes_to_ones * writes : 0, i.wdqs_dyn_E);
    x.dram.edges(i.rdqs_termination ? pairs * p.read_zeroes_to_ones * reads : 0, i.rdqs_dyn_E);
}
static Raw ddr4() {
    Raw w = anyDescription();
    w.prepostamble.read_zeroes_to_ones = vp::any_in(0, 8, "read preamble edges");
    w.prepostamble.write_zeroes_to_ones = vp::any_in(0, 8, "write preamble edges");
    return w;
}
template <int R> void energy() {
    const Raw w = ddr4();
    Spec spec(w);
    SimulationStats s = signals();
    uint64_t reads = 0, writes = 0;
    for (int r = 0; r < R; ++r) {
        CycleStats c = arbitrary();
        c.prepos.readSeamless = vp::any_in(0, c.counter.reads + c.counter.readAuto, "seamless reads");
        c.prepos.writeSeamless = vp::any_in(0, c.counter.writes + c.counter.writeAuto, "seamless writes");
        reads += c.counter.reads + c.counter.readAuto - c.prepos.readSeamless;
        writes += c.counter.writes + c.counter.writeAuto - c.prepos.writeSeamless;
        s.rank_total.push_back(c);
    }
    const Interface calculation(spec);
    Expected x;
    common(x, w, s);
    ambles(x, w, writes, reads);
    matches(calculation.calculateEnergy(s), x);
}
void vp_lemma_energy() { energy<1>(); }
void vp_lemma_two_ranks() { energy<2>(); }
#endif
