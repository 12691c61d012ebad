// Totals: the total energy is the sum of its parts, each counted once, for any number of banks
#include "vp.h"
#include <DRAMPower/data/energy.cpp>
#include VP_GEN
using namespace DRAMPower;
static double parts(const energy_info_t& e) {       // (E_pre_RDA and E_pre_WRA are a breakdown of E_pre)
    return e.E_act + e.E_pre + e.E_bg_act + e.E_bg_pre + e.E_RD + e.E_WR + e.E_RDA + e.E_WRA + e.E_ref_AB + e.E_ref_PB + e.E_ref_SB + e.E_ref_2B + e.E_ref_DB;
}
static void added(const energy_info_t& r, const energy_info_t& a, const energy_info_t& b) {
    vp::ensures(vp::near(r.E_act, a.E_act + b.E_act) && vp::near(r.E_pre, a.E_pre + b.E_pre), "activate and precharge");
    vp::ensures(vp::near(r.E_bg_act, a.E_bg_act + b.E_bg_act) && vp::near(r.E_bg_pre, a.E_bg_pre + b.E_bg_pre), "background");
    vp::ensures(vp::near(r.E_RD, a.E_RD + b.E_RD) && vp::near(r.E_WR, a.E_WR + b.E_WR), "read and write");
    vp::ensures(vp::near(r.E_RDA, a.E_RDA + b.E_RDA) && vp::near(r.E_WRA, a.E_WRA + b.E_WRA), "read and write with auto-precharge");
    vp::ensures(vp::near(r.E_pre_RDA, a.E_pre_RDA + b.E_pre_RDA) && vp::near(r.E_pre_WRA, a.E_pre_WRA + b.E_pre_WRA), "auto-precharge");
    vp::ensures(vp::near(r.E_ref_AB, a.E_ref_AB + b.E_ref_AB) && vp::near(r.E_ref_PB, a.E_ref_PB + b.E_ref_PB) && vp::near(r.E_ref_SB, a.E_ref_SB + b.E_ref_SB), "refresh of all banks, one bank, same banks");
    vp::ensures(vp::near(r.E_ref_2B, a.E_ref_2B + b.E_ref_2B) && vp::near(r.E_ref_DB, a.E_ref_DB + b.E_ref_DB), "refresh of two banks");
}
void vp_lemma_bank_total() {
    const auto e = vp::any<energy_info_t>("e");
    vp::ensures(vp::near(e.total(), parts(e)), "every part once");
}
void vp_lemma_bank_sum() {
    const auto a = vp::any<energy_info_t>("a"), b = vp::any<energy_info_t>("b");
    energy_info_t r = a;
    energy_info_t& x = r += b;
    vp::ensures(&x == &r, "+= returns its left operand");
    added(r, a, b);
    energy_info_t twice = a;
    twice += twice;
    added(twice, a, a);
}
static energy_t device() {
    energy_t e(vp::length_any("banks"));
    for (double* x : {&e.E_bg_act_shared, &e.E_PDNA, &e.E_PDNP, &e.E_sref, &e.E_dsm, &e.E_refab}) *x = vp::any<double>("part");
    vp::havoc(e.bank_energy, "bank");
    return e;
}
void vp_lemma_fresh() {
    const std::size_t n = vp::length_any("banks");
    const energy_t e(n);
    vp::ensures(e.bank_energy.size() == n, "one entry per bank");
    vp::ensures(vp::near(e.total(), 0), "nothing spent");
    vp::ensures(vp::forall(n, [&](std::size_t i) { return e.bank_energy[i].total() == 0; }), "nothing spent by a bank");
}
void vp_lemma_device_total() {
    const energy_t e = device();
    const double shared = e.E_bg_act_shared + e.E_PDNA + e.E_PDNP + e.E_sref + e.E_dsm + e.E_refab;
    const auto& v = e.bank_energy;
    const double act = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_act; }), pre = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_pre; });
    const double bga = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_bg_act; }), bgp = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_bg_pre; });
    const double rd = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_RD; }), wr = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_WR; });
    const double rda = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_RDA; }), wra = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_WRA; });
    const double ab = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_ref_AB; }), pb = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_ref_PB; });
    const double sb = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_ref_SB; }), b2 = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_ref_2B; });
    const double db = vp::sumd(v.size(), [&](std::size_t i) { return v[i].E_ref_DB; });
    vp::ensures(vp::near(e.total(), act + pre + bga + bgp + rd + wr + rda + wra + ab + pb + sb + b2 + db + shared), "all banks plus what they share");
    const energy_info_t a = e.aggregated_bank_energy();
    vp::ensures(vp::near(a.E_act, act) && vp::near(a.E_pre, pre), "activate and precharge of all banks");
    vp::ensures(vp::near(a.E_bg_act, bga + e.E_bg_act_shared) && vp::near(a.E_bg_pre, bgp), "background of all banks, including the shared part");
    vp::ensures(vp::near(a.E_RD, rd) && vp::near(a.E_WR, wr) && vp::near(a.E_RDA, rda) && vp::near(a.E_WRA, wra), "reads and writes of all banks");
    vp::ensures(vp::near(a.E_ref_AB, ab) && vp::near(a.E_ref_PB, pb) && vp::near(a.E_ref_SB, sb) && vp::near(a.E_ref_2B, b2) && vp::near(a.E_ref_DB, db), "refreshes of all banks");
}
void vp_lemma_interface_total() {
    const auto a = vp::any<interface_energy_info_t>("a"), b = vp::any<interface_energy_info_t>("b");
    vp::ensures(vp::near(a.total(), a.controller.dynamicEnergy + a.controller.staticEnergy + a.dram.dynamicEnergy + a.dram.staticEnergy), "every part once");
    const interface_energy_info_t s = a + b;
    interface_energy_info_t t = a;
    interface_energy_info_t& x = t += b;
    vp::ensures(&x == &t, "+= returns its left operand");
    vp::ensures(vp::near(s.controller.dynamicEnergy, a.controller.dynamicEnergy + b.controller.dynamicEnergy) && vp::near(s.controller.staticEnergy, a.controller.staticEnergy + b.controller.staticEnergy), "controller");
    vp::ensures(vp::near(s.dram.dynamicEnergy, a.dram.dynamicEnergy + b.dram.dynamicEnergy) && vp::near(s.dram.staticEnergy, a.dram.staticEnergy + b.dram.staticEnergy), "DRAM");
    vp::ensures(vp::same(s, t), "+ agrees with +=");
    const interface_energy_t c = a.controller + b.dram;
    vp::ensures(vp::near(c.dynamicEnergy, a.controller.dynamicEnergy + b.dram.dynamicEnergy) && vp::near(c.staticEnergy, a.controller.staticEnergy + b.dram.staticEnergy), "one side");
}
