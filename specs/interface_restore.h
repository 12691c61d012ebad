// C21: an interface restored from a saved one answers the same questions and reacts the same way to what follows
#include "interface.h"
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
}
static void same(const Std::Interface& a, const Std::Interface& b, timestamp_t t) {
    SimulationStats s, r;
    a.getWindowStats(t, s); b.getWindowStats(t, r);
    same(s.commandBus, r.commandBus); same(s.readBus, r.readBus); same(s.writeBus, r.writeBus);
    same(s.clockStats, r.clockStats); same(s.readDQSStats, r.readDQSStats); same(s.writeDQSStats, r.writeDQSStats);
    same(s.readDBI, r.readDBI); same(s.writeDBI, r.writeDBI);
}
#ifdef VP_LPDDR6
constexpr std::size_t BITS = 256, SYMBOLIC = 2;
constexpr timestamp_t FIRST = 2;         // the interface is possibly switched off at time 1
#else
constexpr std::size_t BITS = 2 * VP_WIDTH, SYMBOLIC = BITS / 8;
constexpr timestamp_t FIRST = 0;
#endif
static void access(Std::Interface& i, timestamp_t t, CmdType c, const uint8_t* d) {
    i.doCommand(Std::Cmd(t, c, TargetCoordinate(2, 1, 0, 5, 9), d, BITS));
}
// the restored interface held something else before: other data, and (LPDDR6, where a case is expensive) the opposite settings
static void restored_after(CmdType last) {
    const auto w = description();
    const Std::Spec m(w);
    const config::SimConfig c{};
    Std::Interface a(m, c), b(m, c);
#ifndef VP_DDR5
    const bool dbi = vp::cases(vp::any<bool>("dbi"));
    a.enableDBI(dbi);
#ifdef VP_LPDDR6
    b.enableDBI(!dbi);
#else
    if (vp::cases(vp::any<bool>("dbi b"))) b.enableDBI(true);
#endif
#endif
    const timestamp_t t = vp::any_in(FIRST, LATE, "t");
    if (FIRST == 0) vp::cases(t == 0);
    uint8_t d[BITS / 8] = {}, e[BITS / 8] = {};
    for (std::size_t i = 0; i < SYMBOLIC; ++i) d[i * (BITS / 8 / SYMBOLIC)] = vp::any<uint8_t>("d");
    access(b, vp::any_in(FIRST, LATE, "earlier"), CmdType::WR, e);
#ifdef VP_LPDDR6
    a.setMetaData(vp::any<uint16_t>("meta"), vp::any<uint16_t>("meta"));
    if (vp::cases(vp::any<bool>("enabled"))) b.disable(1); else a.disable(1);
#endif
    access(a, t, last, d);
    std::stringstream s;
    a.serialize(s);
    b.deserialize(s);
    vp::ensures(b.getLastCommandTime() == t, "time of the last command");
    const timestamp_t u = vp::any_in(t + 24, 2 * LATE, "u");
    same(a, b, u);
    a.doCommand(Std::Cmd(u, CmdType::ACT, TargetCoordinate(2, 1, 0, 5, 9)));
    b.doCommand(Std::Cmd(u, CmdType::ACT, TargetCoordinate(2, 1, 0, 5, 9)));
#ifdef VP_LPDDR6
    vp::ensures(a.getMetaData() == b.getMetaData() && a.isEnabled() == b.isEnabled(), "metadata and enabled flag");
#endif
    same(a, b, u + 32);
}
void vp_lemma_restored_after_read() { restored_after(CmdType::RD); }
void vp_lemma_restored_after_write() { restored_after(CmdType::WR); }
