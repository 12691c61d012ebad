// C14: the times of every bank and rank partition the window, and asking for statistics never changes a later answer
#include "core.h"
inline void total(const cycles_t& c, uint64_t T) {
    // no term exceeds the window and no sum wraps
    vp::ensures(c.act <= T && c.pre <= T && c.powerDownAct <= T && c.powerDownPre <= T && c.selfRefresh <= T && c.deepSleepMode <= T, "no time exceeds the window");
    vp::ensures(c.act + c.pre + c.powerDownAct + c.powerDownPre + c.selfRefresh + c.deepSleepMode == T, "the times add up to the window");
}
inline void partition(H& h, uint64_t T) {
    SimulationStats s = h.at(T);
    for (std::size_t i = 0; i < H::R * H::B; ++i) total(s.bank[i].cycles, T);
    for (std::size_t r = 0; r < H::R; ++r) total(s.rank_total[r].cycles, T);
}
template <class F> inline void adds_up(F f) {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    f(h, t);
    partition(h, T);
}
// nothing happens
void vp_lemma_bounded_adds_up_at_any_time() { adds_up([](H&, uint64_t) {}); }
void vp_lemma_bounded_adds_up_end() { adds_up([](H& h, uint64_t t) { h.run(t, CmdType::END_OF_SIMULATION); }); }
void vp_lemma_bounded_adds_up_activate() { adds_up([](H& h, uint64_t t) { vp::requires_(!h.on(H::X, H::Y)); h.run(t, CmdType::ACT); }); }
void vp_lemma_bounded_adds_up_precharge() { adds_up([](H& h, uint64_t t) { h.run(t, CmdType::PRE); }); }
void vp_lemma_bounded_adds_up_precharge_all() { adds_up([](H& h, uint64_t t) { h.run(t, CmdType::PREA); }); }
void vp_lemma_bounded_adds_up_read() { adds_up([](H& h, uint64_t t) { h.run(t, CmdType::RD); }); }
void vp_lemma_bounded_adds_up_write() { adds_up([](H& h, uint64_t t) { h.run(t, CmdType::WR); }); }
void vp_lemma_bounded_adds_up_read_auto() { adds_up([](H& h, uint64_t t) { vp::requires_(h.on(H::X, H::Y)); h.run(t, CmdType::RDA); }); }
void vp_lemma_bounded_adds_up_write_auto() { adds_up([](H& h, uint64_t t) { vp::requires_(h.on(H::X, H::Y)); h.run(t, CmdType::WRA); }); }
void vp_lemma_bounded_adds_up_refresh() { adds_up([](H& h, uint64_t t) { vp::requires_(!h.any_on(H::X)); h.run(t, CmdType::REFA); }); }
void vp_lemma_bounded_adds_up_self_refresh() { adds_up([](H& h, uint64_t t) { vp::requires_(!h.any_on(H::X)); h.run(t, CmdType::SREFEN); }); }
void vp_lemma_bounded_adds_up_active_power_down() { adds_up([](H& h, uint64_t t) { vp::requires_(h.any_on(H::X)); h.run(t, CmdType::PDEA); }); }
void vp_lemma_bounded_adds_up_precharge_power_down() { adds_up([](H& h, uint64_t t) { vp::requires_(!h.any_on(H::X)); h.run(t, CmdType::PDEP); }); }
#if defined VP_LPDDR4 || defined VP_LPDDR5
void vp_lemma_bounded_adds_up_bank_refresh() { adds_up([](H& h, uint64_t t) { vp::requires_(!h.on(H::X, H::Y)); h.run(t, CmdType::REFB); }); }
#endif
#if defined VP_DDR5
void vp_lemma_bounded_adds_up_same_bank_refresh() { adds_up([](H& h, uint64_t t) { vp::requires_(!h.any_on(H::X)); h.run(t, CmdType::REFSB); }); }
#endif

// asking in between (before the next command) changes no later answer
inline void same(const SimulationStats& a, const SimulationStats& b) {
    vp::ensures(a.bank.size() == b.bank.size() && a.rank_total.size() == b.rank_total.size(), "one entry per bank and per rank");
    for (std::size_t i = 0; i < H::R * H::B; ++i) {
        vp::ensures(a.bank[i].cycles.act == b.bank[i].cycles.act && a.bank[i].cycles.pre == b.bank[i].cycles.pre && a.bank[i].cycles.powerDownAct == b.bank[i].cycles.powerDownAct &&
                    a.bank[i].cycles.powerDownPre == b.bank[i].cycles.powerDownPre && a.bank[i].cycles.selfRefresh == b.bank[i].cycles.selfRefresh &&
                    a.bank[i].cycles.deepSleepMode == b.bank[i].cycles.deepSleepMode, "the times of a bank do not depend on earlier questions");
        vp::ensures(a.bank[i].counter.act == b.bank[i].counter.act && a.bank[i].counter.pre == b.bank[i].counter.pre, "the counters of a bank do not depend on earlier questions");
    }
    for (std::size_t r = 0; r < H::R; ++r) {
        auto &x = a.rank_total[r].cycles, &y = b.rank_total[r].cycles;
        vp::ensures(x.act == y.act && x.pre == y.pre && x.powerDownAct == y.powerDownAct && x.powerDownPre == y.powerDownPre && x.selfRefresh == y.selfRefresh && x.deepSleepMode == y.deepSleepMode,
                    "the times of a rank do not depend on earlier questions");
    }
}
// `due`: when the deferred part of the command takes effect
template <class F, class D> inline void asked(F f, D due) {
    H h;
    uint64_t t = H::time("t", h.now), T1 = H::time("T1", t), T2 = H::time("T2", T1), d = due(h, t);
    vp::cases(d <= T1); vp::cases(d <= T2);
    f(h, t);
    H::Core other = h.core;
    SimulationStats s, a, b;
    other.getWindowStats(T1, s);
    other.getWindowStats(T2, a);
    h.core.getWindowStats(T2, b);
    same(a, b);
    vp::ensures(other.isSerializable() == h.core.isSerializable(), "the same commands are pending");
    // a second answer for the same time is the same
    SimulationStats c;
    h.core.getWindowStats(T2, c);
    same(b, c);
}
void vp_lemma_bounded_asked_before() { asked([](H&, uint64_t) {}, [](H&, uint64_t t) { return t; }); }
inline uint64_t rdDue(H& h, uint64_t t) { return std::max(t + Std::rdToPre(h.raw), h.old(H::X, H::Y).cycles.act.get_start() + Std::tRAS(h.raw)); }
inline uint64_t wrDue(H& h, uint64_t t) { return std::max(t + Std::wrToPre(h.raw), h.old(H::X, H::Y).cycles.act.get_start() + Std::tRAS(h.raw)); }
void vp_lemma_bounded_asked_read_auto() { asked([](H& h, uint64_t t) { vp::requires_(h.on(H::X, H::Y)); h.run(t, CmdType::RDA); }, rdDue); }
void vp_lemma_bounded_asked_write_auto() { asked([](H& h, uint64_t t) { vp::requires_(h.on(H::X, H::Y)); h.run(t, CmdType::WRA); }, wrDue); }
void vp_lemma_bounded_asked_refresh() { asked([](H& h, uint64_t t) { vp::requires_(!h.any_on(H::X)); h.run(t, CmdType::REFA); }, [](H& h, uint64_t t) { return t + Std::tRFC(h.raw); }); }
void vp_lemma_bounded_asked_self_refresh() { asked([](H& h, uint64_t t) { vp::requires_(!h.any_on(H::X)); h.run(t, CmdType::SREFEN); }, [](H& h, uint64_t t) { return t + Std::tRFC(h.raw); }); }
inline uint64_t earliest(H& h, uint64_t t) {
    uint64_t e = t;
    for (std::size_t b = 0; b < H::B; ++b) {
        Bank& k = h.old(H::X, b);
        if (k.counter.act) e = std::max(e, k.cycles.act.get_start() + Std::tRCD(h.raw));
        if (k.counter.pre) e = std::max(e, k.latestPre + Std::tRP(h.raw));
        e = std::max(e, k.refreshEndTime);
    }
    return e;
}
void vp_lemma_bounded_asked_active_power_down() { asked([](H& h, uint64_t t) { vp::requires_(h.any_on(H::X)); h.run(t, CmdType::PDEA); }, earliest); }
void vp_lemma_bounded_asked_precharge_power_down() { asked([](H& h, uint64_t t) { vp::requires_(!h.any_on(H::X)); h.run(t, CmdType::PDEP); }, earliest); }
// ... and neither does a question between two commands
void vp_lemma_bounded_asked_between_commands() {
    H h;
    uint64_t t = H::time("t", h.now), due = rdDue(h, t), T1 = H::time("T1", t), t2 = H::time("t2", T1), T2 = H::time("T2", t2);
    std::size_t other = 0;
    vp::requires_(h.on(H::X, H::Y) && !h.on(H::X, other));
    vp::cases(due <= T1); vp::cases(due <= t2); vp::cases(due <= T2);
    h.run(t, CmdType::RDA);
    H::Core q = h.core;
    SimulationStats s, a, b;
    q.getWindowStats(T1, s);
    q.doCommand(Std::Cmd(t2, CmdType::ACT, TargetCoordinate(other, 0, H::X, 0, 0)));
    h.run(t2, CmdType::ACT, H::X, other);
    q.getWindowStats(T2, a);
    h.core.getWindowStats(T2, b);
    same(a, b);
    vp::ensures(q.getLastCommandTime() == h.core.getLastCommandTime(), "last command time");
}
