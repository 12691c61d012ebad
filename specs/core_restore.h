// C21: a core restored from a saved one is in the same state: every answer and every later command go the same way
#include "core.h"
inline void havoc_interval(interval_t& i) {
    interval_t n;
    if (vp::any<bool>("used")) { n.start_interval(vp::any<uint64_t>("start")); if (!vp::any<bool>("open")) n.close_interval(vp::any<uint64_t>("end")); }
    n.count = vp::any<uint64_t>("count");
    i = n;
}
inline void same(const interval_t& a, const interval_t& b) {
    vp::ensures(a.get_count() == b.get_count() && a.get_start() == b.get_start() && a.get_end() == b.get_end() && a.is_open() == b.is_open() && a.is_closed() == b.is_closed(),
                "times measured so far, and since when");
}
inline MemState any_state() {
    const MemState all[] = {MemState::NOT_IN_PD, MemState::PDN_ACT, MemState::PDN_PRE, MemState::SREF, MemState::DSM};
    MemState s = MemState::NOT_IN_PD;
    const uint64_t k = vp::any_in(0, 4, "state");
    for (uint64_t i = 0; i < 5; ++i) s = k == i ? all[i] : s;
    return s;
}
inline void anything(Std::Core& core) {
    core.m_last_command_time = vp::any<uint64_t>("last");
    for (auto& rank : core.m_ranks) {
        for (interval_t* i : {&rank.cycles.pre, &rank.cycles.act, &rank.cycles.ref, &rank.cycles.sref, &rank.cycles.powerDownAct, &rank.cycles.powerDownPre, &rank.cycles.deepSleepMode}) havoc_interval(*i);
        rank.memState = any_state();
        rank.endRefreshTime = vp::any<uint64_t>("refresh end");
        rank.counter.selfRefresh = vp::any<uint64_t>("n sref");
        rank.counter.deepSleepMode = vp::any<uint64_t>("n dsm");
        for (Bank& b : rank.banks) {
            for (interval_t* i : {&b.cycles.act, &b.cycles.powerDownAct, &b.cycles.powerDownPre}) havoc_interval(*i);
            b.counter = vp::any<command_stats_t>("counter");
            b.bankState = vp::any<bool>("on") ? Bank::BankState::BANK_ACTIVE : Bank::BankState::BANK_PRECHARGED;
            b.latestPre = vp::any<uint64_t>("latest pre");
            b.refreshEndTime = vp::any<uint64_t>("bank refresh end");
        }
    }
}
inline void same(const Std::Core& a, const Std::Core& b) {
    vp::ensures(a.getLastCommandTime() == b.getLastCommandTime(), "time of the last command");
    for (std::size_t r = 0; r < VP_RANKS; ++r) {
        const Rank &x = a.m_ranks[r], &y = b.m_ranks[r];
        vp::ensures(x.memState == y.memState, "power state of a rank");
        vp::ensures(x.endRefreshTime == y.endRefreshTime, "refresh state of a rank");
        vp::ensures(x.counter.selfRefresh == y.counter.selfRefresh && x.counter.deepSleepMode == y.counter.deepSleepMode, "counters of a rank");
        same(x.cycles.pre, y.cycles.pre); same(x.cycles.act, y.cycles.act); same(x.cycles.ref, y.cycles.ref); same(x.cycles.sref, y.cycles.sref);
        same(x.cycles.powerDownAct, y.cycles.powerDownAct); same(x.cycles.powerDownPre, y.cycles.powerDownPre); same(x.cycles.deepSleepMode, y.cycles.deepSleepMode);
        for (std::size_t i = 0; i < VP_BANKS; ++i) {
            const Bank &p = x.banks[i], &q = y.banks[i];
            vp::ensures(p.bankState == q.bankState, "a bank is active or precharged as before");
            vp::ensures(p.latestPre == q.latestPre && p.refreshEndTime == q.refreshEndTime, "pending times of a bank");
            same(p.cycles.act, q.cycles.act); same(p.cycles.powerDownAct, q.cycles.powerDownAct); same(p.cycles.powerDownPre, q.cycles.powerDownPre);
            const command_stats_t &n = p.counter, &m = q.counter;
            vp::ensures(n.act == m.act && n.pre == m.pre && n.reads == m.reads && n.writes == m.writes && n.readAuto == m.readAuto && n.writeAuto == m.writeAuto &&
n.refAllBank == m.refAllBank && n.refPerBank == m.refPerBank && n.refPerTwoBanks == m.refPerTwoBanks &&
                        n.refDualBanks == m.refDualBanks && n.refSameBank == m.refSameBank, "command counters of a bank");
        }
    }
}
// nothing of what the restored core held before survives
void vp_lemma_bounded_restored_core() {
    auto w = Harness::description();
    const auto m = Harness::memory(w);
    Std::Core a(m), b(m);
    anything(a); anything(b);
    std::stringstream s;
    a.serialize(s);
    b.deserialize(s);
    same(a, b);
}
// a core says it can be saved exactly when no deferred command is outstanding
void vp_lemma_bounded_saved_only_when_complete() {
    Harness h;
    vp::ensures(h.core.isSerializable(), "nothing outstanding");
    uint64_t t = Harness::time("t", h.now), T = Harness::time("T", t);
    vp::requires_(!h.any_on(Harness::X));
    h.run(t, CmdType::REFA);
    vp::ensures(!h.core.isSerializable(), "the end of the refresh is outstanding");
    const bool over = vp::cases(t + Std::tRFC(h.raw) <= T);
    h.at(T);
    vp::ensures(h.core.isSerializable() == over, "no longer once it has taken place");
}
