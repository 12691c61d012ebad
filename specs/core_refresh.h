// C11: refresh commands keep exactly their banks busy for exactly their refresh time
#include "core.h"
// refresh of the banks selected by `mine` (all precharged before) for `len`; `count` names their refresh counter
template <class Mine> inline void refreshed(H& h, H::Want& w, uint64_t t, uint64_t len, uint64_t T, Mine mine, uint64_t command_stats_t::*count) {
    for (std::size_t b = 0; b < H::B; ++b)
        if (mine(b)) { w.act[H::X][b] += H::between(t, t + len, T); w.counter[H::X][b].*count += 1; }
    if (!h.any_on(H::X)) w.ract[H::X] += H::between(t, t + len, T);
}
template <class Mine> inline void idle(H& h, Mine mine) { for (std::size_t b = 0; b < H::B; ++b) if (mine(b)) vp::requires_(!h.on(H::X, b)); }
template <class Mine> inline void one_refresh(CmdType c, uint64_t (*len)(const Std::Raw&), uint64_t command_stats_t::*count, Mine mine) {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    idle(h, mine);
    h.run(t, c);
    auto w = h.want(T);
    refreshed(h, w, t, len(h.raw), T, mine, count);
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (t + len(h.raw) <= T), "nothing is pending once the refresh is over");
    vp::ensures(h.core.getLastCommandTime() == (t + len(h.raw) <= T ? t + len(h.raw) : t), "last command time");
}
// after the refresh the banks are ordinary precharged banks: activating the addressed one makes only it active
template <class Mine> inline void refresh_then_activate(CmdType c, uint64_t (*len)(const Std::Raw&), uint64_t command_stats_t::*count, Mine mine) {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t + len(h.raw)), T = H::time("T", t2);
    idle(h, mine);
    h.run(t, c);
    h.run(t2, CmdType::ACT);
    auto w = h.want(T);
    refreshed(h, w, t, len(h.raw), T, mine, count);
    w.act[H::X][H::Y] += T - t2;
    w.counter[H::X][H::Y].act++;
    if (!h.any_on(H::X)) w.ract[H::X] += T - t2;
    h.check(w, T);
}
// closing the remaining banks while the refresh is running leaves the rank active until the refresh is over
template <class Mine> inline void refresh_and_precharge(CmdType c, uint64_t (*len)(const Std::Raw&), uint64_t command_stats_t::*count, Mine mine, std::size_t other) {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t), T = H::time("T", t2);
    idle(h, mine);
    vp::requires_(h.on(H::X, other));
    h.run(t, c);
    h.run(t2, CmdType::PRE, H::X, other);
    auto w = h.want(T);
    refreshed(h, w, t, len(h.raw), T, mine, count);
    w.act[H::X][other] = h.until(H::X, other, t2, T);
    w.counter[H::X][other].pre++;
    if (!h.others(H::X, other)) w.ract[H::X] = h.until(H::X, std::max(t2, t + len(h.raw)), T);
    h.check(w, T);
}
// two refreshes one after the other
template <class Mine> inline void two_refreshes(CmdType c, uint64_t (*len)(const Std::Raw&), uint64_t command_stats_t::*count, Mine mine) {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t + len(h.raw)), T = H::time("T", t2);
    idle(h, mine);
    h.run(t, c);
    h.run(t2, c);
    auto w = h.want(T);
    refreshed(h, w, t, len(h.raw), T, mine, count);
    refreshed(h, w, t2, len(h.raw), T, mine, count);
    h.check(w, T);
}
inline bool every(std::size_t) { return true; }
inline bool target(std::size_t b) { return b == H::Y; }
inline bool group_mates(std::size_t b) { return b % (H::B / VP_GROUPS) == H::Y % (H::B / VP_GROUPS); }

#ifndef VP_PAIR
void vp_lemma_bounded_refresh_all() { one_refresh(CmdType::REFA, Std::tRFC, &command_stats_t::refAllBank, every); }
void vp_lemma_bounded_refresh_all_then_activate() { refresh_then_activate(CmdType::REFA, Std::tRFC, &command_stats_t::refAllBank, every); }
void vp_lemma_bounded_two_refreshes_all() { two_refreshes(CmdType::REFA, Std::tRFC, &command_stats_t::refAllBank, every); }
#if defined VP_DDR5
void vp_lemma_bounded_refresh_same_bank() { one_refresh(CmdType::REFSB, Std::tRFCsb, &command_stats_t::refSameBank, group_mates); }
void vp_lemma_bounded_refresh_same_bank_then_activate() { refresh_then_activate(CmdType::REFSB, Std::tRFCsb, &command_stats_t::refSameBank, group_mates); }
void vp_lemma_bounded_refresh_same_bank_and_precharge() { refresh_and_precharge(CmdType::REFSB, Std::tRFCsb, &command_stats_t::refSameBank, group_mates, H::Y - 1); }
#elif defined VP_LPDDR4 || defined VP_LPDDR5
void vp_lemma_bounded_refresh_bank() { one_refresh(CmdType::REFB, Std::tRFCpb, &command_stats_t::refPerBank, target); }
void vp_lemma_bounded_refresh_bank_then_activate() { refresh_then_activate(CmdType::REFB, Std::tRFCpb, &command_stats_t::refPerBank, target); }
void vp_lemma_bounded_refresh_bank_and_precharge() { refresh_and_precharge(CmdType::REFB, Std::tRFCpb, &command_stats_t::refPerBank, target, H::Y - 1); }
void vp_lemma_bounded_two_refreshes_bank() { two_refreshes(CmdType::REFB, Std::tRFCpb, &command_stats_t::refPerBank, target); }
#elif defined VP_LPDDR6
// the dual bank comes with the command's coordinate
inline void dual(H& h, uint64_t t, std::size_t other) {
    LPDDR6TargetCoordinate c(TargetCoordinate(H::Y, 0, H::X, 0, 0));
    c.dbank = other;
    h.core.doCommand(LPDDR6Command(t, CmdType::REFDB, c));
}
void vp_lemma_bounded_refresh_dual() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t), len = Std::tRFCdb(h.raw);
    auto mine = [](std::size_t b) { return b == H::Y || b == 0; };
    idle(h, mine);
    dual(h, t, 0);
    auto w = h.want(T);
    refreshed(h, w, t, len, T, mine, &command_stats_t::refDualBanks);
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (t + len <= T), "nothing is pending once the refresh is over");
}
void vp_lemma_bounded_refresh_dual_and_precharge() {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t), T = H::time("T", t2), len = Std::tRFCdb(h.raw);
    auto mine = [](std::size_t b) { return b == H::Y || b == 0; };
    idle(h, mine);
    vp::requires_(h.on(H::X, H::B - 1));
    dual(h, t, 0);
    h.run(t2, CmdType::PRE, H::X, H::B - 1);
    auto w = h.want(T);
    refreshed(h, w, t, len, T, mine, &command_stats_t::refDualBanks);
    w.act[H::X][H::B - 1] = h.until(H::X, H::B - 1, t2, T);
    w.counter[H::X][H::B - 1].pre++;
    if (!h.others(H::X, H::B - 1)) w.ract[H::X] = h.until(H::X, std::max(t2, t + len), T);
    h.check(w, T);
}
#endif
#else  // LPDDR5 with 16 banks: the pair refresh takes the bank eight further on
inline bool pair(std::size_t b) { return b % 8 == H::Y % 8; }
void vp_lemma_bounded_refresh_pair() { one_refresh(CmdType::REFP2B, Std::tRFCpb, &command_stats_t::refPerTwoBanks, pair); }
void vp_lemma_bounded_refresh_pair_low() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t), len = Std::tRFCpb(h.raw);
    auto mine = [](std::size_t b) { return b == 3 || b == 11; };
    idle(h, mine);
    h.run(t, CmdType::REFP2B, H::X, 3);
    auto w = h.want(T);
    refreshed(h, w, t, len, T, mine, &command_stats_t::refPerTwoBanks);
    h.check(w, T);
}
#endif
