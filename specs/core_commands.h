// C10: activate, precharge, read and write commands
#include "core.h"
void vp_lemma_bounded_activate() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    vp::requires_(!h.on(H::X, H::Y));
    h.run(t, CmdType::ACT);
    auto w = h.want(T);
    w.act[H::X][H::Y] += T - t;
    w.counter[H::X][H::Y].act++;
    if (!h.any_on(H::X)) w.ract[H::X] += T - t;
    h.check(w, T);
    vp::ensures(h.core.getLastCommandTime() == t, "last command time");
}
void vp_lemma_bounded_precharge() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    h.run(t, CmdType::PRE);
    auto w = h.want(T);
    if (h.on(H::X, H::Y)) {                                   // precharging a precharged bank changes nothing
        w.act[H::X][H::Y] = h.until(H::X, H::Y, t, T);
        w.counter[H::X][H::Y].pre++;
        if (!h.others(H::X, H::Y)) w.ract[H::X] = h.until(H::X, t, T);
    }
    h.check(w, T);
    vp::ensures(h.core.getLastCommandTime() == t, "last command time");
}
void vp_lemma_bounded_precharge_all() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    h.run(t, CmdType::PREA);
    auto w = h.want(T);
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) { w.act[H::X][b] = h.until(H::X, b, t, T); w.counter[H::X][b].pre++; }
    if (h.any_on(H::X)) w.ract[H::X] = h.until(H::X, t, T);
    h.check(w, T);
}
void vp_lemma_bounded_column() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    bool rd = vp::any<bool>("read");
    h.run(t, rd ? CmdType::RD : CmdType::WR);
    auto w = h.want(T);
    (rd ? w.counter[H::X][H::Y].reads : w.counter[H::X][H::Y].writes)++;
    h.check(w, T);
}
// read or write with auto-precharge: the bank is precharged at the due time, unless it is precharged by then
inline void autoprecharge(CmdType c) {
    H h;
    bool rd = c == CmdType::RDA;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    vp::requires_(h.on(H::X, H::Y));
    h.run(t, c);
    uint64_t due = std::max(t + (rd ? Std::rdToPre(h.raw) : Std::wrToPre(h.raw)), h.old(H::X, H::Y).cycles.act.get_start() + Std::tRAS(h.raw));
    auto w = h.want(T);
    w.act[H::X][H::Y] = h.until(H::X, H::Y, due, T);
    (rd ? w.counter[H::X][H::Y].readAuto : w.counter[H::X][H::Y].writeAuto)++;
    if (due <= T) w.counter[H::X][H::Y].pre++;
    if (!h.others(H::X, H::Y)) w.ract[H::X] = h.until(H::X, due, T);
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (due <= T), "nothing is pending once the precharge happened");
    vp::ensures(h.core.getLastCommandTime() == (due <= T ? due : t), "last command time");
}
void vp_lemma_bounded_read_autoprecharge() { autoprecharge(CmdType::RDA); }
void vp_lemma_bounded_write_autoprecharge() { autoprecharge(CmdType::WRA); }
// activate, read or write with auto-precharge, activate again
void vp_lemma_bounded_row_cycle() {
    H h;
    bool rd = vp::any<bool>("read");
    uint64_t t1 = H::time("t1", h.now), t2 = H::time("t2", t1);
    vp::requires_(!h.on(H::X, H::Y));
    h.run(t1, CmdType::ACT);
    h.run(t2, rd ? CmdType::RDA : CmdType::WRA);
    uint64_t due = std::max(t2 + (rd ? Std::rdToPre(h.raw) : Std::wrToPre(h.raw)), t1 + Std::tRAS(h.raw));
    uint64_t t3 = H::time("t3", due), T = H::time("T", t3);
    h.run(t3, CmdType::ACT);
    auto w = h.want(T);
    w.act[H::X][H::Y] += (due - t1) + (T - t3);
    w.counter[H::X][H::Y].act += 2;
    w.counter[H::X][H::Y].pre++;
    (rd ? w.counter[H::X][H::Y].readAuto : w.counter[H::X][H::Y].writeAuto)++;
    if (!h.any_on(H::X)) w.ract[H::X] += (due - t1) + (T - t3);
    h.check(w, T);
}
// two auto-precharges pending at once on different banks happen in due order, each at its own time
void vp_lemma_bounded_two_autoprecharges() {
    H h;
    uint64_t t1 = H::time("t1", h.now), t2 = H::time("t2", t1), T = H::time("T", t2);
    vp::requires_(h.on(H::X, 0) && h.on(H::X, 1));
    h.run(t1, CmdType::WRA, H::X, 0);
    h.run(t2, CmdType::RDA, H::X, 1);
    uint64_t d0 = std::max(t1 + Std::wrToPre(h.raw), h.old(H::X, 0).cycles.act.get_start() + Std::tRAS(h.raw));
    uint64_t d1 = std::max(t2 + Std::rdToPre(h.raw), h.old(H::X, 1).cycles.act.get_start() + Std::tRAS(h.raw));
    auto w = h.want(T);
    w.act[H::X][0] = h.until(H::X, 0, d0, T);
    w.act[H::X][1] = h.until(H::X, 1, d1, T);
    w.counter[H::X][0].writeAuto++; if (d0 <= T) w.counter[H::X][0].pre++;
    w.counter[H::X][1].readAuto++; if (d1 <= T) w.counter[H::X][1].pre++;
    bool rest = false;
    for (std::size_t b = 2; b < H::B; ++b) rest = rest || h.on(H::X, b);
    if (!rest) w.ract[H::X] = h.until(H::X, std::max(d0, d1), T);
    h.check(w, T);
}
#if defined VP_DDR5
// all banks of the same index in every group
void vp_lemma_bounded_precharge_same_bank() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    h.run(t, CmdType::PRESB);
    auto w = h.want(T);
    bool rest = false, some = false;
    std::size_t per = H::B / VP_GROUPS;
    for (std::size_t b = 0; b < H::B; ++b)
        if (h.on(H::X, b)) {
            some = true;
            if (b % per == H::Y % per) { w.act[H::X][b] = h.until(H::X, b, t, T); w.counter[H::X][b].pre++; } else rest = true;
        }
    if (some && !rest) w.ract[H::X] = h.until(H::X, t, T);
    h.check(w, T);
}
#endif
