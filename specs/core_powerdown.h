// C12: power-down takes effect at the earliest legal time and ends at the exit; banks that were active resume
#include "core.h"
// the earliest time a rank can enter (or leave) power-down: tRCD after its last activation, tRP after its last precharge, and
// not before a refresh is over
inline uint64_t earliest(H& h) {
    uint64_t e = 0;
    for (std::size_t b = 0; b < H::B; ++b) {
        Bank& k = h.old(H::X, b);
        if (k.counter.act) e = std::max(e, k.cycles.act.get_start() + Std::tRCD(h.raw));
        if (k.counter.pre) e = std::max(e, k.latestPre + Std::tRP(h.raw));
        e = std::max(e, k.refreshEndTime);
    }
    return e;
}
// active time of an active bank that is in power-down between `in` and `out`
inline void suspended(H& h, H::Want& w, std::size_t b, uint64_t in, uint64_t out, uint64_t T) { w.act[H::X][b] = h.until(H::X, b, in, T) + (T > out ? T - out : 0); }
inline void rank_suspended(H& h, H::Want& w, uint64_t in, uint64_t out, uint64_t T) { w.ract[H::X] = h.until(H::X, in, T) + (T > out ? T - out : 0); }

void vp_lemma_bounded_active_entry() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    vp::requires_(h.any_on(H::X));
    h.run(t, CmdType::PDEA);
    uint64_t in = std::max(t, earliest(h));
    auto w = h.want(T);
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) w.act[H::X][b] = h.until(H::X, b, in, T);
    w.ract[H::X] = h.until(H::X, in, T);
    w.pda[H::X] += T > in ? T - in : 0;
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (in <= T), "nothing is pending once power-down is entered");
}
void vp_lemma_bounded_active_power_down() {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t), T = H::time("T", t2);
    vp::requires_(h.any_on(H::X));
    uint64_t in = std::max(t, earliest(h)), out = std::max(t2, in);
    vp::cases(t2 < in);
    vp::cases(T < in); vp::cases(T < out);
    h.run(t, CmdType::PDEA);
    h.run(t2, CmdType::PDXA);
    auto w = h.want(T);
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) suspended(h, w, b, in, out, T);
    rank_suspended(h, w, in, out, T);
    w.pda[H::X] += H::between(in, out, T);
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (out <= T), "nothing is pending once power-down is left");
}
void vp_lemma_bounded_precharge_entry() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t);
    vp::requires_(!h.any_on(H::X));
    h.run(t, CmdType::PDEP);
    uint64_t in = std::max(t, earliest(h));
    auto w = h.want(T);
    w.pdp[H::X] += T > in ? T - in : 0;
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (in <= T), "nothing is pending once power-down is entered");
}
void vp_lemma_bounded_precharge_power_down() {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t), T = H::time("T", t2);
    vp::requires_(!h.any_on(H::X));
    uint64_t in = std::max(t, earliest(h)), out = std::max(t2, in);
    vp::cases(t2 < in); vp::cases(T < in); vp::cases(T < out);
    h.run(t, CmdType::PDEP);
    h.run(t2, CmdType::PDXP);
    auto w = h.want(T);
    w.pdp[H::X] += H::between(in, out, T);
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (out <= T), "nothing is pending once power-down is left");
}
// after precharge power-down a bank can be activated again
void vp_lemma_bounded_precharge_power_down_then_activate() {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t), in = std::max(t, earliest(h)), out = std::max(t2, in), t3 = H::time("t3", out), T = H::time("T", t3);
    vp::requires_(!h.any_on(H::X));
    vp::cases(t2 < in);
    h.run(t, CmdType::PDEP);
    h.run(t2, CmdType::PDXP);
    h.run(t3, CmdType::ACT);
    auto w = h.want(T);
    w.pdp[H::X] += out - in;
    w.act[H::X][H::Y] += T - t3;
    w.counter[H::X][H::Y].act++;
    w.ract[H::X] += T - t3;
    h.check(w, T);
}
// after active power-down an active bank can be precharged; the others stay active
void vp_lemma_bounded_active_power_down_then_precharge() {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t), in = std::max(t, earliest(h)), out = std::max(t2, in), t3 = H::time("t3", out), T = H::time("T", t3);
    vp::requires_(h.on(H::X, H::Y));
    vp::cases(t2 < in);
    h.run(t, CmdType::PDEA);
    h.run(t2, CmdType::PDXA);
    h.run(t3, CmdType::PRE);
    auto w = h.want(T);
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) suspended(h, w, b, in, out, T);
    rank_suspended(h, w, in, out, T);
    w.act[H::X][H::Y] -= T - t3;
    w.counter[H::X][H::Y].pre++;
    if (!h.others(H::X, H::Y)) w.ract[H::X] -= T - t3;
    w.pda[H::X] += out - in;
    h.check(w, T);
}
// an auto-precharge that falls due during active power-down leaves its bank precharged after the exit
void vp_lemma_bounded_autoprecharge_in_power_down() {
    H h;
    uint64_t t = H::time("t", h.now), t1 = H::time("t1", t), t2 = H::time("t2", t1), in = std::max(t1, earliest(h));
    vp::requires_(h.on(H::X, H::Y) && h.others(H::X, H::Y));
    uint64_t due = std::max(t + Std::rdToPre(h.raw), h.old(H::X, H::Y).cycles.act.get_start() + Std::tRAS(h.raw));
    vp::requires_(in < due && due < t2);
    uint64_t T = H::time("T", t2 + 1000000);
    vp::cases(t1 < in); vp::cases(t2 < due + Std::tRP(h.raw));
    h.run(t, CmdType::RDA);
    h.run(t1, CmdType::PDEA);
    h.run(t2, CmdType::PDXA);
    uint64_t out = std::max(t2, due + Std::tRP(h.raw));
    auto w = h.want(T);
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) { if (b == H::Y) w.act[H::X][b] = h.until(H::X, b, in, T); else suspended(h, w, b, in, out, T); }
    rank_suspended(h, w, in, out, T);
    w.counter[H::X][H::Y].readAuto++;
    w.counter[H::X][H::Y].pre++;
    w.pda[H::X] += out - in;
    h.check(w, T);
}
// a bank whose refresh ends when power-down is entered is precharged, during and after power-down
#if defined VP_LPDDR4 || defined VP_LPDDR5 || defined VP_DDR5 || defined VP_LPDDR6
void vp_lemma_bounded_refresh_before_power_down() {
    H h;
    uint64_t t = H::time("t", h.now), t1 = H::time("t1", t), t2 = H::time("t2", t1);
    vp::requires_(h.on(H::X, H::Y));
    std::size_t o = H::Y - 1, p = o;
#if defined VP_DDR5
    uint64_t len = Std::tRFCsb(h.raw);
    p = H::B - 1;
    vp::requires_(!h.on(H::X, o) && !h.on(H::X, p));
    h.run(t, CmdType::REFSB, H::X, o);
    uint64_t command_stats_t::*count = &command_stats_t::refSameBank;
#elif defined VP_LPDDR6
    uint64_t len = Std::tRFCdb(h.raw);
    p = H::B - 1;
    vp::requires_(!h.on(H::X, o) && !h.on(H::X, p));
    LPDDR6TargetCoordinate c(TargetCoordinate(o, 0, H::X, 0, 0));
    c.dbank = p;
    h.core.doCommand(LPDDR6Command(t, CmdType::REFDB, c));
    uint64_t command_stats_t::*count = &command_stats_t::refDualBanks;
#else
    uint64_t len = Std::tRFCpb(h.raw);
    vp::requires_(!h.on(H::X, o));
    h.run(t, CmdType::REFB, H::X, o);
    uint64_t command_stats_t::*count = &command_stats_t::refPerBank;
#endif
    // the refresh starts the banks' last activity
    bool used = h.old(H::X, o).counter.act || h.old(H::X, p).counter.act;
    uint64_t in = std::max({t1, earliest(h), t + len, used ? t + Std::tRCD(h.raw) : 0}), out = t2, T = H::time("T", out);
    vp::requires_(t1 < t + len);                   // otherwise the refresh is over before power-down is requested
    vp::requires_(in <= t2);
    vp::cases(in == t + len);
    h.run(t1, CmdType::PDEA);
    h.run(t2, CmdType::PDXA);
    auto w = h.want(T);
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) suspended(h, w, b, in, out, T);
    rank_suspended(h, w, in, out, T);
    w.act[H::X][o] += len; w.counter[H::X][o].*count += 1;
    if (p != o) { w.act[H::X][p] += len; w.counter[H::X][p].*count += 1; }
    w.pda[H::X] += out - in;
    h.check(w, T);
}
#endif
// two power-downs one after the other
void vp_lemma_bounded_two_power_downs() {
    H h;
    uint64_t t = H::time("t", h.now), t2 = H::time("t2", t), in = std::max(t, earliest(h)), out = std::max(t2, in);
    uint64_t t3 = H::time("t3", out), t4 = H::time("t4", t3);
    vp::requires_(h.any_on(H::X));
    // activity resumed at the exit
    uint64_t in2 = std::max(t3, earliest(h));
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) in2 = std::max(in2, out + Std::tRCD(h.raw));
    uint64_t out2 = std::max(t4, in2), T = H::time("T", out2);
    vp::cases(t2 < in); vp::cases(t3 < in2); vp::cases(t4 < in2);
    h.run(t, CmdType::PDEA);
    h.run(t2, CmdType::PDXA);
    h.run(t3, CmdType::PDEA);
    h.run(t4, CmdType::PDXA);
    auto w = h.want(T);
    uint64_t lost = out2 - in2;
    for (std::size_t b = 0; b < H::B; ++b) if (h.on(H::X, b)) w.act[H::X][b] -= (out - in) + lost;
    w.ract[H::X] -= (out - in) + lost;
    w.pda[H::X] += (out - in) + lost;
    h.check(w, T);
}
