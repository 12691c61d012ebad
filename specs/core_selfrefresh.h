// C13: self-refresh starts with a refresh of the whole rank and lasts from the end of that refresh until the exit; deep sleep is
// counted apart from it
#include "core.h"
inline void refreshed(H& h, H::Want& w, uint64_t t, uint64_t T) {
    uint64_t len = Std::tRFC(h.raw);
    for (std::size_t b = 0; b < H::B; ++b) { w.act[H::X][b] += H::between(t, t + len, T); w.counter[H::X][b].refAllBank++; }
    w.ract[H::X] += H::between(t, t + len, T);
}
inline uint64_t after(uint64_t s, uint64_t T) { return T > s ? T - s : 0; }

void vp_lemma_bounded_self_refresh_entry() {
    H h;
    uint64_t t = H::time("t", h.now), T = H::time("T", t), s = t + Std::tRFC(h.raw);
    vp::requires_(!h.any_on(H::X));
    vp::cases(s <= T);
    h.run(t, CmdType::SREFEN);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    w.sref[H::X] += after(s, T);
    h.check(w, T);
    vp::ensures(h.core.isSerializable() == (s <= T), "nothing is pending once self-refresh has begun");
}
void vp_lemma_bounded_self_refresh() {
    H h;
    uint64_t t = H::time("t", h.now), s = t + Std::tRFC(h.raw), t2 = H::time("t2", s), T = H::time("T", t2);
    vp::requires_(!h.any_on(H::X));
    vp::cases(s == t);
    h.run(t, CmdType::SREFEN);
    h.run(t2, CmdType::SREFEX);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    w.sref[H::X] += t2 - s;
    h.check(w, T);
    vp::ensures(h.core.isSerializable(), "nothing is pending after the exit");
    vp::ensures(h.core.getLastCommandTime() == t2, "last command time");
}
void vp_lemma_bounded_self_refresh_then_activate() {
    H h;
    uint64_t t = H::time("t", h.now), s = t + Std::tRFC(h.raw), t2 = H::time("t2", s), t3 = H::time("t3", t2), T = H::time("T", t3);
    vp::requires_(!h.any_on(H::X));
    vp::cases(s == t);
    h.run(t, CmdType::SREFEN);
    h.run(t2, CmdType::SREFEX);
    h.run(t3, CmdType::ACT);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    w.sref[H::X] += t2 - s;
    w.act[H::X][H::Y] += T - t3;
    w.counter[H::X][H::Y].act++;
    w.ract[H::X] += T - t3;
    h.check(w, T);
}
void vp_lemma_bounded_two_self_refreshes() {
    H h;
    uint64_t len = Std::tRFC(h.raw), t = H::time("t", h.now), t2 = H::time("t2", t + len), t3 = H::time("t3", t2), t4 = H::time("t4", t3 + len), T = H::time("T", t4);
    vp::requires_(!h.any_on(H::X));
    vp::cases(len == 0);
    h.run(t, CmdType::SREFEN);
    h.run(t2, CmdType::SREFEX);
    h.run(t3, CmdType::SREFEN);
    h.run(t4, CmdType::SREFEX);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    refreshed(h, w, t3, T);
    w.sref[H::X] += t2 - (t + len) + (t4 - (t3 + len));
    h.check(w, T);
}
// a second rank is unaffected and can be used meanwhile
void vp_lemma_bounded_other_rank_in_use() {
    H h;
    uint64_t t = H::time("t", h.now), s = t + Std::tRFC(h.raw), ta = H::time("ta", t), T = H::time("T", ta);
    vp::requires_(!h.any_on(H::X) && !h.on(0, 0));
    vp::cases(s <= ta); vp::cases(s <= T);
    h.run(t, CmdType::SREFEN);
    h.run(ta, CmdType::ACT, 0, 0);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    w.sref[H::X] += after(s, T);
    w.act[0][0] += T - ta;
    w.counter[0][0].act++;
    if (!h.any_on(0)) w.ract[0] += T - ta;
    h.check(w, T);
}
#ifdef VP_LPDDR5
void vp_lemma_bounded_deep_sleep_entry() {
    H h;
    uint64_t t = H::time("t", h.now), s = t + Std::tRFC(h.raw), a = H::time("a", s), T = H::time("T", a);
    vp::requires_(!h.any_on(H::X));
    vp::cases(s == t);
    h.run(t, CmdType::SREFEN);
    h.run(a, CmdType::DSMEN);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    w.sref[H::X] += T - s;                 // `sref` is self-refresh including deep sleep
    w.dsm[H::X] += T - a;
    h.check(w, T);
}
void vp_lemma_bounded_deep_sleep() {
    H h;
    uint64_t t = H::time("t", h.now), s = t + Std::tRFC(h.raw), a = H::time("a", s), b = H::time("b", a), e = H::time("e", b), T = H::time("T", e);
    vp::requires_(!h.any_on(H::X));
    vp::cases(s == t);
    h.run(t, CmdType::SREFEN);
    h.run(a, CmdType::DSMEN);
    h.run(b, CmdType::DSMEX);
    h.run(e, CmdType::SREFEX);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    w.sref[H::X] += e - s;
    w.dsm[H::X] += b - a;
    h.check(w, T);
}
void vp_lemma_bounded_deep_sleep_left() {
    H h;
    uint64_t t = H::time("t", h.now), s = t + Std::tRFC(h.raw), a = H::time("a", s), b = H::time("b", a), T = H::time("T", b);
    vp::requires_(!h.any_on(H::X));
    vp::cases(s == t);
    h.run(t, CmdType::SREFEN);
    h.run(a, CmdType::DSMEN);
    h.run(b, CmdType::DSMEX);
    auto w = h.want(T);
    refreshed(h, w, t, T);
    w.sref[H::X] += T - s;
    w.dsm[H::X] += b - a;
    h.check(w, T);
}
#endif
