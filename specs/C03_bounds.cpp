// sub_bitset in builds without assertions: anything outside the width is rejected with std::out_of_range and changes nothing
#define NDEBUG
#include "vp.h"
#include <stdexcept>
#include <DRAMPower/util/sub_bitset.h>
#include VP_GEN
using DRAMPower::util::sub_bitset;
template <std::size_t M> void bounds() {
    std::size_t w = vp::any<std::size_t>("w"), i = vp::any<std::size_t>("i");
    uint64_t v = vp::any<uint64_t>("v");
    bool x = vp::any<bool>("x");
    int made = 0, made2 = 0;
    try { sub_bitset<M> b(w); made = 1; } catch (const std::out_of_range&) { made = 2; }
    try { sub_bitset<M> b(w, v); made2 = 1; } catch (const std::out_of_range&) { made2 = 2; }
    vp::ensures(made == (w <= M ? 1 : 2), "construction is rejected exactly when the width exceeds the maximum");
    vp::ensures(made2 == (w <= M ? 1 : 2), "construction from a number is rejected exactly when the width exceeds the maximum");
    vp::requires_(w <= M);
    sub_bitset<M> b(w, v);
    const sub_bitset<M> o = b;
    int s = 0, f = 0, g = 0, h = 0;
    try { (void)b[i]; g = 1; } catch (const std::out_of_range&) { g = 2; }
    try { (void)o[i]; h = 1; } catch (const std::out_of_range&) { h = 2; }
    try { b.set(i, x); s = 1; } catch (const std::out_of_range&) { s = 2; }
    if (i >= w) vp::ensures(b == o, "rejected set changes nothing");
    sub_bitset<M> c(w, v);
    try { c.flip(i); f = 1; } catch (const std::out_of_range&) { f = 2; }
    if (i >= w) vp::ensures(c == o, "rejected flip changes nothing");
    int want = i < w ? 1 : 2;
    vp::ensures(g == want && h == want, "access is rejected exactly outside the width");
    vp::ensures(s == want, "set is rejected exactly outside the width");
    vp::ensures(f == want, "flip is rejected exactly outside the width");
}
void vp_lemma_bounds_8() { bounds<8>(); }
void vp_lemma_bounds_5() { bounds<5>(); }
