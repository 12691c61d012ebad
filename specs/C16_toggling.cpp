// TogglingHandle: statistics of a data bus described by a toggling rate
#include "vp.h"
#include <DRAMPower/dram/Interface.h>
#include "DRAMPower/dram/Interface.cpp"
#include VP_GEN
using namespace DRAMPower;
using stats = DRAMPower::util::bus_stats_t;
using Idle = DRAMUtils::Config::TogglingRateIdlePattern;
constexpr uint64_t LATE = uint64_t(1) << 40;
struct View { uint64_t w, dr; double rate, duty; bool high; };
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
}
// n cycles of data, i idle cycles
static stats told(const View& v, uint64_t n, uint64_t i) {
    stats s;
    s.ones = uint64_t(n * v.duty);
    s.zeroes = uint64_t(n * (1 - v.duty));
    s.ones_to_zeroes = uint64_t(n * v.rate / 2);
    (v.high ? s.ones : s.zeroes) += i;
    s.ones *= v.w; s.zeroes *= v.w; s.ones_to_zeroes *= v.w;
    s.zeroes_to_ones = s.ones_to_zeroes;
    s.bit_changes = 2 * s.ones_to_zeroes;
    return s;
}
static View view(uint64_t w, uint64_t dr) {
    if (w == 0) w = vp::any_in(1, uint64_t(1) << 16, "width");
    View v{w, dr, vp::real_in(0, 1, "rate"), vp::real_in(0, 1, "duty"), vp::cases(vp::any<bool>("idle high"))};
    return v;
}
// any reachable state: `off` cycles spent switched off, `n` cycles of finished data, possibly a burst of `len` cycles from `from` on
struct State { bool on, burst; uint64_t n, off, len; timestamp_t from, since, last; };
static TogglingHandle make(const View& v, State& s) {
    TogglingHandle h(v.w, v.dr, v.rate, v.duty, v.high ? Idle::H : Idle::L, true);
    s.on = vp::cases(vp::any<bool>("on")); s.burst = s.on && vp::cases(vp::any<bool>("burst"));
    s.len = s.burst ? vp::any_in(0, LATE, "len") : 0;
    s.from = vp::any_in(0, LATE, "from") * v.dr; s.since = vp::any_in(0, LATE, "since") * v.dr;
    const timestamp_t most = vp::searching() ? (s.on ? s.from : s.since) / 2 : LATE;     // (steers random native runs)
    s.n = vp::any_in(0, most, "n"); s.off = vp::any_in(0, most, "off");
    s.last = s.burst ? s.from : s.on ? s.from : s.since;   // the time of the last event
    vp::requires_(s.n + s.off <= s.last);
    h.enableflag = s.on; h.count = s.n; h.disable_time = s.off; h.disable_timestamp = s.since;
    h.last_burst.handled = !s.burst; h.last_burst.last_length = vp::any<uint64_t>("length"); h.last_burst.last_load = s.from;
    if (s.burst) h.last_burst.last_length = s.len;
    return h;
}
static uint64_t data(const State& s, timestamp_t v) { return s.n + (s.burst ? (v < s.from + s.len ? v - s.from : s.len) : 0); }
static uint64_t away(const State& s, timestamp_t v) { return s.off + (s.on ? 0 : v - s.since); }
static stats seen(const View& v, const State& s, timestamp_t t) { return told(v, data(s, t * v.dr), t * v.dr - away(s, t * v.dr) - data(s, t * v.dr)); }

template <uint64_t W, uint64_t DR> void reached() {
    const View v = view(W, DR);
    State s;
    const TogglingHandle h = make(v, s);
    const timestamp_t t = vp::any_in(0, LATE, "t");
    vp::requires_(t * DR >= s.last);
    same(h.get_stats(t), seen(v, s, t));
}
template <uint64_t W, uint64_t DR> void fresh() {
    const View v = view(W, DR);
    const bool on = vp::cases(vp::any<bool>("on"));
    const TogglingHandle h(v.w, v.dr, v.rate, v.duty, v.high ? Idle::H : Idle::L, on);
    const timestamp_t t = vp::any_in(0, LATE, "t");
    same(h.get_stats(t), told(v, 0, on ? t * DR : 0));
    vp::ensures(h.isEnabled() == on && h.getWidth() == v.w && h.getDatarate() == DR, "configuration");
}
template <uint64_t W, uint64_t DR> void burst() {
    const View v = view(W, DR);
    State s;
    TogglingHandle h = make(v, s);
    const timestamp_t a = vp::any_in(0, LATE, "a"), t = vp::any_in(0, LATE, "t");
    const uint64_t len = vp::any_in(0, LATE, "burst length"), va = a * DR;
    vp::requires_(va >= s.last && (!s.burst || va >= s.from + s.len) && t >= a);
    const uint64_t n0 = data(s, va), off = away(s, t * DR), run = t * DR - va;
    if (W != 0 && vp::cases(vp::any<bool>("bits"))) h.incCountBitLength(a, len * v.w); else h.incCountBurstLength(a, len);
    const uint64_t n = n0 + (s.on ? (run < len ? run : len) : 0);
    same(h.get_stats(t), told(v, n, t * DR - off - n));
}
template <uint64_t W, uint64_t DR> void off_on() {
    const View v = view(W, DR);
    State s;
    TogglingHandle h = make(v, s);
    const timestamp_t a = vp::any_in(0, LATE, "a"), b = vp::any_in(0, LATE, "b"), t = vp::any_in(0, LATE, "t");
    vp::requires_(a * DR >= s.last && b >= a);
    const uint64_t n = data(s, a * DR), off = away(s, a * DR);
    h.disable(a);
    vp::ensures(!h.isEnabled(), "switched off");
    same(h.get_stats(b), told(v, n, a * DR - off - n));
    h.enable(b);
    vp::ensures(h.isEnabled(), "switched on");
    vp::requires_(t >= b);
    const uint64_t gone = off + (b - a) * DR;
    same(h.get_stats(t), told(v, n, t * DR - gone - n));
    if (vp::cases(vp::any<bool>("then data"))) {
        const uint64_t len = vp::any_in(0, LATE, "burst length"), run = (t - b) * DR;
        h.incCountBurstLength(b, len);
        const uint64_t m = n + (run < len ? run : len);
        same(h.get_stats(t), told(v, m, t * DR - gone - m));
    }
}
void vp_lemma_fresh() { fresh<0, 2>(); }
void vp_lemma_reached_2() { reached<0, 2>(); }
void vp_lemma_reached_1() { reached<0, 1>(); }
void vp_lemma_burst_any_2() { burst<0, 2>(); }
void vp_lemma_burst_8_2() { burst<8, 2>(); }
void vp_lemma_burst_16_1() { burst<16, 1>(); }
void vp_lemma_off_on_2() { off_on<0, 2>(); }
void vp_lemma_off_on_1() { off_on<0, 1>(); }
void vp_lemma_last_burst() {
    const View v = view(8, 2);
    TogglingHandle h(v.w, v.dr, v.rate, v.duty, Idle::L, true);
    const timestamp_t a = vp::any_in(0, LATE, "a");
    const uint64_t len = vp::any_in(0, LATE, "burst length");
    h.incCountBurstLength(a, len);
    vp::ensures(h.get_lastburst_timestamp() == a + (len + 1) / 2, "end of the last burst in clock cycles");
    vp::ensures(h.get_lastburst_timestamp(false) == 2 * a + len, "end of the last burst in bus cycles");
}
