// util::Pin: the statistics are those of the signal on the pin, cycle by cycle
#include "vp.h"
#include <DRAMPower/util/pin.h>
#include VP_GEN
using namespace DRAMPower;
using namespace DRAMPower::util;
using stats = bus_stats_t;
constexpr uint64_t LATE = uint64_t(1) << 40;

static PinState state_of(const char* n, bool z) {
    if (z && vp::cases(vp::any<bool>("Z"))) return PinState::Z;
    return vp::any<bool>(n) ? PinState::H : PinState::L;
}
static void edge(stats& s, PinState p, PinState q) {
    bool up = p == PinState::L && q == PinState::H, down = p == PinState::H && q == PinState::L;
    s.bit_changes += up || down ? 1 : 0;
    s.zeroes_to_ones += up ? 1 : 0;
    s.ones_to_zeroes += down ? 1 : 0;
}
static void level(stats& s, PinState q, uint64_t n) {
    s.ones += q == PinState::H ? n : 0;
    s.zeroes += q == PinState::L ? n : 0;
}
static stats some() {
    stats s;
    s.ones = vp::any_in(0, uint64_t(1) << 50, "ones"); s.zeroes = vp::any_in(0, uint64_t(1) << 50, "zeroes");
    s.bit_changes = vp::any_in(0, uint64_t(1) << 50, "changes");
    s.ones_to_zeroes = vp::any_in(0, uint64_t(1) << 50, "falling"); s.zeroes_to_ones = vp::any_in(0, uint64_t(1) << 50, "rising");
    return s;
}
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
}
static uint64_t cycles(timestamp_t v, timestamp_t from, uint64_t n) {
    for (uint64_t i = 0; i <= n; ++i) if (vp::cases(v == from + i)) return i;
    vp::requires_(v > from + n);
    return n + 1;
}
template <std::size_t N, unsigned DR> void idle() {
    const PinState init = state_of("init", true), idle = state_of("idle", true);
    const Pin<N> pin(init, idle);
    const timestamp_t t = vp::any_in(0, LATE, "t");
    stats want;
    if (vp::cases(t > 0)) edge(want, init, idle);
    level(want, idle, t * DR);
    same(pin.get_stats_at(t, DR), want);
}
// K bits from time t1 on; p was on the pin before, `before` is what had happened until t1
template <std::size_t N, unsigned DR, std::size_t K> static void loads(Pin<N>& pin, PinState idle, timestamp_t t1, const stats& before, PinState p) {
    bool bit[K];
    for (std::size_t i = 0; i < K; ++i) { bit[i] = vp::any<bool>("bit"); pin.set(t1, bit[i] ? PinState::H : PinState::L, DR); }
    const timestamp_t t2 = vp::any_in(0, LATE, "t2"), v1 = t1 * DR, v2 = t2 * DR;
    vp::requires_(t2 >= t1);
    const uint64_t n = cycles(v2, v1, K);
    stats want = before;
    for (std::size_t i = 0; i < K && i < n; ++i) {
        PinState q = bit[i] ? PinState::H : PinState::L;
        edge(want, p, q); level(want, q, 1);
        p = q;
    }
    if (n > K) { edge(want, p, idle); level(want, idle, v2 - v1 - K); }
    same(pin.get_stats_at(t2, DR), want);
}
template <std::size_t N, unsigned DR, std::size_t K> void first() {
    const PinState init = state_of("init", true), idle = state_of("idle", true);
    Pin<N> pin(init, idle);
    const timestamp_t t1 = vp::any_in(0, LATE, "t1");
    const bool late = vp::cases(t1 > 0);
    stats want;
    if (late) edge(want, init, idle);
    level(want, idle, t1 * DR);
    loads<N, DR, K>(pin, idle, t1, want, late ? idle : init);
}
template <std::size_t N, unsigned DR, std::size_t K0, std::size_t K> void step() {
    const PinState init = PinState::L, idle = state_of("idle", true);
    Pin<N> pin(init, idle);
    const timestamp_t t0 = vp::any_in(0, LATE, "t0"), t1 = vp::any_in(0, LATE, "t1");
    PinState last = init;
    for (std::size_t i = 0; i < K0; ++i) { last = vp::any<bool>("old") ? PinState::H : PinState::L; pin.set(t0, last, DR); }
    pin.m_stats = some();
    pin.m_pending_stats.setPendingStats(t0 * DR, {state_of("from", true), state_of("to", false)});
    vp::requires_(t1 * DR >= t0 * DR + K0);
    const bool seamless = cycles(t1 * DR, t0 * DR + K0, 0) == 0;
    loads<N, DR, K>(pin, idle, t1, pin.get_stats_at(t1, DR), seamless ? last : idle);
}
void vp_lemma_bounded_idle_1() { idle<8, 1>(); }
void vp_lemma_bounded_idle_2() { idle<8, 2>(); }
void vp_lemma_bounded_first_1() { first<8, 1, 3>(); }
void vp_lemma_bounded_first_2() { first<8, 2, 4>(); }
void vp_lemma_bounded_step_1() { step<8, 1, 3, 3>(); }
void vp_lemma_bounded_step_2() { step<8, 2, 4, 3>(); }
