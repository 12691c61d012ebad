// util::Bus: the statistics are those of the signal on the wires, cycle by cycle
#include "vp.h"
#include <DRAMPower/util/bus.h>
#include VP_GEN
using namespace DRAMPower;
using namespace DRAMPower::util;
using stats = bus_stats_t;

// what one cycle on the wires contributes: p the values before it, q the values during it
template <std::size_t N> static void add(stats& s, const std::bitset<N>& p, const std::bitset<N>& q, std::size_t width) {
    for (std::size_t i = 0; i < width; ++i) {
        bool a = p[i], b = q[i];
        s.ones += b ? 1 : 0;
        s.zeroes += 1 - (b ? 1 : 0);
        s.bit_changes += a != b ? 1 : 0;
        s.ones_to_zeroes += a && !b ? 1 : 0;
        s.zeroes_to_ones += !a && b ? 1 : 0;
    }
}
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
}
template <std::size_t N> static std::bitset<N> idle_of(bool high) {
    std::bitset<N> r;
    for (std::size_t i = 0; i < N; ++i) r[i] = high;
    return r;
}
static stats some() {
    stats s;
    s.ones = vp::any_in(0, uint64_t(1) << 50, "ones"); s.zeroes = vp::any_in(0, uint64_t(1) << 50, "zeroes");
    s.bit_changes = vp::any_in(0, uint64_t(1) << 50, "changes");
    s.ones_to_zeroes = vp::any_in(0, uint64_t(1) << 50, "falling"); s.zeroes_to_ones = vp::any_in(0, uint64_t(1) << 50, "rising");
    return s;
}
constexpr uint64_t LATE = uint64_t(1) << 40;

// a new bus idles from the start
template <std::size_t N, unsigned DR> void fresh() {
    bool high = vp::cases(vp::any<bool>("idle high"));
    Bus<N> bus(N, DR, high ? BusIdlePatternSpec::H : BusIdlePatternSpec::L);
    timestamp_t t = vp::any_in(0, LATE, "t");
    stats want;
    (high ? want.ones : want.zeroes) = N * DR * t;
    same(bus.get_stats(t), want);
    vp::ensures(bus.at(t) == idle_of<N>(high), "the idle pattern is on the wires");
}
// t lies k cycles of the wires after from (or more than n)
static uint64_t cycles(timestamp_t v, timestamp_t from, uint64_t n) {
    for (uint64_t i = 0; i <= n; ++i) if (vp::cases(v == from + i)) return i;
    vp::requires_(v > from + n);
    return n + 1;
}
// any state of a running bus: every statistics value, the last load K0 bursts of any content
template <std::size_t N, unsigned DR, std::size_t K0> static timestamp_t running(Bus<N>& bus) {
    timestamp_t t0 = vp::any_in(0, LATE, "t0");
    uint8_t d0[(N * K0 + 7) / 8 + 1];
    for (auto& x : d0) x = vp::any<uint8_t>("d0");
    bus.load(t0, d0, N * K0);
    bus.stats = some();
    bus.pending_stats.setPendingStats(t0 * DR, some());
    for (std::size_t j = 0; j < N; ++j) bus.last_pattern[j] = vp::any<bool>("before");
    return t0;
}
// another load of K bursts changes nothing before it and appears cycle by cycle from then on
template <std::size_t N, unsigned DR, std::size_t K> static void loads(Bus<N>& bus, bool high, timestamp_t t1, const stats& before, std::bitset<N> p) {
    const std::bitset<N> idle = idle_of<N>(high);
    timestamp_t t2 = vp::any_in(0, LATE, "t2");
    uint8_t d1[(N * K + 7) / 8 + 1];
    for (auto& x : d1) x = vp::any<uint8_t>("d1");
    bus.load(t1, d1, N * K);
    const timestamp_t v1 = t1 * DR, v2 = t2 * DR;
    vp::requires_(t2 >= t1);
    const uint64_t n = cycles(v2, v1, K);
    stats want = before;
    for (std::size_t i = 0; i < K; ++i) {
        std::bitset<N> q;   // burst K-1-i of the data
        for (std::size_t j = 0; j < N; ++j) { std::size_t bit = (K - 1 - i) * N + j; q[j] = ((d1[bit / 8] >> (bit % 8)) & 1) != 0; }
        vp::ensures(bus.at(v1 + i) == q, "the loaded bits are on the wires, last burst of the word first");
        if (i < n) { add(want, p, q, N); p = q; }
    }
    vp::ensures(bus.at(v1 + K + t2) == idle, "the idle pattern returns after the burst");
    if (n > K) {
        add(want, p, idle, N);
        (high ? want.ones : want.zeroes) += N * (v2 - (v1 + K) - 1);
    }
    same(bus.get_stats(t2), want);
}
template <std::size_t N, unsigned DR, std::size_t K0, std::size_t K> void step() {
    bool high = vp::cases(vp::any<bool>("idle high"));
    Bus<N> bus(N, DR, high ? BusIdlePatternSpec::H : BusIdlePatternSpec::L);
    const timestamp_t t0 = running<N, DR, K0>(bus), t1 = vp::any_in(0, LATE, "t1");
    vp::requires_(t1 * DR >= t0 * DR + K0);
    cycles(t1 * DR, t0 * DR + K0, 0);
    const std::bitset<N> prev = bus.at(t1 * DR - 1);
    loads<N, DR, K>(bus, high, t1, bus.get_stats(t1), prev);
}
// the very first load: the wires idle before it
template <std::size_t N, unsigned DR> void first() {
    bool high = vp::cases(vp::any<bool>("idle high"));
    Bus<N> bus(N, DR, high ? BusIdlePatternSpec::H : BusIdlePatternSpec::L);
    const std::bitset<N> idle = idle_of<N>(high);
    timestamp_t t1 = vp::any_in(0, LATE, "t1");
    uint64_t d = vp::any_in(0, (uint64_t(1) << N) - 1, "data");
    bus.load(t1, d, 1);
    stats want;
    (high ? want.ones : want.zeroes) = N * DR * t1;
    same(bus.get_stats(t1), want);
    std::bitset<N> q;
    for (std::size_t j = 0; j < N; ++j) q[j] = ((d >> j) & 1) != 0;
    add(want, idle, q, N);
    if (DR > 1) { add(want, q, idle, N); (high ? want.ones : want.zeroes) += N * (DR - 2); }
    same(bus.get_stats(t1 + 1), want);
}
// switched off and on again: nothing is counted in between, and the wires idle from the moment it is on
template <std::size_t N, unsigned DR, std::size_t K0> void off() {
    bool high = vp::cases(vp::any<bool>("idle high"));
    Bus<N> bus(N, DR, high ? BusIdlePatternSpec::H : BusIdlePatternSpec::L);
    const timestamp_t t0 = running<N, DR, K0>(bus), toff = vp::any_in(0, LATE, "off"), t = vp::any_in(0, LATE, "t");
    vp::requires_(toff >= t0);
    cycles(toff * DR, t0 * DR, K0);
    const stats before = bus.get_stats(toff);
    vp::ensures(bus.disable(toff) == toff, "switch-off time");
    vp::requires_(t >= toff);
    uint8_t d[2] = {vp::any<uint8_t>("d"), vp::any<uint8_t>("d")};
    if (vp::cases(vp::any<bool>("load while off"))) bus.load(toff, d, N * 2);
    if (vp::cases(vp::any<bool>("off again"))) vp::ensures(bus.disable(t) == t, "switch-off time of a bus that is off");
    same(bus.get_stats(t), before);
}
template <std::size_t N, unsigned DR, std::size_t K0> static timestamp_t on(Bus<N>& bus, stats& before) {
    const timestamp_t t0 = running<N, DR, K0>(bus), toff = vp::any_in(0, LATE, "off"), ton = vp::any_in(0, LATE, "on");
    vp::requires_(toff >= t0 && ton > toff);
    cycles(toff * DR, t0 * DR, K0);
    bus.disable(toff);
    before = bus.get_stats(toff);
    bus.enable(ton);
    return ton;
}
template <std::size_t N, unsigned DR, std::size_t K0> void off_on() {
    bool high = vp::cases(vp::any<bool>("idle high"));
    Bus<N> bus(N, DR, high ? BusIdlePatternSpec::H : BusIdlePatternSpec::L);
    stats want;
    const timestamp_t ton = on<N, DR, K0>(bus, want), t = vp::any_in(0, LATE, "t");
    vp::requires_(t >= ton);
    cycles(t * DR, ton * DR, 0);
    if (vp::cases(vp::any<bool>("on again"))) bus.enable(t);
    (high ? want.ones : want.zeroes) += N * DR * (t - ton);
    same(bus.get_stats(t), want);
}
template <std::size_t N, unsigned DR, std::size_t K0, std::size_t K> void off_on_load() {
    bool high = vp::cases(vp::any<bool>("idle high"));
    Bus<N> bus(N, DR, high ? BusIdlePatternSpec::H : BusIdlePatternSpec::L);
    stats want;
    const timestamp_t ton = on<N, DR, K0>(bus, want), t = vp::any_in(0, LATE, "t");
    vp::requires_(t >= ton);
    cycles(t * DR, ton * DR, 0);
    (high ? want.ones : want.zeroes) += N * DR * (t - ton);
    loads<N, DR, K>(bus, high, t, want, idle_of<N>(high));
}
// a bus that was off from the start
template <std::size_t N, unsigned DR> void late() {
    bool high = vp::cases(vp::any<bool>("idle high"));
    Bus<N> bus(N, DR, high ? BusIdlePatternSpec::H : BusIdlePatternSpec::L, false);
    const timestamp_t ton = vp::any_in(1, LATE, "on"), t = vp::any_in(0, LATE, "t");
    same(bus.get_stats(ton), stats());
    bus.enable(ton);
    vp::requires_(t >= ton);
    cycles(t * DR, ton * DR, 0);
    stats want;
    (high ? want.ones : want.zeroes) += N * DR * (t - ton);
    same(bus.get_stats(t), want);
}
void vp_lemma_bounded_fresh_4_1() { fresh<4, 1>(); }
void vp_lemma_bounded_fresh_6_2() { fresh<6, 2>(); }
void vp_lemma_bounded_first_4_1() { first<4, 1>(); }
void vp_lemma_bounded_first_6_2() { first<6, 2>(); }
void vp_lemma_bounded_step_4_1() { step<4, 1, 2, 3>(); }
void vp_lemma_bounded_step_3_2() { step<3, 2, 3, 4>(); }
void vp_lemma_bounded_step_8_2() { vp::branches(); step<8, 2, 2, 2>(); }
void vp_lemma_bounded_off_4_1() { off<4, 1, 2>(); }
void vp_lemma_bounded_off_3_2() { off<3, 2, 4>(); }
void vp_lemma_bounded_off_on_4_1() { off_on<4, 1, 2>(); }
void vp_lemma_bounded_off_on_3_2() { off_on<3, 2, 4>(); }
void vp_lemma_bounded_off_on_load_4_1() { off_on_load<4, 1, 1, 2>(); }
void vp_lemma_bounded_off_on_load_3_2() { off_on_load<3, 2, 2, 2>(); }
void vp_lemma_bounded_late_4_1() { late<4, 1>(); }
void vp_lemma_bounded_late_3_2() { late<3, 2>(); }
