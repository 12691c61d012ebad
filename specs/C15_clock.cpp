// util::Clock, bus_stats_t and BinaryOps
#include "vp.h"
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/binary_ops.h>
#include VP_GEN
using namespace DRAMPower;
using namespace DRAMPower::util;
using stats = bus_stats_t;
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
}
constexpr uint64_t LATE = uint64_t(1) << 40;
static stats some(const char*) { return vp::any<stats>("stats"); }
// half of the half-periods high, half low, one edge at the end of each
static void run(stats& s, uint64_t d, uint64_t rate) {
    uint64_t half = d * rate / 2;
    s.ones += half; s.zeroes += half; s.zeroes_to_ones += half; s.ones_to_zeroes += half; s.bit_changes += 2 * half;
}
template <unsigned DR> void clock() {
    const bool stopped = vp::any<bool>("stopped");
    const timestamp_t a = vp::any_in(0, LATE, "a"), b = vp::any_in(0, LATE, "b"), c = vp::any_in(0, LATE, "c");
    Clock k(DR, stopped);
    vp::havoc(k.stats, "stats");
    stats want = k.stats;
    if (vp::cases(stopped)) {
        same(k.get_stats_at(a), want);
        k.start(a);
        vp::requires_(b > a && c >= b);
        stats w2 = want; run(w2, b - a, DR);
        same(k.get_stats_at(b), w2);
        k.stop(b);
        same(k.get_stats_at(c), w2);
    } else {
        vp::requires_(a > 0 && c >= a);
        run(want, a, DR);
        same(k.get_stats_at(a), want);
        k.stop(a);
        same(k.get_stats_at(b), want);
        k.start(b);
        vp::requires_(c >= b);
        run(want, c - b, DR);
        same(k.get_stats_at(c), want);
    }
}
void vp_lemma_clock_2() { clock<2>(); }
void vp_lemma_clock_4() { clock<4>(); }
void vp_lemma_clock_1() { clock<1>(); }
void vp_lemma_sum() {
    const stats a = some("a"), b = some("b");
    const uint64_t k = vp::any<uint64_t>("k");
    stats p = a, m = a;
    p += b;
    m *= k;
    stats ws, wm;
    ws.ones = a.ones + b.ones; ws.zeroes = a.zeroes + b.zeroes; ws.bit_changes = a.bit_changes + b.bit_changes;
    ws.ones_to_zeroes = a.ones_to_zeroes + b.ones_to_zeroes; ws.zeroes_to_ones = a.zeroes_to_ones + b.zeroes_to_ones;
    wm.ones = a.ones * k; wm.zeroes = a.zeroes * k; wm.bit_changes = a.bit_changes * k;
    wm.ones_to_zeroes = a.ones_to_zeroes * k; wm.zeroes_to_ones = a.zeroes_to_ones * k;
    same(p, ws); same(m, wm); same(a + b, ws); same(a * k, wm); same(k * a, wm);
    vp::ensures((a == b) == (a.ones == b.ones && a.zeroes == b.zeroes && a.bit_changes == b.bit_changes
        && a.ones_to_zeroes == b.ones_to_zeroes && a.zeroes_to_ones == b.zeroes_to_ones), "equality of every field");
}
template <class T, std::size_t N> static void ops(T p, T q) {
    uint64_t up = 0, down = 0, ones = 0, changes = 0;
    for (std::size_t i = 0; i < N; ++i) {
        bool a, b;
        if constexpr (std::is_integral_v<T>) { a = ((p >> i) & 1) != 0; b = ((q >> i) & 1) != 0; } else { a = p[i]; b = q[i]; }
        up += !a && b ? 1 : 0; changes += a != b ? 1 : 0; down += a && !b ? 1 : 0; ones += b ? 1 : 0;
    }
    vp::ensures(BinaryOps::popcount(q) == ones, "number of ones");
    vp::ensures(BinaryOps::zero_to_ones(p, q) == up, "number of rising bits");
    vp::ensures(BinaryOps::one_to_zeroes(p, q) == down, "number of falling bits");
    vp::ensures(BinaryOps::bit_changes(p, q) == changes, "number of changing bits");
}
template <std::size_t N> static std::bitset<N> bits() { std::bitset<N> r; for (std::size_t i = 0; i < N; ++i) r[i] = vp::any<bool>("bit"); return r; }
void vp_lemma_ops_bitset() { ops<std::bitset<12>, 12>(bits<12>(), bits<12>()); }
void vp_lemma_ops_u64() { ops<uint64_t, 64>(vp::any<uint64_t>("p"), vp::any<uint64_t>("q")); }
void vp_lemma_ops_u32() { ops<uint32_t, 32>(vp::any<uint32_t>("p"), vp::any<uint32_t>("q")); }
