// Data bus inversion of whole bursts
#include "vp.h"
#include <iterator>
#include <cassert>
#include <sstream>
#include <DRAMPower/util/dbi.h>
#include VP_GEN
using namespace DRAMPower;
using namespace DRAMPower::util;
using Bytes = std::vector<uint8_t>;
struct Event { uint64_t load, time; bool inverted, read; };
static bool same(const Event& a, const Event& b) { return a.load == b.load && a.time == b.time && a.inverted == b.inverted && a.read == b.read; }
// the events of each pin
struct Pins {
    Event e[4][3] = {};
    std::size_t n[4] = {0, 0, 0, 0};
    void add(std::size_t p, const Event& x) {
        vp::ensures(p < 4, "an event names a pin");
        if (n[p] == 0) e[p][0] = x; else if (n[p] == 1) e[p][1] = x; else e[p][2] = x;
        n[p]++;
    }
    void clear() { for (std::size_t p = 0; p < 4; ++p) n[p] = 0; }
};
static void agree(const Pins& a, const Pins& b, const char*) {
    for (std::size_t p = 0; p < 4; ++p) {
        vp::ensures(a.n[p] == b.n[p], "one event per chunk on its pin, and a release for every pin left active by a burst that ended before");
        for (std::size_t k = 0; k < 3; ++k) vp::ensures(k >= b.n[p] || same(a.e[p][k], b.e[p][k]), "pin events carry time, state and direction of their chunk");
    }
}
static std::size_t ones(uint8_t x) { std::size_t r = 0; for (int i = 0; i < 8; ++i) r += ((x >> i) & 1) != 0 ? 1 : 0; return r; }
template <std::size_t S, PinState IDLE> static bool decision(const Bytes& d, std::size_t c) {
    std::size_t hi = 0;
    for (std::size_t s = 0; s < S; ++s) hi += ones(d[c * S + s]);
    return IDLE == PinState::L ? 8 * S - hi < hi : hi < 8 * S - hi;
}
static Bytes data(std::size_t n, const char* name) { Bytes v(n); for (std::size_t i = 0; i < n; ++i) v[i] = vp::any<uint8_t>(name); return v; }

// what one burst shows: the data with the flagged chunks inverted, the flags, and the pin events
template <std::size_t S, PinState IDLE, class Dbi> static void burst(Dbi& dbi, Pins& want, uint64_t t, const Bytes& d, std::size_t perBeat, bool read) {
    std::size_t chunks = d.size() / S;
    auto r = dbi.updateDBI(t, d.size() * 8, d.data(), read);
    vp::ensures(r.has_value(), "an enabled inverter returns the data to transfer");
    const auto& flags = read ? dbi.getInversionStateRead() : dbi.getInversionStateWrite();
    vp::ensures(flags.size() >= chunks, "every chunk of the burst has an inversion flag");
    auto [p, n] = dbi.getInvertedData();
    vp::ensures(n == d.size() && dbi.getInvertedDataSize() == d.size() && (read ? dbi.getInversionSizeRead() : dbi.getInversionSizeWrite()) == d.size(), "the sizes reported are those of the burst");
    for (std::size_t c = 0; c < chunks; ++c) {
        bool inv = decision<S, IDLE>(d, c);
        vp::ensures(flags[c] == inv, "a chunk is flagged exactly when more than half of its bits differ from the idle level");
        want.add(perBeat ? c % perBeat : c, Event{t, perBeat ? t + c / perBeat : t, inv, read});
        for (std::size_t s = 0; s < S; ++s) {
            uint8_t b = d[c * S + s], e = inv ? static_cast<uint8_t>(~b) : b;
            vp::ensures((*r)[c * S + s] == e && p[c * S + s] == e, "exactly the flagged chunks are inverted");
        }
    }
}
const uint64_t BIG = uint64_t(1) << 62;
// pins of the last beat that are active return to idle at the end of the burst
template <std::size_t S, PinState IDLE> static void release(Pins& want, uint64_t now, uint64_t end, const Bytes& d, std::size_t perBeat, bool read) {
    std::size_t chunks = d.size() / S;
    for (std::size_t c = perBeat ? chunks - perBeat : 0; c < chunks; ++c)
        if (decision<S, IDLE>(d, c)) want.add(perBeat ? c % perBeat : c, Event{now, end, false, read});
}
// two bursts (of b1 and b2 beats) with a fixed bus width of perBeat chunks, then a reset
template <std::size_t S, PinState IDLE, bool R1, bool R2, bool SEAMLESS> static void withWidth(std::size_t perBeat, std::size_t b1, std::size_t b2) {
    Pins log, want;
    DBI<uint8_t, S, IDLE, StaticDBI> dbi(perBeat * S * 8, 16, [&log](timestamp_t l, timestamp_t t, std::size_t p, bool i, bool r) { log.add(p, Event{l, t, i, r}); }, true);
    vp::ensures(dbi.getChunksPerWidth() == std::optional<std::size_t>(perBeat) && dbi.getIdlePattern() == IDLE && dbi.isEnabled(), "the configuration is reported");
    vp::ensures(!dbi.getLastBurstEnd(true) && !dbi.getLastBurstEnd(false), "no burst yet");
    uint64_t t1 = vp::any<uint64_t>("t1"), gap = vp::any<uint64_t>("gap"), late = vp::any<uint64_t>("late");
    vp::requires_(t1 < BIG && gap < BIG && late < BIG && gap > 0 && late > 0);
    uint64_t end1 = t1 + b1, t2 = SEAMLESS ? end1 : end1 + gap, end2 = t2 + b2, t3 = end2 + late;
    Bytes d1 = data(perBeat * S * b1, "d1"), d2 = data(perBeat * S * b2, "d2");
    burst<S, IDLE>(dbi, want, t1, d1, perBeat, R1);
    agree(log, want, "first");
    vp::ensures(dbi.getLastBurstEnd(R1) == std::optional<timestamp_t>(end1) && !dbi.getLastBurstEnd(!R1), "the end of the burst is remembered for its direction");
    log.clear(); want.clear();
    if (R1 == R2 && !SEAMLESS) release<S, IDLE>(want, t2, end1, d1, perBeat, R1);
    burst<S, IDLE>(dbi, want, t2, d2, perBeat, R2);
    agree(log, want, "second");
    vp::ensures(dbi.getLastBurstEnd(R2) == std::optional<timestamp_t>(end2), "the end of the burst is remembered for its direction");
    log.clear(); want.clear();
    dbi.dispatchResetCallback(t2);
    dbi.dispatchResetCallback(end2);
    if (R1 != R2 && SEAMLESS) { if (b2 > 0) release<S, IDLE>(want, end2, end1, d1, perBeat, R1); }
    else if (R1 != R2) release<S, IDLE>(want, t2, end1, d1, perBeat, R1);
    agree(log, want, "nothing is released before the end of its burst");
    log.clear(); want.clear();
    dbi.dispatchResetCallback(t3);
    release<S, IDLE>(want, t3, end2, d2, perBeat, R2);
    agree(log, want, "a reset releases the active pins");
    log.clear(); want.clear();
    dbi.dispatchResetCallback(t3);
    agree(log, want, "a released pin is not released again");
}
void vp_lemma_bounded_width_gap_L() { withWidth<1, PinState::L, true, true, false>(1, 2, 2); }
void vp_lemma_bounded_width_gap_H() { withWidth<1, PinState::H, false, false, false>(2, 1, 2); }
void vp_lemma_bounded_width_gap_two() { withWidth<2, PinState::L, false, false, false>(1, 2, 1); }
void vp_lemma_bounded_width_seamless() { withWidth<1, PinState::L, false, false, true>(2, 2, 2); }
void vp_lemma_bounded_width_turn() { withWidth<1, PinState::H, true, false, false>(2, 2, 1); }
void vp_lemma_bounded_width_turn_longer() { withWidth<1, PinState::L, true, false, false>(1, 1, 3); }
void vp_lemma_bounded_width_turn_back() { withWidth<1, PinState::L, false, true, false>(1, 1, 2); }
void vp_lemma_bounded_width_turn_two() { withWidth<2, PinState::H, false, true, false>(1, 2, 1); }
void vp_lemma_bounded_width_turn_seamless() { withWidth<1, PinState::L, false, true, true>(1, 2, 1); }
void vp_lemma_bounded_width_turn_back_seamless() { withWidth<1, PinState::H, true, false, true>(2, 1, 2); }
// without a bus width every chunk of a burst is its own pin
template <std::size_t S, PinState IDLE, bool R> static void absolute(std::size_t c1, std::size_t c2) {
    Pins log, want;
    uint64_t length = vp::any<uint64_t>("length");
    vp::requires_(length < BIG);
    DBI<uint8_t, S, IDLE, StaticDBI> dbi(std::nullopt, length, nullptr, true);
    dbi.setChangeCallback([&log](timestamp_t l, timestamp_t t, std::size_t p, bool i, bool r) { log.add(p, Event{l, t, i, r}); });
    vp::ensures(!dbi.getChunksPerWidth().has_value(), "the configuration is reported");
    uint64_t t1 = vp::any<uint64_t>("t1"), gap = vp::any<uint64_t>("gap");
    vp::requires_(t1 < BIG && gap < BIG && gap > 0);
    uint64_t end1 = t1 + length, t2 = end1 + gap;
    Bytes d1 = data(c1 * S, "d1"), d2 = data(c2 * S, "d2");
    burst<S, IDLE>(dbi, want, t1, d1, 0, R);
    agree(log, want, "first");
    vp::ensures(dbi.getLastBurstEnd(R) == std::optional<timestamp_t>(end1), "the end of the burst is remembered for its direction");
    log.clear(); want.clear();
    release<S, IDLE>(want, t2, end1, d1, 0, R);
    burst<S, IDLE>(dbi, want, t2, d2, 0, R);
    agree(log, want, "second");
}
void vp_lemma_bounded_absolute_shrink() { absolute<1, PinState::L, true>(3, 2); }
void vp_lemma_bounded_absolute_grow() { absolute<2, PinState::L, false>(1, 3); }
// switched off, without data or length, or idling at high impedance: nothing is inverted and no pin moves
template <PinState IDLE> static void off(bool enabled, bool some, std::size_t bits) {
    Pins log, want;
    DBI<uint8_t, 1, IDLE, StaticDBI> dbi(8, 16, [&log](timestamp_t l, timestamp_t t, std::size_t p, bool i, bool r) { log.add(p, Event{l, t, i, r}); }, true);
    dbi.enable(enabled);
    vp::ensures(dbi.isEnabled() == enabled, "switching is reported");
    Bytes d = data(2, "d");
    bool read = vp::any<bool>("read");
    auto r = dbi.updateDBI(vp::any<uint64_t>("t"), bits, some ? d.data() : nullptr, read);
    vp::ensures(!r.has_value() && !dbi.getLastBurstEnd(read), "nothing is inverted");
    agree(log, want, "no pin moves");
}
void vp_lemma_off() { off<PinState::L>(false, true, 16); }
void vp_lemma_off_null() { off<PinState::L>(true, false, 16); }
void vp_lemma_off_empty() { off<PinState::H>(true, true, 0); }
void vp_lemma_off_idle() { off<PinState::Z>(true, true, 16); }
