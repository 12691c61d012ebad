// C21: the parts of the interface restored from saved ones answer the same questions and react the same way to what follows
#include "vp.h"
#include <sstream>
#include <iterator>
#include <cassert>
#include <DRAMPower/util/bus.h>
#include <DRAMPower/util/pin.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/databus.h>
#include <DRAMPower/util/dbi.h>
#include "DRAMPower/dram/Interface.cpp"
#include "DRAMPower/dram/Rank.cpp"
#include VP_GEN
using namespace DRAMPower;
using namespace DRAMPower::util;
using stats = bus_stats_t;
using Idle = DRAMUtils::Config::TogglingRateIdlePattern;
constexpr uint64_t LATE = uint64_t(1) << 40;
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
}
static stats some() {
    stats s;
    s.ones = vp::any_in(0, uint64_t(1) << 50, "ones"); s.zeroes = vp::any_in(0, uint64_t(1) << 50, "zeroes");
    s.bit_changes = vp::any_in(0, uint64_t(1) << 50, "changes");
    s.ones_to_zeroes = vp::any_in(0, uint64_t(1) << 50, "falling"); s.zeroes_to_ones = vp::any_in(0, uint64_t(1) << 50, "rising");
    return s;
}
template <class T> static void transfer(const T& a, T& b) {
    std::stringstream s;
    const uint64_t mark = vp::any<uint64_t>("what follows");
    uint64_t read = 0;
    a.serialize(s);
    s.write(reinterpret_cast<const char*>(&mark), sizeof(mark));
    b.deserialize(s);
    s.read(reinterpret_cast<char*>(&read), sizeof(read));
    vp::ensures(mark == read, "what was saved after it is read back");
}
void vp_lemma_bus_statistics() {
    stats a = vp::any<stats>("a"), b = vp::any<stats>("b");
    transfer(a, b);
    same(b, a);
}
void vp_lemma_command_counters() {
    command_stats_t a = vp::any<command_stats_t>("a"), b = vp::any<command_stats_t>("b");
    transfer(a, b);
    vp::ensures(a.act == b.act && a.pre == b.pre && a.reads == b.reads && a.writes == b.writes && a.readAuto == b.readAuto && a.writeAuto == b.writeAuto, "activations, precharges and accesses");
    vp::ensures(a.refAllBank == b.refAllBank && a.refPerBank == b.refPerBank && a.refPerTwoBanks == b.refPerTwoBanks && a.refDualBanks == b.refDualBanks && a.refSameBank == b.refSameBank, "refreshes");
}
void vp_lemma_rank_counters() {
    RankInterface a, b;
    for (RankInterface* r : {&a, &b}) {
        r->seamlessPrePostambleCounter_read = vp::any<uint64_t>("sr"); r->seamlessPrePostambleCounter_write = vp::any<uint64_t>("sw");
        r->mergedPrePostambleCounter_read = vp::any<uint64_t>("mr"); r->mergedPrePostambleCounter_write = vp::any<uint64_t>("mw");
        r->mergedPrePostambleTime_read = vp::any<uint64_t>("tr"); r->mergedPrePostambleTime_write = vp::any<uint64_t>("tw");
        r->lastReadEnd = vp::any<uint64_t>("er"); r->lastWriteEnd = vp::any<uint64_t>("ew");
    }
    transfer(a, b);
    vp::ensures(a.seamlessPrePostambleCounter_read == b.seamlessPrePostambleCounter_read && a.seamlessPrePostambleCounter_write == b.seamlessPrePostambleCounter_write, "seamless bursts");
    vp::ensures(a.mergedPrePostambleCounter_read == b.mergedPrePostambleCounter_read && a.mergedPrePostambleCounter_write == b.mergedPrePostambleCounter_write, "merged bursts");
    vp::ensures(a.mergedPrePostambleTime_read == b.mergedPrePostambleTime_read && a.mergedPrePostambleTime_write == b.mergedPrePostambleTime_write, "merged time");
    vp::ensures(a.lastReadEnd == b.lastReadEnd && a.lastWriteEnd == b.lastWriteEnd, "end of the last burst");
}
static Clock clock(bool& runs) {
    runs = vp::cases(vp::any<bool>("runs"));
    Clock c(2, !runs);
    if (vp::cases(vp::any<bool>("toggled"))) { if (runs) c.stop(vp::any_in(1, LATE, "when")); else c.start(vp::any_in(0, LATE, "when")); runs = !runs; }
    c.stats = some();
    return c;
}
void vp_lemma_clock() {
    bool runs, other;
    Clock a = clock(runs), b = clock(other);
    transfer(a, b);
    const timestamp_t t = vp::any_in(LATE + 1, 2 * LATE, "t");
    same(b.get_stats_at(t), a.get_stats_at(t));
    if (runs) { a.stop(t); b.stop(t); } else { a.start(t); b.start(t); }
    const timestamp_t u = vp::any_in(t, 2 * LATE, "u");
    same(b.get_stats_at(u), a.get_stats_at(u));
}
template <std::size_t N, unsigned DR, std::size_t K> static void loaded(Bus<N>& b, timestamp_t t) {
    uint8_t d[(N * K + 7) / 8 + 1];
    for (auto& x : d) x = vp::any<uint8_t>("d");
    b.load(t, d, N * K);
    b.stats = some();
    b.pending_stats.setPendingStats(t * DR, some());
    for (std::size_t j = 0; j < N; ++j) b.last_pattern[j] = vp::any<bool>("before");
}
template <std::size_t N, unsigned DR, std::size_t KA, std::size_t KB> static void bus() {
    const BusIdlePatternSpec idle = vp::cases(vp::any<bool>("high")) ? BusIdlePatternSpec::H : BusIdlePatternSpec::L;
    Bus<N> a(N, DR, idle), b(N, DR, idle);
    const timestamp_t t = vp::any_in(0, LATE, "t");
    vp::cases(t == 0);
    if (KA > 0) loaded<N, DR, KA>(a, t);
    if (KB > 0) loaded<N, DR, KB>(b, vp::any_in(0, LATE, "u"));
    transfer(a, b);
    const uint64_t i = vp::any_in(0, KA / DR + 1, "i");
    timestamp_t v = t + KA / DR + 1 + vp::any_in(0, LATE, "later");
    for (uint64_t k = 0; k <= KA / DR; ++k) if (vp::cases(i == k)) v = t + k;
    same(b.get_stats(v), a.get_stats(v));
    vp::ensures(b.at(v * DR) == a.at(v * DR), "the wires carry the same");
    vp::requires_(v * DR >= t * DR + KA);
    uint8_t d[(N + 7) / 8 + 1];
    for (auto& x : d) x = vp::any<uint8_t>("next");
    a.load(v, d, N); b.load(v, d, N);
    const timestamp_t w = v + 1;
    same(b.get_stats(w), a.get_stats(w));
}
void vp_lemma_fresh_bus() { bus<3, 1, 0, 2>(); }
void vp_lemma_loaded_bus() { bus<3, 1, 2, 0>(); }
void vp_lemma_wide_bus() { bus<10, 1, 1, 1>(); }
static PinState level(const char* n) { return vp::any<bool>(n) ? PinState::H : PinState::L; }
template <std::size_t N, std::size_t KA, std::size_t KB> static void pin() {
    const PinState init = vp::cases(vp::any<bool>("init Z")) ? PinState::Z : level("init"), idle = level("idle");
    Pin<N> a(init, idle), b(PinState::L, idle);
    const timestamp_t t = vp::any_in(0, LATE, "t"), u = vp::any_in(0, LATE, "u");
    for (std::size_t i = 0; i < KA; ++i) a.set(t, level("a"), 2);
    for (std::size_t i = 0; i < KB; ++i) b.set(u, level("b"), 2);
    a.m_stats = some(); b.m_stats = some();
    transfer(a, b);
    const timestamp_t v = vp::any_in(t, LATE, "v");
    for (uint64_t i = 0; i <= KA; ++i) vp::cases(v * 2 == t * 2 + i);
    vp::cases(v == 0);
    same(b.get_stats_at(v, 2), a.get_stats_at(v, 2));
    vp::requires_(v * 2 >= t * 2 + KA);
    const PinState n = level("next");
    a.set(v, n, 2); b.set(v, n, 2);
    same(b.get_stats_at(v + 1, 2), a.get_stats_at(v + 1, 2));
}
void vp_lemma_fresh_pin() { pin<4, 0, 2>(); }
void vp_lemma_loaded_pin() { pin<4, 1, 0>(); }
void vp_lemma_pin_in_a_burst() { pin<4, 3, 2>(); }
void vp_lemma_toggling() {
    const double rate = vp::real_in(0, 1, "rate"), duty = vp::real_in(0, 1, "duty");
    const Idle idle = vp::cases(vp::any<bool>("high")) ? Idle::H : Idle::L;
    const bool on = vp::cases(vp::any<bool>("on"));
    TogglingHandle a(4, 2, rate, duty, idle, on), b(8, 1, 0.5, 0.5, Idle::L, vp::cases(vp::any<bool>("b on")));
    const timestamp_t t = vp::any_in(0, LATE, "t");
    if (vp::cases(vp::any<bool>("loaded"))) a.incCountBurstLength(t, vp::any_in(0, LATE, "n"));
    if (vp::cases(vp::any<bool>("b loaded"))) b.incCountBurstLength(t, vp::any_in(0, LATE, "m"));
    a.count = vp::any_in(0, t, "count"); a.disable_time = vp::any_in(0, t, "pauses");
    transfer(a, b);
    const timestamp_t v = vp::any_in(t, LATE, "v");
    same(b.get_stats(v), a.get_stats(v));
    vp::ensures(a.isEnabled() == b.isEnabled() && a.getWidth() == b.getWidth() && a.getDatarate() == b.getDatarate() && a.getCount() == b.getCount() &&
                a.getTogglingRate() == b.getTogglingRate() && a.getDutyCycle() == b.getDutyCycle() && a.get_lastburst_timestamp(false) == b.get_lastburst_timestamp(false), "settings");
    if (on) { a.disable(v); b.disable(v); } else { a.enable(v); b.enable(v); }
    const timestamp_t w = vp::any_in(v, LATE, "w");
    same(b.get_stats(w), a.get_stats(w));
}

// a data bus, in either mode, with a read and a write behind it
void vp_lemma_data_bus() {
    DRAMUtils::Config::ToggleRateDefinition d;
    d.togglingRateRead = vp::real_in(0, 1, "rate r"); d.togglingRateWrite = vp::real_in(0, 1, "rate w");
    d.dutyCycleRead = vp::real_in(0, 1, "duty r"); d.dutyCycleWrite = vp::real_in(0, 1, "duty w");
    d.idlePatternRead = Idle::H; d.idlePatternWrite = Idle::L;
    const bool toggle = vp::cases(vp::any<bool>("toggling rate"));
    DataBus<4> a(DataBusConfig{4, 2, d}, toggle ? DataBusMode::TogglingRate : DataBusMode::Bus), b(DataBusConfig{4, 2, d}, vp::cases(vp::any<bool>("b toggling rate")) ? DataBusMode::TogglingRate : DataBusMode::Bus);
    const timestamp_t r = vp::any_in(0, LATE, "r"), w = vp::any_in(0, LATE, "w"), t = vp::any_in(0, LATE, "t");
    vp::requires_(t > r && t > w);
    uint8_t x = vp::any<uint8_t>("x"), y = vp::any<uint8_t>("y");
    a.loadRead(r, 8, &x); a.loadWrite(w, 8, &y);
    transfer(a, b);
    vp::ensures(a.isBus() == b.isBus() && a.isTogglingRate() == b.isTogglingRate(), "mode");
    stats p[4], q[4];
    a.get_stats(t, p[0], p[1], p[2], p[3]); b.get_stats(t, q[0], q[1], q[2], q[3]);
    for (int i = 0; i < 4; ++i) same(q[i], p[i]);
}
// a data bus inverter in the middle of a burst
struct Event { uint64_t load = 0, time = 0; std::size_t pin = 0; bool inverted = false, read = false; };
static bool same(const Event& a, const Event& b) { return a.load == b.load && a.time == b.time && a.pin == b.pin && a.inverted == b.inverted && a.read == b.read; }
struct Log {
    Event e[6]; std::size_t n = 0;
    void add(const Event& x) { vp::requires_(n < 6); e[n] = x; n++; }
};
template <class Word, std::size_t W, class Algo> static void inverter() {
    using D = DBI<Word, 1, PinState::L, Algo>;
    Log la, lb;
    D a(W, 2, [&la](uint64_t l, uint64_t t, std::size_t p, bool i, bool r) { la.add(Event{l, t, p, i, r}); }, vp::cases(vp::any<bool>("on")));
    D b(W, 2, [&lb](uint64_t l, uint64_t t, std::size_t p, bool i, bool r) { lb.add(Event{l, t, p, i, r}); }, vp::cases(vp::any<bool>("b on")));
    Word d[2], c[2], e[2];
    for (auto& x : d) x = vp::any<uint8_t>("d");
    for (auto& x : c) x = vp::any<uint8_t>("c");
    for (auto& x : e) x = vp::any<uint8_t>("e");
    const bool first = vp::cases(vp::any<bool>("read")), then = vp::cases(vp::any<bool>("then read"));
    const timestamp_t t = vp::any_in(0, LATE, "t"), u = vp::any_in(t, LATE, "u");
    a.updateDBI(t, 16, d, first);
    if (W == 8) a.updateDBI(t + 1, 16, c, first);
    transfer(a, b);
    vp::ensures(a.isEnabled() == b.isEnabled(), "enabled");
    vp::ensures(a.getLastBurstEnd(true) == b.getLastBurstEnd(true) && a.getLastBurstEnd(false) == b.getLastBurstEnd(false), "end of the last burst");
    vp::ensures(a.getInvertedDataSize() == b.getInvertedDataSize(), "size of the last burst");
    la.n = 0;
    vp::requires_(u >= t + (W == 8 ? 2 : 1));
    vp::cases(u == t + 2);
    auto p = a.updateDBI(u, 16, e, then), q = b.updateDBI(u, 16, e, then);
    vp::ensures(p.has_value() == q.has_value(), "inverting or not");
    if (p.has_value()) for (int i = 0; i < 2; ++i) vp::ensures((*p)[i] == (*q)[i], "the data transferred");
    vp::ensures(la.n == lb.n, "number of pin events");
    for (std::size_t i = 0; i < 6; ++i) vp::ensures(i >= la.n || same(la.e[i], lb.e[i]), "pin events");
}
void vp_lemma_inverter() { inverter<uint8_t, 16, StaticDBI>(); }
void vp_lemma_transition_inverter() { inverter<uint8_t, 8, DynamicDBI<4>>(); }
void vp_lemma_bitset_inverter() { inverter<std::bitset<8>, 8, DynamicDBI<4>>(); }
