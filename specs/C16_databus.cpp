// DataBus: loads are counted once, on the side and in the mode they belong to
#include "vp.h"
#include <variant>
#include <DRAMPower/util/databus.h>
#include "DRAMPower/dram/Interface.cpp"
#include VP_GEN
using namespace DRAMPower;
using namespace DRAMPower::util;
using stats = bus_stats_t;
using Idle = DRAMUtils::Config::TogglingRateIdlePattern;
constexpr uint64_t LATE = uint64_t(1) << 40;
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
}
struct All { stats br, bw, tr, tw; };
template <std::size_t N> static All all(const DataBus<N>& d, timestamp_t t) { All a; d.get_stats(t, a.br, a.bw, a.tr, a.tw); return a; }
static void same(const All& a, const All& b) { same(a.br, b.br); same(a.bw, b.bw); same(a.tr, b.tr); same(a.tw, b.tw); }
struct Conf { DRAMUtils::Config::ToggleRateDefinition d; bool toggle; };
static Conf conf() {
    Conf c;
    c.d.togglingRateRead = vp::real_in(0, 1, "rate r"); c.d.togglingRateWrite = vp::real_in(0, 1, "rate w");
    c.d.dutyCycleRead = vp::real_in(0, 1, "duty r"); c.d.dutyCycleWrite = vp::real_in(0, 1, "duty w");
    c.d.idlePatternRead = vp::cases(vp::any<bool>("read idles high")) ? Idle::H : Idle::L;
    c.d.idlePatternWrite = vp::cases(vp::any<bool>("write idles high")) ? Idle::H : Idle::L;
    c.toggle = vp::cases(vp::any<bool>("toggling rate"));
    return c;
}
template <std::size_t N> struct Parts { Bus<N> br, bw; TogglingHandle tr, tw; };
// the four parts a data bus of this configuration consists of
template <std::size_t N> static Parts<N> parts(const Conf& c, std::size_t dr) {
    return Parts<N>{
        Bus<N>(N, dr, c.d.idlePatternRead == Idle::H ? BusIdlePatternSpec::H : BusIdlePatternSpec::L, !c.toggle),
        Bus<N>(N, dr, c.d.idlePatternWrite == Idle::H ? BusIdlePatternSpec::H : BusIdlePatternSpec::L, !c.toggle),
        TogglingHandle(N, dr, c.d.togglingRateRead, c.d.dutyCycleRead, c.d.idlePatternRead, c.toggle),
        TogglingHandle(N, dr, c.d.togglingRateWrite, c.d.dutyCycleWrite, c.d.idlePatternWrite, c.toggle)};
}
template <std::size_t N> static All told(const Parts<N>& p, timestamp_t t) { return All{p.br.get_stats(t), p.bw.get_stats(t), p.tr.get_stats(t), p.tw.get_stats(t)}; }
template <std::size_t N> static DataBus<N> make(const Conf& c, std::size_t dr) {
    return DataBus<N>(DataBusConfig{N, dr, c.d}, c.toggle ? DataBusMode::TogglingRate : DataBusMode::Bus);
}
template <std::size_t N, std::size_t DR> void fresh() {
    const Conf c = conf();
    const DataBus<N> d = make<N>(c, DR);
    const timestamp_t t = vp::any_in(0, LATE, "t");
    vp::ensures(d.isBus() == !c.toggle && d.isTogglingRate() == c.toggle, "mode");
    vp::ensures(d.getWidth() == N && d.getDataRate() == DR, "geometry");
    same(all(d, t), told(parts<N>(c, DR), t));
}
// a transfer shows only on its own side, in the mode the bus is in
template <std::size_t N, std::size_t DR, std::size_t K> void transfer() {
    const Conf c = conf();
    DataBus<N> d = make<N>(c, DR);
    Parts<N> p = parts<N>(c, DR);
    uint8_t data[(N * K + 7) / 8];
    for (auto& x : data) x = vp::any<uint8_t>("data");
    const timestamp_t a = vp::any_in(0, LATE, "a"), b = vp::any_in(0, LATE, "b"), t = vp::any_in(0, LATE, "t");
    vp::requires_(b * DR >= a * DR + K && t * DR > b * DR + K);
    const bool write = vp::cases(vp::any<bool>("write first")), none = vp::cases(vp::any<bool>("no data"));
    const uint8_t* bits = none ? nullptr : data;
    if (write) { d.loadWrite(a, N * K, bits); d.loadRead(b, N * K, bits); } else { d.loadRead(a, N * K, bits); d.loadWrite(b, N * K, bits); }
    if (c.toggle) {
        (write ? p.tw : p.tr).incCountBitLength(a, N * K);
        (write ? p.tr : p.tw).incCountBitLength(b, N * K);
    } else if (!none) {
        (write ? p.bw : p.br).load(a, data, N * K);
        (write ? p.br : p.bw).load(b, data, N * K);
    }
    same(all(d, t), told(p, t));
}
// switching the mode switches both sides
template <std::size_t N, std::size_t DR> void mode() {
    const Conf c = conf();
    DataBus<N> d = make<N>(c, DR);
    Parts<N> p = parts<N>(c, DR);
    const timestamp_t a = vp::any_in(1, LATE, "a"), b = vp::any_in(1, LATE, "b"), t = vp::any_in(0, LATE, "t");
    vp::requires_(b > a && t >= b);
    const bool first = vp::cases(vp::any<bool>("toggling first"));
    for (int k = 0; k < 2; ++k) {
        const timestamp_t at = k == 0 ? a : b;
        if ((k == 0) == first) {
            d.enableTogglingRate(at);
            p.br.disable(at); p.bw.disable(at); p.tr.enable(at); p.tw.enable(at);
            vp::ensures(d.isTogglingRate() && !d.isBus(), "toggling rate mode");
        } else {
            d.enableBus(at);
            p.br.enable(at); p.bw.enable(at); p.tr.disable(at); p.tw.disable(at);
            vp::ensures(d.isBus() && !d.isTogglingRate(), "bus mode");
        }
    }
    same(all(d, t), told(p, t));
}
void vp_lemma_bounded_fresh() { fresh<8, 2>(); }
void vp_lemma_bounded_transfer_4_1() { transfer<4, 1, 2>(); }
void vp_lemma_bounded_transfer_2_2() { transfer<2, 2, 4>(); }
void vp_lemma_bounded_mode() { mode<4, 2>(); }
// a new definition replaces rates, duty cycles and idle levels of both sides
void vp_lemma_bounded_definition() {
    const Conf c = conf(), n = conf();
    vp::requires_(n.toggle == c.toggle);
    DataBus<4> d = make<4>(c, 2);
    Parts<4> p = parts<4>(c, 2);
    const timestamp_t a = vp::any_in(0, LATE, "a"), t = vp::any_in(0, LATE, "t");
    vp::requires_(t >= a);
    d.setTogglingRateDefinition(n.d);
    p.tr.setTogglingRateAndDutyCycle(n.d.togglingRateRead, n.d.dutyCycleRead, n.d.idlePatternRead);
    p.tw.setTogglingRateAndDutyCycle(n.d.togglingRateWrite, n.d.dutyCycleWrite, n.d.idlePatternWrite);
    vp::ensures(d.togglingHandleRead.getTogglingRate() == n.d.togglingRateRead && d.togglingHandleRead.getDutyCycle() == n.d.dutyCycleRead, "read definition");
    vp::ensures(d.togglingHandleWrite.getTogglingRate() == n.d.togglingRateWrite && d.togglingHandleWrite.getDutyCycle() == n.d.dutyCycleWrite, "write definition");
    same(all(d, t), told(p, t));
}
