// LPDDR6 command bus encoding
#include "vp.h"
#include <cassert>
#include <DRAMPower/command/Command.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp>
#include VP_GEN
using namespace DRAMPower;
namespace PD = pattern_descriptor_LPDDR6;
using D = PD::t;
using O = BasePatternEncoderOverrides<D>;

static bool bit(uint64_t v, std::size_t i) { return ((v >> i) & 1) != 0; }
// level of the pin carrying descriptor d (the parity pin apart)
static bool level(D d, const LPDDR6TargetCoordinate& c, const LPDDR6PatternExtraData& x) {
    if (d == PD::H) return true;
    if (d == PD::BL) return x.currentBurstLength == 24;
    if (d == PD::BA0 || d == PD::BA1) return bit(c.bank, d - PD::BA0);
    if (d == PD::BG0 || d == PD::BG1) return bit(c.bankGroup, d - PD::BG0);
    if (d == PD::DBG0 || d == PD::DBG1) return bit(c.dbank / x.numberOfBankGroups, d - PD::DBG0);
    if (d == PD::C0) return x.currentBurstLength == 24 && bit(c.column, 0);
    if (d >= PD::C1 && d <= PD::C5) return bit(c.column, d - PD::C0);
    if (d >= PD::R0 && d <= PD::R16) return bit(c.row, d - PD::R0);
    if (d == PD::SC) return c.subChannel == 1;
    return false;
}
static LPDDR6TargetCoordinate coord() {
    LPDDR6TargetCoordinate c;
    c.bank = vp::any<uint32_t>("bank"); c.dbank = vp::any<uint32_t>("dbank"); c.bankGroup = vp::any<uint32_t>("bankGroup"); c.rank = vp::any<uint32_t>("rank");
    c.row = vp::any<uint32_t>("row"); c.column = vp::any<uint32_t>("column"); c.subChannel = vp::any<uint32_t>("subChannel");
    return c;
}
static LPDDR6PatternExtraData extra(const LPDDR6TargetCoordinate& c) {
    LPDDR6PatternExtraData x;
    x.currentBurstLength = vp::any<bool>("short") ? 24 : 48;
    x.numberOfBankGroups = vp::any<bool>("groups") ? 4 : 1;
    x.parity_check_mode = vp::any<bool>("parity");
    vp::requires_(c.dbank % x.numberOfBankGroups == 0);
    return x;
}
// every pattern up to 64 bits: each pin carries its descriptor's level; without parity checking nothing else is driven
void vp_lemma_encode() {
    auto pattern = vp::any<std::vector<D>>("pattern");
    std::size_t n = pattern.size();
    vp::requires_(n >= 1 && n <= 64);
    LPDDR6TargetCoordinate c = coord();
    LPDDR6PatternExtraData x = extra(c);
    x.parity_check_mode = false;
    O o;
    uint64_t last = vp::any<uint64_t>("last");
    uint64_t r = LPDDR6Encoder::encode(c, pattern, o, last, x);
    vp::ensures(vp::forall(n, [&](std::size_t i) { return bit(r, n - 1 - i) == level(pattern[i], c, x); }), "every descriptor sets its pin to the level it stands for");
    vp::ensures(vp::forall(64, [&](std::size_t i) { return i < n || !bit(r, i); }), "pins beyond the pattern stay low");
}
// with parity checking every 16 bit command that has a parity pin (CA3 of the first edge) has even parity; the other pins keep their levels
template <std::size_t N> static void parity() {
    std::vector<D> pattern(N);
    for (std::size_t i = 0; i < N; ++i) { pattern[i] = vp::any<D>("d"); vp::requires_(i % 16 == 3 || pattern[i] != PD::PAR); }
    LPDDR6TargetCoordinate c = coord();
    LPDDR6PatternExtraData x = extra(c), y = x;
    x.parity_check_mode = true; y.parity_check_mode = false;
    O o;
    uint64_t last = vp::any<uint64_t>("last");
    uint64_t r = LPDDR6Encoder::encode(c, pattern, o, last, x), q = LPDDR6Encoder::encode(c, pattern, o, last, y);
    for (std::size_t i = 0; i < N; ++i) vp::ensures((i % 16 == 3 && pattern[i] == PD::PAR) || bit(r, N - 1 - i) == bit(q, N - 1 - i), "parity checking drives only the parity pins");
    for (std::size_t k = 0; k < N; k += 16) {
        bool odd = false;
        for (std::size_t i = k; i < N && i < k + 16; ++i) odd = odd != bit(r, N - 1 - i);
        vp::ensures(pattern[k + 3] != PD::PAR || !odd, "parity checking makes the number of high pins of a command even");
    }
}
void vp_lemma_bounded_parity16() { parity<16>(); }
void vp_lemma_bounded_parity32() { parity<32>(); }
