// Data bus inversion
#include "vp.h"
#include <iterator>
#include <cassert>
#include <sstream>
#include <DRAMPower/util/dbi.h>
#include VP_GEN
using namespace DRAMPower;
using namespace DRAMPower::util;
using Bytes = std::vector<uint8_t>;

// walking a buffer in chunks of S subchunks
template <std::size_t S> static void view() {
    Bytes v = vp::any<Bytes>("v");
    using W = SubChunkView<Bytes::iterator, 8 * S>;
    std::size_t k = vp::any<std::size_t>("k");
    vp::requires_(k < v.size());
    W it(v.begin());
    vp::ensures(W::getDataTotal() == S && W::getDigits() == 8, "a chunk consists of its subchunks");
    bool lst = false;
    for (std::size_t i = 0; i < 8; ++i) {
        if (i >= v.size()) break;
        vp::ensures(it != W(v.end()) && it == W(v.begin() + i), "the walk ends behind the last subchunk");
        vp::ensures(*it == v[i], "subchunks are visited in order");
        vp::ensures(it.getTotalChunkIdx() == i / S && it.getDataIdx() == i % S, "chunk and subchunk positions are counted");
        vp::ensures(it.last() == (i % S == S - 1), "exactly the final subchunk of a chunk is the last one");
        W old = it++;
        vp::ensures(old == W(v.begin() + i) && old.last() == (i % S == S - 1), "post-increment returns the previous position");
    }
}
void vp_lemma_bounded_view1() { view<1>(); }
void vp_lemma_bounded_view2() { view<2>(); }
void vp_lemma_bounded_view3() { view<3>(); }

static void concat(std::size_t na, std::size_t nb) {
    Bytes a = vp::any<Bytes>("a"), b = vp::any<Bytes>("b");
    if (vp::searching()) { a.resize(na); b.resize(nb); }
    vp::requires_(a.size() == na && b.size() == nb);
    using C = ConcatIterator<Bytes::iterator, Bytes::iterator>;
    C it(a.begin(), a.end(), b.begin()), end(a.end(), a.end(), b.end());
    std::size_t i = 0;
    for (; it != end; ++it, ++i) vp::ensures(*it == (i < na ? a[i] : b[i - na]), "the first sequence is followed by the second");
    vp::ensures(i == na + nb && it == end, "every element is visited once");
}
void vp_lemma_bounded_concat() { concat(3, 2); }
void vp_lemma_bounded_concat_empty() { concat(0, 2); }

// the inversion decision of one chunk
static std::size_t ones(uint8_t x) { std::size_t r = 0; for (int i = 0; i < 8; ++i) r += ((x >> i) & 1) != 0 ? 1 : 0; return r; }
template <std::size_t S, PinState IDLE> static void decide() {
    const std::size_t chunks = 3;
    Bytes v(chunks * S);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = vp::any<uint8_t>("b");
    using W = SubChunkView<Bytes::iterator, 8 * S>;
    std::vector<std::size_t> idx;
    std::vector<bool> inv;
    StaticDBI::computeDBI(std::make_tuple<W, W>(v.begin(), v.end()), std::optional<std::tuple<W, W>>{}, IDLE, [&](bool i, std::size_t c) { inv.push_back(i); idx.push_back(c); });
    vp::ensures(inv.size() == chunks, "one decision per chunk");
    for (std::size_t c = 0; c < chunks; ++c) {
        std::size_t hi = 0;
        for (std::size_t s = 0; s < S; ++s) hi += ones(v[c * S + s]);
        vp::ensures(idx[c] == c, "decisions are reported in order");
        vp::ensures(inv[c] == (IDLE == PinState::L ? 8 * S - hi < hi : hi < 8 * S - hi), "a chunk is inverted exactly when more than half of its bits differ from the idle level");
    }
}
void vp_lemma_bounded_decide_L1() { decide<1, PinState::L>(); }
void vp_lemma_bounded_decide_H1() { decide<1, PinState::H>(); }
void vp_lemma_bounded_decide_L2() { decide<2, PinState::L>(); }
void vp_lemma_bounded_decide_H2() { decide<2, PinState::H>(); }
