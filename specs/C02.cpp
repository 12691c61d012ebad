// dynamic_bitset through its public interface only: fixed lengths, arbitrary bits (bounded companion of C02_repr.cpp)
#include "vp.h"
#include <DRAMPower/util/dynamic_bitset.h>
#include VP_GEN
using DRAMPower::util::dynamic_bitset;

template <std::size_t B, std::size_t N> dynamic_bitset<B> make(bool (&m)[N + 1]) {
    dynamic_bitset<B> b;
    for (std::size_t i = 0; i < N; ++i) { m[i] = vp::any<bool>("bit"); b.push_back(m[i]); }
    return b;
}
template <std::size_t B, std::size_t N> void agree(const dynamic_bitset<B>& b, const bool (&m)[N + 1], const char* what) {
    std::size_t c = 0;
    bool same = b.size() == N;
    vp::ensures(same, what);
    for (std::size_t i = 0; i < N; ++i) { same = same && b[i] == m[i]; c += m[i] ? 1 : 0; }
    vp::ensures(same, what);
    vp::ensures(b.count() == c, what);
}
template <std::size_t B, std::size_t N> void ops() {
    bool m[N + 1], k[N + 1], r[N + 1];
    auto a = make<B, N>(m);
    auto b = make<B, N>(k);
    agree<B, N>(a, m, "bits read back in insertion order");
    for (std::size_t i = 0; i < N; ++i) r[i] = m[i] != k[i];
    agree<B, N>(a ^ b, r, "^");
    for (std::size_t i = 0; i < N; ++i) r[i] = m[i] && k[i];
    agree<B, N>(a & b, r, "&");
    for (std::size_t i = 0; i < N; ++i) r[i] = m[i] || k[i];
    agree<B, N>(a | b, r, "|");
    for (std::size_t i = 0; i < N; ++i) r[i] = !m[i];
    agree<B, N>(~a, r, "~");
    auto f = a; f.flip();
    agree<B, N>(f, r, "flip");
    for (std::size_t i = 0; i < N; ++i) r[i] = true;
    f.set();
    agree<B, N>(f, r, "set");
    for (std::size_t i = 0; i < N; ++i) r[i] = false;
    f.reset();
    agree<B, N>(f, r, "reset");
    bool eq = true;
    for (std::size_t i = 0; i < N; ++i) eq = eq && m[i] == k[i];
    vp::ensures((a == b) == eq, "==");
    vp::ensures((a != b) == !eq, "!=");
    vp::ensures((~~a == a) && !(~a != ~a), "double complement");
}
template <std::size_t B, std::size_t N> void index() {
    bool m[N + 1], r[N + 1];
    auto a = make<B, N>(m);
    bool v = vp::any<bool>("v");
    for (std::size_t i = 0; i < N; ++i) {
        auto s = a; s.set(i, v);
        for (std::size_t j = 0; j < N; ++j) r[j] = j == i ? v : m[j];
        agree<B, N>(s, r, "set(i, v)");
        auto f = a; f.flip(i);
        for (std::size_t j = 0; j < N; ++j) r[j] = j == i ? !m[j] : m[j];
        agree<B, N>(f, r, "flip(i)");
    }
    auto c = a; c.clear();
    vp::ensures(c.size() == 0 && c.count() == 0, "clear");
    c.push_back(v);
    vp::ensures(c.size() == 1 && c[0] == v && c.count() == (v ? 1u : 0u), "append after clear");
}
template <std::size_t B, std::size_t N> void value() {
    uint64_t v = vp::any<uint64_t>("v");
    dynamic_bitset<B> b(N, v), z(N);
    bool r[N + 1];
    for (std::size_t i = 0; i < N; ++i) r[i] = i < 64 && ((v >> (i < 64 ? i : 0)) & 1);
    bool same = b.size() == N;
    for (std::size_t i = 0; i < N; ++i) same = same && b[i] == r[i];
    vp::ensures(same, "number to bits, least significant first");
    vp::ensures(b == v, "equal to the number it was made from");
    for (std::size_t i = 0; i < N; ++i) r[i] = false;
    agree<B, N>(z, r, "starts clear");
    uint64_t w = vp::any<uint64_t>("w");
    uint64_t mask = N >= 64 ? ~uint64_t(0) : (uint64_t(1) << N) - 1;
    vp::ensures((b == w) == ((v & mask) == (w & mask)), "comparison with a number looks at the low bits");
}
void vp_lemma_bounded_ops_8_11() { ops<8, 11>(); }
void vp_lemma_bounded_ops_4_8() { ops<4, 8>(); }
void vp_lemma_bounded_ops_8_0() { ops<8, 0>(); }
void vp_lemma_bounded_ops_5_7() { ops<5, 7>(); }
void vp_lemma_bounded_index_4_6() { index<4, 6>(); }
void vp_lemma_bounded_index_5_5() { index<5, 5>(); }
void vp_lemma_bounded_value_8_13() { value<8, 13>(); }
void vp_lemma_bounded_value_5_10() { value<5, 10>(); }
void vp_lemma_bounded_value_8_66() { value<8, 66>(); }
