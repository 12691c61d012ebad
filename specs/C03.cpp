// sub_bitset: every operation against its bit-by-bit meaning, for every width up to the (compile-time) maximum
#include "vp.h"
#include <DRAMPower/util/sub_bitset.h>
#include VP_GEN
using DRAMPower::util::sub_bitset;

template <std::size_t M> sub_bitset<M> make(std::size_t w, bool (&m)[M]) {
    sub_bitset<M> b(w);
    for (std::size_t i = 0; i < M; ++i) { m[i] = vp::any<bool>("bit") && i < w; if (i < w) b.set(i, m[i]); }
    return b;
}
template <std::size_t M> std::size_t width() { std::size_t w = vp::any<std::size_t>("w"); if (vp::searching()) w %= M + 1; vp::requires_(w <= M); return w; }
template <std::size_t M, bool counted = true> void agree(const sub_bitset<M>& b, std::size_t w, const bool (&m)[M], const char* what) {
    std::size_t c = 0;
    bool same = b.size() == w;
    vp::ensures(same, what);
    for (std::size_t i = 0; i < M; ++i) if (i < w) { same = same && b[i] == m[i]; c += m[i] ? 1 : 0; }
    vp::ensures(same, what);
    if (counted) vp::ensures(b.count() == c, what);
}
template <std::size_t M> void ops() {
    bool m[M], k[M], r[M];
    std::size_t w = width<M>();
    auto a = make<M>(w, m);
    auto b = make<M>(w, k);
    agree<M>(a, w, m, "bits read back");
    for (std::size_t i = 0; i < M; ++i) r[i] = m[i] != k[i];
    agree<M>(a ^ b, w, r, "^");
    for (std::size_t i = 0; i < M; ++i) r[i] = m[i] && k[i];
    agree<M>(a & b, w, r, "&");
    for (std::size_t i = 0; i < M; ++i) r[i] = m[i] || k[i];
    agree<M>(a | b, w, r, "|");
    auto c = a; c |= b;
    agree<M>(c, w, r, "|=");
    for (std::size_t i = 0; i < M; ++i) r[i] = !m[i];
    agree<M>(~a, w, r, "~");
    auto f = a; f.flip();
    agree<M>(f, w, r, "flip");
    for (std::size_t i = 0; i < M; ++i) r[i] = true;
    f.set();
    agree<M>(f, w, r, "set");
    for (std::size_t i = 0; i < M; ++i) r[i] = false;
    f.reset();
    agree<M>(f, w, r, "reset");
    bool eq = true;
    for (std::size_t i = 0; i < M; ++i) if (i < w) eq = eq && m[i] == k[i];
    vp::ensures((a == b) == eq, "==");
    vp::ensures((a != b) == !eq, "!=");
    vp::ensures(~~a == a, "double complement");
}
template <std::size_t M> void sizes() {
    bool m[M], k[M];
    std::size_t w = width<M>(), u = width<M>();
    auto a = make<M>(w, m);
    auto b = make<M>(u, k);
    bool eq = w == u;
    for (std::size_t i = 0; i < M; ++i) if (i < w) eq = eq && m[i] == k[i];
    vp::ensures((a == b) == eq, "== needs equal widths and equal bits");
    vp::ensures((a != b) == !eq, "!= is the negation of ==");
}
template <std::size_t M, bool counted = true> void index() {
    bool m[M], r[M];
    std::size_t w = width<M>();
    auto a = make<M>(w, m);
    std::size_t i = vp::any<std::size_t>("i");
    if (vp::searching() && w) i %= w;
    vp::requires_(i < w);
    bool v = vp::any<bool>("v");
    auto s = a; s.set(i, v);
    for (std::size_t j = 0; j < M; ++j) r[j] = j == i ? v : m[j];
    agree<M, counted>(s, w, r, "set(i, v) writes bit i only");
    auto f = a; f.flip(i);
    for (std::size_t j = 0; j < M; ++j) r[j] = j == i ? !m[j] : m[j];
    agree<M, counted>(f, w, r, "flip(i) complements bit i only");
}
template <std::size_t M> void value() {
    std::size_t w = width<M>();
    uint64_t v = vp::any<uint64_t>("v"), x = vp::any<uint64_t>("x");
    sub_bitset<M> b(w, v), z(w), d;
    bool r[M], same = true;
    for (std::size_t i = 0; i < M; ++i) { r[i] = i < 64 && ((v >> (i < 64 ? i : 0)) & 1); same = same && (i >= w || r[i] == (i < 64 && ((x >> (i < 64 ? i : 0)) & 1))); }
    agree<M>(b, w, r, "number to bits, least significant first");
    vp::ensures((b == x) == same, "comparison with a number looks at the low bits");
    vp::ensures((b != x) == !same, "inequality with a number");
    for (std::size_t i = 0; i < M; ++i) r[i] = false;
    agree<M>(z, w, r, "starts clear");
    agree<M>(d, 0, r, "default constructed is empty");
}
template <std::size_t M> void wide() {
    uint64_t v = vp::any<uint64_t>("v");
    sub_bitset<M> b(M, v);
    bool same = b.size() == M;
    for (std::size_t i = 0; i < M; ++i) same = same && b[i] == (i < 64 && ((v >> (i < 64 ? i : 0)) & 1));
    vp::ensures(same, "number to bits, least significant first (all widths up to 64 bits and beyond)");
    vp::ensures(b == v, "equal to the number it was made from");
}
#define ALL(f) void vp_lemma_##f##_8() { f<8>(); } void vp_lemma_##f##_5() { f<5>(); } void vp_lemma_##f##_1() { f<1>(); }
ALL(ops) ALL(sizes) ALL(index) ALL(value)
void vp_lemma_index_16() { index<16, false>(); }
void vp_lemma_value_64() { wide<64>(); }
void vp_lemma_value_70() { wide<70>(); }
