// dynamic_bitset: representation invariant + bit-by-bit meaning of every operation, for every length
#include "vp.h"
#include <DRAMPower/util/dynamic_bitset.h>
#include VP_GEN
using DRAMPower::util::dynamic_bitset;

// representation invariant: one block per started group of B bits; the mask selects the used bits of a partial last block.
// The unused bits of the last block are unconstrained.
template <std::size_t B> bool inv(const dynamic_bitset<B>& b) {
    bool m = true;
    for (std::size_t i = 0; i < B; ++i) m = m && (b.lastelementmask[i] == (i < b.num_bits % B));
    return b.num_bits < (std::size_t(1) << 38) && b.buffer.size() == (b.num_bits + B - 1) / B && (m || b.num_bits == 0);
}
template <std::size_t B> dynamic_bitset<B> state(const char* n) {
    dynamic_bitset<B> b;
    if (vp::searching()) {
        std::size_t k = vp::length_any(n);
        for (std::size_t i = 0; i < k; ++i) b.push_back(vp::any<bool>("bit"));
        if (vp::any<bool>("junk")) { b.flip(); }
        return b;
    }
    vp::havoc(b, n);
    vp::requires_(inv(b));
    return b;
}
template <std::size_t B> dynamic_bitset<B> near_copy(const dynamic_bitset<B>& a) {
    auto b = a;
    if (vp::any<bool>("twice")) b = ~b, b.flip();
    if (b.size() && vp::any<bool>("change")) b.flip(vp::any<std::size_t>("at") % b.size());
    return b;
}
template <std::size_t B> std::size_t index(const dynamic_bitset<B>& b, const char* n) {
    std::size_t i = vp::any<std::size_t>(n);
    if (vp::searching() && b.size()) i %= b.size();
    vp::requires_(i < b.size());
    return i;
}

template <std::size_t B> void construct() {
    std::size_t n = vp::length_any("n");
    dynamic_bitset<B> z(n);
    vp::ensures(inv(z), "invariant after construction");
    vp::ensures(z.size() == n, "size after construction");
    std::size_t i = vp::any<std::size_t>("i");
    if (i < n) vp::ensures(!z[i], "constructed with all bits clear");
    dynamic_bitset<B> d;
    vp::ensures(inv(d) && d.size() == 0, "default constructed is empty");
}
template <std::size_t B> void construct_value() {
    std::size_t n = vp::length_any("n");
    uint64_t v = vp::any<uint64_t>("v");
    dynamic_bitset<B> z(n, v);
    vp::ensures(inv(z), "invariant after construction from a number");
    vp::ensures(z.size() == n, "size after construction from a number");
    std::size_t i = vp::any<std::size_t>("i");
    if (i < n) vp::ensures(z[i] == (i < 64 && ((v >> (i & 63)) & 1)), "bit i of the number is bit i of the set");
}
template <std::size_t B> void not_() {
    auto b = state<B>("b");
    std::size_t i = index(b, "i");
    auto c = ~b;
    vp::ensures(inv(c) && c.size() == b.size(), "~ keeps the invariant and the size");
    vp::ensures(c[i] == !b[i], "~ complements every bit");
}
template <std::size_t B> void binary() {
    auto a = state<B>("a");
    auto b = vp::searching() ? a : state<B>("b");
    if (vp::searching()) for (std::size_t j = 0; j < b.size(); ++j) b.set(j, vp::any<bool>("bit"));
    vp::requires_(a.size() == b.size());
    std::size_t i = index(a, "i");
    auto x = a ^ b; auto y = a & b; auto z = a | b;
    vp::ensures(inv(x) && x.size() == a.size() && x[i] == (a[i] != b[i]), "^ is bitwise exclusive or");
    vp::ensures(inv(y) && y.size() == a.size() && y[i] == (a[i] && b[i]), "& is bitwise and");
    vp::ensures(inv(z) && z.size() == a.size() && z[i] == (a[i] || b[i]), "| is bitwise or");
    auto p = a; p ^= b; auto q = a; q &= b; auto r = a; r |= b;
    vp::ensures(inv(p) && p.size() == a.size() && p[i] == (a[i] != b[i]), "^= is bitwise exclusive or");
    vp::ensures(inv(q) && q.size() == a.size() && q[i] == (a[i] && b[i]), "&= is bitwise and");
    vp::ensures(inv(r) && r.size() == a.size() && r[i] == (a[i] || b[i]), "|= is bitwise or");
}
template <std::size_t B> void bulk() {
    auto b = state<B>("b");
    std::size_t i = index(b, "i");
    auto s = b; s.set();
    auto r = b; r.reset();
    auto f = b; f.flip();
    vp::ensures(inv(s) && s.size() == b.size() && s[i], "set() sets every bit");
    vp::ensures(inv(r) && r.size() == b.size() && !r[i], "reset() clears every bit");
    vp::ensures(inv(f) && f.size() == b.size() && f[i] == !b[i], "flip() complements every bit");
}
template <std::size_t B> void single() {
    auto b = state<B>("b");
    std::size_t i = index(b, "i"), j = index(b, "j");
    bool v = vp::any<bool>("v");
    auto s = b; s.set(i, v);
    auto f = b; f.flip(i);
    vp::ensures(inv(s) && s.size() == b.size() && s[j] == (j == i ? v : b[j]), "set(i, v) writes bit i only");
    vp::ensures(inv(f) && f.size() == b.size() && f[j] == (j == i ? !b[j] : b[j]), "flip(i) complements bit i only");
}
template <std::size_t B> void push() {
    auto b = state<B>("b");
    bool v = vp::any<bool>("v");
    std::size_t i = vp::any<std::size_t>("i");
    auto p = b; p.push_back(v);
    vp::requires_(b.size() + 1 < (std::size_t(1) << 38));
    vp::ensures(inv(p) && p.size() == b.size() + 1, "push_back grows by one");
    vp::ensures(p[b.size()] == v, "push_back appends the bit at the end");
    if (i < b.size()) vp::ensures(p[i] == b[i], "push_back keeps the other bits");
    vp::ensures(p.count() == b.count() + (v ? 1 : 0), "count after push_back");
    auto c = b; c.clear();
    vp::ensures(inv(c) && c.size() == 0 && c.count() == 0, "clear() empties the set");
}
template <std::size_t B> void counting() {
    auto b = state<B>("b");
    std::size_t i = index(b, "i");
    bool v = vp::any<bool>("v");
    auto s = b; s.set(i, v);
    vp::ensures(s.count() + (b[i] ? 1 : 0) == b.count() + (v ? 1 : 0), "count after set(i, v)");
    auto f = b; f.flip(i);
    vp::ensures(f.count() + (b[i] ? 1 : 0) == b.count() + (b[i] ? 0 : 1), "count after flip(i)");
}
// a == b iff same length and same bits: one direction bit by bit, the other from "all bits agree"
template <std::size_t G, std::size_t B, std::size_t C> void compare(const dynamic_bitset<B>& a, const dynamic_bitset<C>& b) {
    const bool equal = a == b, unequal = a != b;
    vp::ensures(unequal == !equal, "!= is the negation of ==");
    const std::size_t i = vp::any<std::size_t>("i");
    if (equal) {
        vp::ensures(a.size() == b.size(), "equal bit sequences have the same length");
        if (i < a.size()) vp::ensures(a[i] == b[i], "equal bit sequences have the same bits");
    }
    if (a.size() == b.size()) {
        // (grouped by G bits: the same as "for every i")
        const bool agree = vp::forall((a.size() + G - 1) / G, [&](std::size_t k) {
            bool r = true;
            for (std::size_t c = 0; c < G; ++c) r = r && (k * G + c >= a.size() || a[k * G + c] == b[k * G + c]);
            return r; });
        if (agree) vp::ensures(equal, "bit sequences of the same length with the same bits are equal");
    }
}
template <std::size_t B> void equality() {
    auto a = state<B>("a");
    auto b = vp::searching() && vp::any<bool>("close") ? near_copy(a) : state<B>("b");
    compare<B>(a, b);
}
template <std::size_t B, std::size_t C> void equality_mixed() {
    auto a = state<B>("a");
    auto b = state<C>("b");
    if (vp::searching() && vp::any<bool>("close")) {
        b.clear();
        for (std::size_t i = 0; i < a.size(); ++i) b.push_back(a[i]);
        if (b.size() && vp::any<bool>("change")) b.flip(vp::any<std::size_t>("at") % b.size());
    }
    compare<1>(a, b);
}
#define SOME(f) void vp_lemma_##f##_4() { f<4>(); } void vp_lemma_##f##_3() { f<3>(); } void vp_lemma_##f##_1() { f<1>(); }
#define ALL(f) void vp_lemma_##f##_8() { f<8>(); } void vp_lemma_##f##_5() { f<5>(); } void vp_lemma_##f##_1() { f<1>(); }
ALL(construct) ALL(construct_value) ALL(not_) ALL(binary) ALL(bulk) ALL(single) SOME(push) SOME(counting) SOME(equality)
void vp_lemma_equality_8_5() { equality_mixed<8, 5>(); }
void vp_lemma_equality_1_8() { equality_mixed<1, 8>(); }
