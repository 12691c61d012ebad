// Native meaning of the specification vocabulary: concrete runs of the same lemmas on the real code.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <functional>
#include <unordered_map>
#include <variant>
namespace vp {

struct Skip {};
struct Fail { std::string what; };

struct Source {
    bool replay = false;
    std::map<std::string, std::string> given;     // replay values
    std::map<std::string, int> seen;
    std::vector<std::pair<std::string, std::string>> log;
    uint64_t s = 88172645463325252ull;
    std::vector<uint64_t> pool;
    std::string fail;
    uint64_t ensured = 0;
    int maxlen = 5;
    int style = 0;
    uint64_t raw() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
    void reset(uint64_t seed) {
        s = seed * 0x9E3779B97F4A7C15ull + 1442695040888963407ull; if (!s) s = 1; raw(); raw();
        seen.clear(); log.clear(); pool.clear(); fail.clear();
        style = static_cast<int>(raw() % 4);
        maxlen = 1 + static_cast<int>(raw() % 7);
    }
    std::string fresh(const char* n) { int c = seen[n]++; return c ? std::string(n) + "~" + std::to_string(c) : std::string(n); }
    uint64_t num() {
        uint64_t r = raw();
        unsigned k = static_cast<unsigned>((r >> 8) % 100);
        uint64_t v;
        if (k < 35 && !pool.empty()) {
            v = pool[(r >> 20) % pool.size()];
            unsigned z = (r >> 50) % 8;
            if (z < 2) v += 1; else if (z == 2) v -= 1; else if (z == 3) v += (r >> 16) % 20;
        } else if (k < 60) v = (r >> 30) % 4;
        else if (k < 80) v = (r >> 30) % 33;
        else if (k < 90) v = (r >> 30) % 1000;
        else if (style == 0 || k < 93) v = (r >> 30) % 100000;
        else if (k < 96) v = 1ull << ((r >> 30) % 64);
        else if (k < 98) v = (1ull << ((r >> 30) % 64)) - 1;
        else v = raw();
        pool.push_back(v);
        return v;
    }
    bool lookup(const std::string& n, std::string& out) {
        auto it = given.find(n);
        if (it == given.end()) return false;
        out = it->second; return true;
    }
};
inline Source& src() { static Source s; return s; }

template <class T> T scalar(const std::string& n) {
    Source& S = src();
    std::string v;
    T x{};
    if constexpr (std::is_same_v<T, bool>) {
        if (S.replay) { if (S.lookup(n, v)) x = v != "0"; } else x = (S.raw() >> 17) & 1;
        S.log.emplace_back(n, x ? "1" : "0");
    } else if constexpr (std::is_floating_point_v<T>) {
        if (S.replay) { if (S.lookup(n, v)) x = static_cast<T>(std::strtod(v.c_str(), nullptr)); }
        else { uint64_t r = S.raw(); x = static_cast<T>((r >> 20) % 1000) / static_cast<T>(1 + (r >> 40) % 8); }
        char b[64]; std::snprintf(b, sizeof b, "%.17g", static_cast<double>(x));
        S.log.emplace_back(n, b);
    } else {
        if (S.replay) { if (S.lookup(n, v)) x = static_cast<T>(v.size() && v[0] == '-' ? static_cast<uint64_t>(std::strtoll(v.c_str(), nullptr, 10)) : std::strtoull(v.c_str(), nullptr, 10)); }
        else x = static_cast<T>(S.num());
        if constexpr (std::is_signed_v<T>) S.log.emplace_back(n, std::to_string(static_cast<long long>(x)));
        else S.log.emplace_back(n, std::to_string(static_cast<unsigned long long>(x)));
    }
    return x;
}
inline std::size_t length(const std::string& n) {
    Source& S = src();
    std::size_t x = 0; std::string v;
    if (S.replay) { if (S.lookup(n, v)) x = std::strtoull(v.c_str(), nullptr, 10); if (x > 4096) x = 4096; }
    else x = (S.raw() >> 11) % (S.maxlen + 1);
    S.log.emplace_back(n, std::to_string(x));
    return x;
}

template <class E> struct EnumVals { static constexpr bool known = false; };
template <class T, class = void> struct Gen {
    static void fill(T& x, const std::string& n) {
        if constexpr (std::is_arithmetic_v<T>) x = scalar<T>(n);
        else if constexpr (std::is_enum_v<T>) {
            using U = std::underlying_type_t<T>;
            Source& S = src();
            if constexpr (EnumVals<T>::known) {
                if (S.replay) x = static_cast<T>(scalar<U>(n));
                else { x = static_cast<T>(EnumVals<T>::v[(S.raw() >> 13) % EnumVals<T>::n]); S.log.emplace_back(n, std::to_string(static_cast<long long>(x))); }
            } else x = static_cast<T>(scalar<U>(n));
        }
    }
    static bool same(const T& a, const T& b) {
        if constexpr (std::is_floating_point_v<T>) return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b));
        else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) return a == b;
        else return true;
    }
};
inline std::string idx(const std::string& n, std::size_t i) { return n + "[" + std::to_string(i) + "]"; }
template <class V, class E> struct GenSeq {
    static void fill(V& x, const std::string& n) {
        std::size_t k = length(n + ".len");
        x = V();
        for (std::size_t i = 0; i < k; i++) { x.emplace_back(); if constexpr (std::is_same_v<E, bool>) x.back() = scalar<bool>(idx(n, i)); else Gen<E>::fill(x.back(), idx(n, i)); }
    }
    static bool same(const V& a, const V& b) {
        if (a.size() != b.size()) return false;
        auto i = a.begin(); auto j = b.begin();
        for (; i != a.end(); ++i, ++j) if (!Gen<E>::same(*i, *j)) return false;
        return true;
    }
};
template <class E> struct Gen<std::vector<E>, void> : GenSeq<std::vector<E>, E> {};
template <class E> struct Gen<std::deque<E>, void> : GenSeq<std::deque<E>, E> {};
template <class E> struct Gen<std::list<E>, void> : GenSeq<std::list<E>, E> {};
template <class E, std::size_t N> struct Gen<std::array<E, N>, void> {
    static void fill(std::array<E, N>& x, const std::string& n) { for (std::size_t i = 0; i < N; i++) Gen<E>::fill(x[i], idx(n, i)); }
    static bool same(const std::array<E, N>& a, const std::array<E, N>& b) { for (std::size_t i = 0; i < N; i++) if (!Gen<E>::same(a[i], b[i])) return false; return true; }
};
template <class E, std::size_t N> struct Gen<E[N], void> {
    static void fill(E (&x)[N], const std::string& n) { for (std::size_t i = 0; i < N; i++) Gen<E>::fill(x[i], idx(n, i)); }
    static bool same(const E (&a)[N], const E (&b)[N]) { for (std::size_t i = 0; i < N; i++) if (!Gen<E>::same(a[i], b[i])) return false; return true; }
};
template <class E> struct Gen<std::optional<E>, void> {
    static void fill(std::optional<E>& x, const std::string& n) {
        bool h = scalar<bool>(n + ".has");
        if (h) { x.emplace(); Gen<E>::fill(*x, n + ".val"); } else x.reset();
    }
    static bool same(const std::optional<E>& a, const std::optional<E>& b) { return a.has_value() == b.has_value() && (!a.has_value() || Gen<E>::same(*a, *b)); }
};
template <std::size_t N> struct Gen<std::bitset<N>, void> {
    static void fill(std::bitset<N>& x, const std::string& n) { for (std::size_t i = 0; i < N; i++) x[i] = scalar<bool>(n + ".bit" + std::to_string(i)); }
    static bool same(const std::bitset<N>& a, const std::bitset<N>& b) { return a == b; }
};
template <class A, class B> struct Gen<std::pair<A, B>, void> {
    static void fill(std::pair<A, B>& x, const std::string& n) { Gen<A>::fill(x.first, n + ".first"); Gen<B>::fill(x.second, n + ".second"); }
    static bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return Gen<A>::same(a.first, b.first) && Gen<B>::same(a.second, b.second); }
};
template <> struct Gen<std::string, void> {
    static void fill(std::string& x, const std::string& n) { uint64_t c = scalar<uint64_t>(n); x = c % 5 == 0 ? std::string() : "s" + std::to_string(c); }
    static bool same(const std::string& a, const std::string& b) { return a == b; }
};
template <class K, class E> struct Gen<std::unordered_map<K, E>, void> {
    static void fill(std::unordered_map<K, E>& x, const std::string& n) {
        std::size_t k = length(n + ".size");
        x.clear();
        for (std::size_t i = 0; i < k; i++) { K key{}; Gen<K>::fill(key, n + ".key" + std::to_string(i)); Gen<E>::fill(x[key], n + ".at" + std::to_string(i)); }
    }
    static bool same(const std::unordered_map<K, E>& a, const std::unordered_map<K, E>& b) { return a == b; }
};
template <class R, class... A> struct Gen<std::function<R(A...)>, void> {
    static void fill(std::function<R(A...)>&, const std::string&) {}
    static bool same(const std::function<R(A...)>&, const std::function<R(A...)>&) { return true; }
};
template <class E> struct Gen<std::unique_ptr<E>, void> {
    static void fill(std::unique_ptr<E>&, const std::string&) {}
    static bool same(const std::unique_ptr<E>& a, const std::unique_ptr<E>& b) { return (a == nullptr) == (b == nullptr); }
};

template <class T> T any(const char* name) { T x{}; Gen<T>::fill(x, src().fresh(name)); return x; }
template <class T> void havoc(T& x, const char* name) { Gen<T>::fill(x, src().fresh(name)); }
inline void requires_(bool c) { if (!c) throw Skip{}; }
inline bool cases(bool c) { return c; }
inline void branches() {}
inline void ensures(bool c, const char* what) { src().ensured++; if (!c) throw Fail{what}; }
inline void unreachable(const char* what) { throw Fail{what}; }
inline void cover() {}
inline std::size_t cap(std::size_t n) { return n; }
template <class F> bool forall(std::size_t n, F f) { for (std::size_t i = 0; i < n; i++) if (!f(i)) return false; return true; }
template <class F> bool exists(std::size_t n, F f) { for (std::size_t i = 0; i < n; i++) if (f(i)) return true; return false; }
template <class F> uint64_t sum(std::size_t n, F f) { uint64_t r = 0; for (std::size_t i = 0; i < n; i++) r += f(i); return r; }
template <class F> double sumd(std::size_t n, F f) { double r = 0; for (std::size_t i = 0; i < n; i++) r += f(i); return r; }
template <class F> uint64_t count(std::size_t n, F f) { uint64_t r = 0; for (std::size_t i = 0; i < n; i++) r += f(i) ? 1 : 0; return r; }
template <class T> bool same(const T& a, const T& b) { return Gen<T>::same(a, b); }
inline bool near(double a, double b, double scale = 0) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return (std::isnan(a) || std::isinf(a)) && (std::isnan(b) || std::isinf(b));
    double d = std::fabs(a - b), m = std::fabs(a) + std::fabs(b);
    return d <= 1e-7 * m + 1e-12 + 1e-10 * std::fabs(scale);
}
inline bool implies(bool a, bool b) { return !a || b; }
}  // namespace vp
