// Specification vocabulary.  In verification mode everything here is only declared: the engine gives it meaning.
// In native mode (VP_NATIVE) the same specification functions run against the real code with concrete inputs (replay of a
// counterexample, or random inputs).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <optional>
#include <array>
#include <bitset>
#include <deque>
#include <list>
#include <utility>
#include <tuple>
#include <type_traits>

namespace vp {
#ifndef VP_NATIVE   // (the bodies below only make clang instantiate f; the engine gives these functions their meaning by name)
template <class T> T any(const char* name);                   // arbitrary value of T (every field arbitrary)
template <class T> void havoc(T& x, const char* name);        // overwrite every data field of x with an arbitrary value
void requires_(bool c);                                       // hypothesis
bool cases(bool c);                                           // c; the lemma is proved for c and for !c separately
void branches();                                              // ask the solver at every branch of this lemma (shorter formulas, same meaning)
void ensures(bool c, const char* what);                       // obligation
void unreachable(const char* what);                           // obligation: this point is not reached
void cover();                                                 // non-vacuity: this point must be reachable
template <class F> bool forall(std::size_t n, F f) { return n == 0 || f(n - 1); }           // f(i) for every i < n
template <class F> bool exists(std::size_t n, F f) { return n != 0 && f(n - 1); }
template <class F> uint64_t sum(std::size_t n, F f) { return f(n); }          // modular sum of f(i), i < n
template <class F> double sumd(std::size_t n, F f) { return f(n); }
template <class F> uint64_t count(std::size_t n, F f) { return f(n); }
template <class T> bool same(const T& a, const T& b);         // structural identity (all fields)
bool near(double a, double b, double scale = 0);              // equality of real-valued results (rounding not modelled; natively up to rounding of values of size scale)
bool implies(bool a, bool b);
#else
}
#include "vp_native.h"
namespace vp {

#endif
// an arbitrary container size (below 2^38; random native runs use small ones)
inline std::size_t length_any(const char* name) {
#ifndef VP_NATIVE
    std::size_t n = any<std::size_t>(name);
    requires_(n < (std::size_t(1) << 38));
#else
    std::size_t n = any<std::size_t>(name);
    if (!src().replay) { n %= 70; src().log.back().second = std::to_string(n); }
    requires_(n < (std::size_t(1) << 20));
#endif
    return n;
}
// an arbitrary value between lo and hi
inline uint64_t any_in(uint64_t lo, uint64_t hi, const char* name) {
    uint64_t v = any<uint64_t>(name);
#ifdef VP_NATIVE
    if (!src().replay && hi >= lo && hi - lo != ~uint64_t(0)) { v = v >= lo && v <= hi ? v : lo + v % (hi - lo + 1); src().log.back().second = std::to_string(v); }
#endif
    requires_(lo <= v && v <= hi);
    return v;
}
// an arbitrary real number between lo and hi
inline double real_in(double lo, double hi, const char* name) {
    double v = any<double>(name);
#ifdef VP_NATIVE
    if (!src().replay && !(v >= lo && v <= hi)) {
        double f = v - std::floor(v); v = lo + f * (hi - lo);
        char b[64]; std::snprintf(b, sizeof b, "%.17g", v); src().log.back().second = b;
    }
#endif
    requires_(lo <= v && v <= hi);
    return v;
}
#ifndef VP_NATIVE
inline bool searching() { return false; }
#else
inline bool searching() { return !src().replay; }      // random native run: build states constructively
#endif
// an arbitrary bool (random native runs: often the same value for all of them)
inline bool flag(const char* name) {
    bool v = any<bool>(name);
#ifdef VP_NATIVE
    if (!src().replay && src().style != 0) { v = src().style == 1 ? false : src().style == 2 ? true : v; src().log.back().second = v ? "1" : "0"; }
#endif
    return v;
}
}  // namespace vp

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
