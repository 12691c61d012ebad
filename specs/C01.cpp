// Interval accounting: util::interval_counter
#include "vp.h"
#include <sstream>
#include <DRAMPower/util/cycle_stats.h>
#include VP_GEN
using IC = DRAMPower::util::interval_counter<uint64_t>;

// every reachable state: accumulated count, never started / open since s / closed
struct View { uint64_t n; bool started; bool ended; uint64_t s; uint64_t e; };
static IC make(View& v, const char* nm) {
    v = View{vp::any<uint64_t>("n"), vp::any<bool>("started"), vp::any<bool>("ended"), vp::any<uint64_t>("s"), vp::any<uint64_t>("e")};
    if (!v.started) v.ended = false;
    IC c;
    c.add(v.n);
    if (v.started) {
        c.start_interval(v.s);
        if (v.ended) {
            vp::requires_(v.e >= v.s);
            vp::requires_(v.n + (v.e - v.s) >= v.n);
            c.close_interval(v.e);
            v.n += v.e - v.s;
        }
    }
    return c;
}
static void shows(const IC& c, const View& v, const char* what) {
    vp::ensures(c.get_count() == v.n, "accumulated count");
    vp::ensures(c.is_open() == (v.started && !v.ended), "open state");
    vp::ensures(c.is_closed() == (v.started && v.ended), "closed state");
    vp::ensures(c.get_start() == (v.started ? v.s : 0), "start time");
    vp::ensures(c.get_end() == (v.started && v.ended ? v.e : 0), "end time");
}
static void shows_at(const IC& c, const View& v) {
    uint64_t t = vp::any<uint64_t>("t");
    uint64_t want = v.n + (v.started && !v.ended && t > v.s ? t - v.s : 0);
    vp::ensures(c.get_count_at(t) == want, "count at a time = closed intervals + elapsed part of the open one");
}
void vp_lemma_initial() {
    IC c;
    shows(c, View{0, false, false, 0, 0}, "");
    uint64_t s = vp::any<uint64_t>("s");
    IC d(s);
    shows(d, View{0, true, false, s, 0}, "");
    shows_at(d, View{0, true, false, s, 0});
}
void vp_lemma_reachable() { View v; IC c = make(v, "c"); shows(c, v, ""); shows_at(c, v); }
void vp_lemma_start() {
    View v; IC c = make(v, "c");
    uint64_t s = vp::any<uint64_t>("s2");
    c.start_interval(s);
    View w{v.n, true, false, s, 0};
    shows(c, w, ""); shows_at(c, w);
}
void vp_lemma_start_if_not_running() {
    View v; IC c = make(v, "c");
    uint64_t s = vp::any<uint64_t>("s2");
    c.start_interval_if_not_running(s);
    View w = (v.started && !v.ended) ? v : View{v.n, true, false, s, 0};
    shows(c, w, ""); shows_at(c, w);
}
void vp_lemma_close() {
    View v; IC c = make(v, "c");
    uint64_t t = vp::any<uint64_t>("t2");
    bool open = v.started && !v.ended;
    vp::requires_(!open || t >= v.s);
    uint64_t d = c.close_interval(t);
    vp::ensures(d == (open ? t - v.s : 0), "close returns the length of the interval it closed, 0 when none was open");
    View w = open ? View{v.n + (t - v.s), true, true, v.s, t} : v;
    shows(c, w, ""); shows_at(c, w);
    // closing again changes nothing
    uint64_t t3 = vp::any<uint64_t>("t3");
    vp::ensures(c.close_interval(t3) == 0, "a closed interval is not counted twice");
    shows(c, w, "");
}
void vp_lemma_reset() {
    View v; IC c = make(v, "c");
    c.reset_interval();
    View w{v.n, false, false, 0, 0};
    shows(c, w, ""); shows_at(c, w);
}
void vp_lemma_add() {
    View v; IC c = make(v, "c");
    uint64_t a = vp::any<uint64_t>("a");
    c.add(a);
    v.n += a;
    shows(c, v, ""); shows_at(c, v);
}
// any number of back-to-back intervals: the total is the sum of their lengths
void vp_lemma_history() {
    auto len = vp::any<std::vector<uint32_t>>("len");
    auto gap = vp::any<std::vector<uint32_t>>("gap");
    vp::requires_(len.size() == gap.size());
    IC c;
    uint64_t t = 0;
    for (std::size_t i = 0; i < len.size(); ++i) {
        t += gap[i];
        c.start_interval_if_not_running(t);
        t += len[i];
        c.close_interval(t);
    }
    vp::ensures(c.get_count() == vp::sum(len.size(), [&](std::size_t i) { return uint64_t(len[i]); }), "total = sum of interval lengths");
    vp::ensures(!c.is_open(), "nothing left open");
}
void vp_lemma_copy() {
    View v; IC c = make(v, "c");
    IC d(c); IC e; e = c;
    shows(d, v, ""); shows(e, v, ""); shows_at(d, v); shows_at(e, v);
}
