#include "vp.h"
#include <sstream>
#include <DRAMPower/util/cycle_stats.h>
#include VP_GEN
using IC = DRAMPower::util::interval_counter<uint64_t>;
static IC make(const char* nm) {
    IC c;
    c.add(vp::any<uint64_t>("n"));
    if (vp::any<bool>("started")) { c.start_interval(vp::any<uint64_t>("s")); if (vp::any<bool>("ended")) c.close_interval(vp::any<uint64_t>("e")); }
    return c;
}
void vp_lemma_roundtrip() {
    IC c = make("c"), d = make("d");
    std::stringstream s;
    c.serialize(s);
    d.deserialize(s);
    uint64_t t = vp::any<uint64_t>("t");
    vp::ensures(d.get_count() == c.get_count(), "count restored");
    vp::ensures(d.is_open() == c.is_open(), "open restored");
    vp::ensures(d.is_closed() == c.is_closed(), "closed restored");
    vp::ensures(d.get_start() == c.get_start(), "start restored");
    vp::ensures(d.get_end() == c.get_end(), "end restored");
    vp::ensures(d.get_count_at(t) == c.get_count_at(t), "count at a time restored");
}
