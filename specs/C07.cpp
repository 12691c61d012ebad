// Pattern handler and command dispatch
#include "vp.h"
#include <cassert>
#include <stdexcept>
#include <sstream>
#include <DRAMPower/command/Command.cpp>
#include <DRAMPower/command/Pattern.cpp>
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/util/Router.h>
#include VP_GEN
using namespace DRAMPower;

// a stand-in encoder: its result depends on everything it is given
struct Probe {
    static uint64_t encode(const TargetCoordinate& c, const std::vector<pattern_descriptor::t>& p, const PatternEncoderOverrides& o, const uint64_t last, const std::monostate&) {
        return c.bank * 3 + c.row * 5 + (p[0] == pattern_descriptor::H ? 1u : 0u) * 7 + p.size() * 11 + last * 13 + (o.hasSetting(pattern_descriptor::V) ? 17 : 19);
    }
};
using H = PatternHandler<CmdType, pattern_descriptor::t, TargetCoordinate, Probe>;
using PV = std::vector<pattern_descriptor::t>;
static uint64_t word(const TargetCoordinate& c, const PV& p, bool ov, uint64_t last) {
    return c.bank * 3 + c.row * 5 + (p[0] == pattern_descriptor::H ? 1u : 0u) * 7 + p.size() * 11 + last * 13 + (ov ? 17 : 19);
}

void vp_lemma_patterns() {
    bool ov = vp::any<bool>("ov");
    PatternEncoderOverrides o;
    if (ov) o.updateSettings({{pattern_descriptor::V, PatternEncoderBitSpec::H}});
    uint64_t init = vp::any<uint64_t>("init");
    H h(o, init);
    auto p = vp::any<PV>("p"), q = vp::any<PV>("q");
    vp::requires_(!p.empty() && !q.empty());
    h.registerPattern<CmdType::ACT>(p);
    h.registerPattern<CmdType::RD>(q);
    TargetCoordinate c = vp::any<TargetCoordinate>("c"), d = vp::any<TargetCoordinate>("d");
    vp::ensures(h.getPattern(CmdType::ACT) == p && h.getPattern(CmdType::RD) == q, "the registered pattern of a command is kept");
    vp::ensures(h.getPattern(CmdType::WR).empty(), "a command without a registered pattern has none");
    uint64_t w1 = h.getCommandPattern(CmdType::ACT, c);
    vp::ensures(w1 == word(c, p, ov, init), "the first word is encoded from the command's own pattern, coordinate, overrides and the initial word");
    uint64_t w2 = h.getCommandPattern(CmdType::RD, d);
    vp::ensures(w2 == word(d, q, ov, w1), "every word is encoded from the word before it");
    uint64_t w3 = h.getCoordinatePattern(c, q);
    vp::ensures(w3 == word(c, q, ov, w2), "a word for an explicit pattern follows the same history");
    // re-registration replaces
    h.registerPattern<CmdType::ACT>(q);
    vp::ensures(h.getPattern(CmdType::ACT) == q && h.getPattern(CmdType::RD) == q, "registering again replaces the pattern of that command only");
    uint64_t w4 = h.getCommandPattern(CmdType::ACT, d);
    vp::ensures(w4 == word(d, q, ov, w3), "the replaced pattern is used");
    // a copy has its own history
    H k(h);
    uint64_t wk = k.getCommandPattern(CmdType::RD, c);
    uint64_t w5 = h.getCommandPattern(CmdType::ACT, c);
    vp::ensures(wk == word(c, q, ov, w4) && w5 == word(c, q, ov, w4), "a copy continues independently from the same word");
}
void vp_lemma_missing() {
    uint64_t init = vp::any<uint64_t>("init");
    H h(PatternEncoderOverrides{}, init);
    auto p = vp::any<PV>("p");
    vp::requires_(!p.empty());
    h.registerPattern<CmdType::ACT>(p);
    CmdType t = vp::any<CmdType>("t");
    vp::requires_(static_cast<std::size_t>(t) < static_cast<std::size_t>(CmdType::COUNT));
    TargetCoordinate c = vp::any<TargetCoordinate>("c");
    bool thrown = false;
    uint64_t w = 0;
    try { w = h.getCommandPattern(t, c); } catch (const std::runtime_error&) { thrown = true; }
    vp::ensures(thrown == (t != CmdType::ACT), "exactly commands without a pattern are rejected");
    uint64_t prev = init;
    if (!thrown) { vp::ensures(w == word(c, p, false, init), "a registered command is encoded"); prev = w; }
    bool thrown2 = false;
    try { h.getCoordinatePattern(c, PV{}); } catch (const std::runtime_error&) { thrown2 = true; }
    vp::ensures(thrown2, "an empty pattern is rejected");
    vp::ensures(h.getCommandPattern(CmdType::ACT, c) == word(c, p, false, prev), "a rejected command leaves the word history unchanged");
}

struct Seen { uint64_t n = 0; uint64_t ts = 0; uint64_t bank = 0; int who = 0; };
void vp_lemma_router() {
    Seen s;
    CmdType t = vp::any<CmdType>("t");
    vp::requires_(static_cast<std::size_t>(t) < static_cast<std::size_t>(CmdType::COUNT));
    TargetCoordinate tc = vp::any<TargetCoordinate>("tc");
    Command c(vp::any<uint64_t>("ts"), t, tc);
    Router<CmdType> r([&s](const Command& x) { s.n++; s.ts = x.timestamp; s.bank = x.targetCoordinate.bank; s.who = 1; });
    vp::ensures(r.size() == static_cast<std::size_t>(CmdType::COUNT), "one handler per command");
    r.routeCommand<CmdType::RD>([&s](const Command& x) { s.n++; s.ts = x.timestamp; s.bank = x.targetCoordinate.bank; s.who = 2; });
    r.routeCommand<CmdType::WRA>([&s](const Command& x) { s.n++; s.ts = x.timestamp; s.bank = x.targetCoordinate.bank; s.who = 3; });
    r.executeCommand(c);
    vp::ensures(s.n == 1, "exactly one handler runs");
    vp::ensures(s.who == (t == CmdType::RD ? 2 : t == CmdType::WRA ? 3 : 1), "the handler of the command runs, else the default one");
    vp::ensures(s.ts == c.timestamp && s.bank == tc.bank, "the handler is given the command");
    r.routeCommand<CmdType::RD>([&s](const Command&) { s.n += 10; s.who = 4; });
    r.executeCommand(c);
    vp::ensures(s.n == (t == CmdType::RD ? 11u : 2u), "routing again replaces the handler of that command only");
}
void vp_lemma_router_default() {
    Seen s;
    CmdType t = vp::any<CmdType>("t");
    vp::requires_(static_cast<std::size_t>(t) < static_cast<std::size_t>(CmdType::COUNT));
    Router<CmdType> r(std::nullopt);
    r.routeCommand<CmdType::ACT>([&s](const Command&) { s.n++; });
    r.executeCommand(Command(0, t));
    vp::ensures(s.n == (t == CmdType::ACT ? 1u : 0u), "commands without a handler are ignored");
}
