// Command bus encoding of a pattern, and the override table
#include "vp.h"
#include <cassert>
#include <DRAMPower/command/Command.cpp>
#include <DRAMPower/command/Pattern.cpp>
#include VP_GEN
using namespace DRAMPower;
using D = pattern_descriptor::t;
using O = PatternEncoderOverrides;
using S = PatternEncoderBitSpec;

static bool bit(uint64_t v, std::size_t i) { return i < 64 && ((v >> i) & 1); }
// coordinates are 32 bit quantities on the wire
static bool cbit(uint64_t v, std::size_t i) { return ((v >> i) & 1) != 0; }
static bool overridden(const O& o, D d, bool last, bool dflt) {
    if (!o.hasSetting(d)) return dflt;
    S s = o.getSetting(d);
    return s == S::L ? false : s == S::H ? true : s == S::LAST_BIT ? last : dflt;
}
// level of the pin carrying descriptor d
static bool level(D d, const TargetCoordinate& c, const O& o, bool last) {
    using namespace pattern_descriptor;
    if (d == H) return true;
    if (d == L) return false;
    if (d == BL || (d >= CID0 && d <= CID3)) return overridden(o, d, last, true);
    if (d == V || d == X || d == AP) return overridden(o, d, last, false);
    if (d >= BA0 && d <= BA8) return cbit(c.bank, d - BA0);
    if (d >= BG0 && d <= BG2) return cbit(c.bankGroup, d - BG0);
    if (d >= C0 && d <= C4) return overridden(o, d, last, cbit(c.column, d - C0));
    if (d == C10) return overridden(o, d, last, cbit(c.column, 10));
    if (d >= C5 && d <= C16) return cbit(c.column, d - C0);
    if (d >= R0 && d <= R17) return cbit(c.row, d - R0);
    return false;
}
static bool known(D d) {
    using namespace pattern_descriptor;
    return !(d >= A0 && d <= A17) && !(d >= R18 && d <= R23);
}
static bool valid(S s) { return s == S::L || s == S::H || s == S::LAST_BIT || s == S::INVALID; }
static TargetCoordinate coord(const char*) {
    TargetCoordinate c(vp::any<uint32_t>("bank"), vp::any<uint32_t>("bankGroup"), vp::any<uint32_t>("rank"), vp::any<uint32_t>("row"), vp::any<uint32_t>("column"));
    return c;
}
// every pattern up to 64 bits, every coordinate, every override table, every previous pattern: each pin carries its descriptor's level, first
// descriptor on the most significant bit, and nothing else is driven
void vp_lemma_encode() {
    auto pattern = vp::any<std::vector<D>>("pattern");
    vp::requires_(!pattern.empty() && pattern.size() <= 64);
    TargetCoordinate c = coord("c");
    O o;
    vp::havoc(o, "o");
    vp::requires_(vp::forall(pattern.size(), [&](std::size_t i) { return valid(o.getSetting(pattern[i])); }));
    uint64_t last = vp::any<uint64_t>("last");
    uint64_t r = DefaultEncoder::encode(c, pattern, o, last, std::monostate{});
    std::size_t n = pattern.size();
    vp::ensures(vp::forall(n, [&](std::size_t i) { return !known(pattern[i]) || bit(r, n - 1 - i) == level(pattern[i], c, o, bit(last, n - 1 - i)); }),
                "every descriptor sets its pin to the level it stands for");
    vp::ensures(vp::forall(64, [&](std::size_t i) { return i < n || !bit(r, i); }), "pins beyond the pattern stay low");
}
// same, pattern of one descriptor
void vp_lemma_encode_one() {
    D d = vp::any<D>("d");
    TargetCoordinate c = coord("c");
    O o;
    vp::havoc(o, "o");
    vp::requires_(valid(o.getSetting(d)));
    uint64_t last = vp::any<uint64_t>("last");
    PatternEncoder enc(o);
    uint64_t r = enc.encode(c, std::vector<D>{d}, last);
    vp::ensures(r <= 1, "one descriptor drives one pin");
    if (known(d)) vp::ensures((r == 1) == level(d, c, o, bit(last, 0)), "a descriptor sets its pin to the level it stands for");
}
// the override table behaves as a map: last update wins, removal restores the default, other entries are untouched
void vp_lemma_overrides() {
    O o;
    vp::havoc(o, "o");
    D d = vp::any<D>("d"), e = vp::any<D>("e"), f = vp::any<D>("f");
    S s = vp::any<S>("s"), t = vp::any<S>("t");
    vp::requires_(valid(s) && valid(t));
    bool had = o.hasSetting(f);
    S before = o.getSetting(f);
    vp::ensures(had || before == S::INVALID, "no entry reads as none");
    O u = o;
    u.updateSettings({{d, s}, {e, t}});
    vp::ensures(u.hasSetting(d) && u.hasSetting(e), "updated entries are present");
    vp::ensures(u.getSetting(e) == t, "the last update of an entry wins");
    vp::ensures(d == e || u.getSetting(d) == s, "every listed entry is updated");
    if (f != d && f != e) vp::ensures(u.hasSetting(f) == had && u.getSetting(f) == before, "other entries are untouched by an update");
    bool was = u.hasSetting(f);
    vp::ensures(u.removeSetting(f) == was, "removal reports whether there was an entry");
    vp::ensures(!u.hasSetting(f) && u.getSetting(f) == S::INVALID, "a removed entry is gone");
    if (d != f && d != e) vp::ensures(u.getSetting(d) == s, "removal leaves other entries");
    O i({{d, s}, {e, t}});
    vp::ensures(i.hasSetting(d) && i.hasSetting(e) && i.getSetting(d) == s, "a table built from a list has the listed entries");
    vp::ensures(d == e || i.getSetting(e) == t, "a table built from a list has every listed entry");
    vp::ensures(f == d || f == e || !i.hasSetting(f), "a table built from a list has nothing else");
    O z;
    vp::ensures(!z.hasSetting(f) && z.getSetting(f) == S::INVALID, "an empty table overrides nothing");
}
// applying one override
void vp_lemma_apply() {
    O o;
    vp::havoc(o, "o");
    D d = vp::any<D>("d");
    vp::requires_(valid(o.getSetting(d)));
    bool last = vp::any<bool>("last"), dflt = vp::any<bool>("dflt");
    vp::ensures(patternApplyBitSpec<>(o, d, last, dflt) == overridden(o, d, last, dflt), "low / high / previous / default level");
}
