// C21: a command encoder restored from a saved one encodes what follows the same way
#include "vp.h"
#include <sstream>
#include <DRAMPower/command/Command.cpp>
#include <DRAMPower/command/Pattern.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.cpp>
#include <DRAMPower/standards/lpddr6/LPDDR6Pattern.cpp>
#include <DRAMPower/util/PatternHandler.h>
#include VP_GEN
using namespace DRAMPower;
using Handler = PatternHandler<CmdType>;
static void patterns(Handler& h) {
    using namespace pattern_descriptor;
    h.registerPattern<CmdType::ACT>({H, R0, X, BA0, V, L});
    h.registerPattern<CmdType::RD>({C1, X, X, V, H, C0});
}
void vp_lemma_encoder() {
    using namespace pattern_descriptor;
    const PatternEncoderOverrides settings{{X, PatternEncoderBitSpec::LAST_BIT}, {V, PatternEncoderBitSpec::LAST_BIT}};
    Handler a(settings, vp::any<uint64_t>("init a")), b(settings, vp::any<uint64_t>("init b"));
    patterns(a); patterns(b);
    const TargetCoordinate c(vp::any<std::size_t>("bank"), 0, 0, vp::any<std::size_t>("row"), vp::any<std::size_t>("column")), d(vp::any<std::size_t>("bank"), 0, 0, vp::any<std::size_t>("row"), vp::any<std::size_t>("column"));
    if (vp::cases(vp::any<bool>("used"))) a.getCommandPattern(CmdType::ACT, c);
    if (vp::cases(vp::any<bool>("b used"))) b.getCommandPattern(CmdType::RD, c);
    std::stringstream s;
    a.serialize(s);
    b.deserialize(s);
    vp::ensures(a.getCommandPattern(CmdType::RD, d) == b.getCommandPattern(CmdType::RD, d), "the next command");
    vp::ensures(a.getCommandPattern(CmdType::ACT, c) == b.getCommandPattern(CmdType::ACT, c), "and the one after");
}
