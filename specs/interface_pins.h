// C22: what a command does to the pins. The interface is compared with its parts used on their own: a command bus loaded with the
// command's word, the data bus of the right side loaded with the (possibly inverted) data, strobes and write clock running for the burst.
#include "interface.h"
static void same(const stats& a, const stats& b) {
    vp::ensures(a.ones == b.ones, "ones");
    vp::ensures(a.zeroes == b.zeroes, "zeroes");
    vp::ensures(a.bit_changes == b.bit_changes, "bit changes");
    vp::ensures(a.ones_to_zeroes == b.ones_to_zeroes, "falling edges");
    vp::ensures(a.zeroes_to_ones == b.zeroes_to_ones, "rising edges");
}
using Idle = DRAMUtils::Config::TogglingRateIdlePattern;
using Level = util::BusIdlePatternSpec;
#if defined VP_DDR4 || defined VP_DDR5
constexpr Idle DATA_IDLE = Idle::H; constexpr Level CA_IDLE = Level::H;
#else
constexpr Idle DATA_IDLE = Idle::L; constexpr Level CA_IDLE = Level::L;
#endif
#if defined VP_DDR4
constexpr std::size_t CA = 27, CA_RATE = 1, PINS = 8, BURST = 8; constexpr bool DBI_LOW = true;
#elif defined VP_DDR5
constexpr std::size_t CA = 14, CA_RATE = 1, PINS = 8, BURST = 16;
#elif defined VP_LPDDR4
constexpr std::size_t CA = 6, CA_RATE = 1, PINS = 8, BURST = 16; constexpr bool DBI_LOW = false;
#elif defined VP_LPDDR5
constexpr std::size_t CA = 7, CA_RATE = 2, PINS = 8, BURST = 16; constexpr bool DBI_LOW = false;
#else
constexpr std::size_t CA = 4, CA_RATE = 2, PINS = 12, BURST = 24;
#endif
#if defined VP_LPDDR5 || defined VP_LPDDR6
#define VP_WCK
#endif
#if defined VP_DDR4 || defined VP_LPDDR4 || defined VP_LPDDR5
#define VP_DBI_PINS
#endif
#ifdef VP_LPDDR6
constexpr std::size_t BITS = 256;       // what a burst carries besides metadata and inversion flags
#else
constexpr std::size_t BITS = PINS * BURST;
#endif
template <std::size_t N> static void same_bus(const util::Bus<N>& a, const util::Bus<N>& b) {
    vp::ensures(a.width == b.width && a.datarate == b.datarate && a.enableflag == b.enableflag, "width, rate, enabled");
    vp::ensures(a.idle_pattern_burst == b.idle_pattern_burst, "idle level");
    same(a.stats, b.stats);
    vp::ensures(a.last_load == b.last_load, "time of the burst");
    vp::ensures(a.pending_stats.isPending() == b.pending_stats.isPending(), "pending transition");
    vp::ensures(!b.pending_stats.isPending() || a.pending_stats.getTimestamp() == b.pending_stats.getTimestamp(), "time of the pending transition");
    if (b.pending_stats.isPending()) same(a.pending_stats.getStats(), b.pending_stats.getStats());
    vp::ensures(a.burst_storage.size() == b.burst_storage.size(), "length of the burst");
    for (std::size_t k = 0; k < b.burst_storage.size(); ++k) vp::ensures(a.burst_storage.get_burst(k) == b.burst_storage.get_burst(k), "beat");
    vp::ensures(a.last_pattern == b.last_pattern, "last beat");
}
static void same_toggling(const TogglingHandle& a, const TogglingHandle& b) {
    vp::ensures(a.width == b.width && a.datarate == b.datarate && a.enableflag == b.enableflag && a.idlepattern == b.idlepattern, "toggling bus");
    vp::ensures(a.toggling_rate == b.toggling_rate && a.duty_cycle == b.duty_cycle, "toggling rate");
    vp::ensures(a.count == b.count && a.last_burst.handled == b.last_burst.handled, "toggling bursts");
    vp::ensures(a.last_burst.handled || (a.last_burst.last_length == b.last_burst.last_length && a.last_burst.last_load == b.last_burst.last_load), "last toggling burst");
    vp::ensures(a.disable_time == b.disable_time && a.disable_timestamp == b.disable_timestamp, "pauses");
}
static void same_clock(const util::Clock& a, const util::Clock& b) {
    vp::ensures(a.dataRate == b.dataRate && a.last_start.has_value() == b.last_start.has_value(), "clock");
    vp::ensures(!b.last_start.has_value() || *a.last_start == *b.last_start, "start of the clock");
    vp::ensures(a.stats.ones == b.stats.ones && a.stats.zeroes == b.stats.zeroes && a.stats.bit_changes == b.stats.bit_changes && a.stats.ones_to_zeroes == b.stats.ones_to_zeroes && a.stats.zeroes_to_ones == b.stats.zeroes_to_ones, "cycles of the clock");
}
#ifdef VP_DBI_PINS
template <class P> static void same_pin(const P& a, const P& b) {
    vp::ensures(a.m_idle_state == b.m_idle_state && a.m_last_state == b.m_last_state && a.m_last_set == b.m_last_set && a.m_init_load == b.m_init_load, "pin");
    vp::ensures(a.m_burst_storage.size() == b.m_burst_storage.size() && a.m_burst_storage.endTime() == b.m_burst_storage.endTime(), "burst of the pin");
    for (std::size_t k = 0; k < b.m_burst_storage.size(); ++k) vp::ensures(a.m_burst_storage.get_burst(k) == b.m_burst_storage.get_burst(k), "bit of the pin");
    vp::ensures(a.m_pending_stats.isPending() == b.m_pending_stats.isPending() && (!b.m_pending_stats.isPending() || a.m_pending_stats.getTimestamp() == b.m_pending_stats.getTimestamp()), "pending bit");
    same(a.m_stats, b.m_stats);
}
#endif
struct Setup {
    Std::Raw raw; Std::Spec spec; config::SimConfig config;
    static Std::Raw describe(uint64_t rate, uint64_t width, bool always) {
        auto w = description();
        w.memarchitecturespec.dataRate = rate; w.memarchitecturespec.width = width; w.memarchitecturespec.burstLength = BURST;
#ifdef VP_WCK
        w.memtimingspec.WCK2CK = 2; w.memarchitecturespec.WCKalwaysOn = always;
#endif
        return w;
    }
    explicit Setup(uint64_t rate, uint64_t width, bool toggling, bool always) : raw(describe(rate, width, always)), spec(raw) {
        if (toggling) {
            DRAMUtils::Config::ToggleRateDefinition d;
            d.togglingRateRead = vp::real_in(0, 1, "rate r"); d.togglingRateWrite = vp::real_in(0, 1, "rate w");
            d.dutyCycleRead = vp::real_in(0, 1, "duty r"); d.dutyCycleWrite = vp::real_in(0, 1, "duty w");
            d.idlePatternRead = Idle::H; d.idlePatternWrite = Idle::L;
            config.toggleRateDefinition = d;
        }
    }
    util::DataBusConfig data() const {
        return util::DataBusConfig{raw.memarchitecturespec.width, raw.memarchitecturespec.dataRate, config.toggleRateDefinition.value_or(DRAMUtils::Config::ToggleRateDefinition{0, 0, 0, 0, DATA_IDLE, DATA_IDLE})};
    }
};
struct Parts {
    uint64_t rate, width;
    util::Bus<CA> command;
    util::DataBus<64> data;
    util::Clock clock, readDQS, writeDQS;
#ifdef VP_WCK
    bool always;
    util::Clock wck;
#endif
#ifdef VP_DBI_PINS
    decltype(Std::Interface::m_dbi) dbi;
    std::vector<Std::Interface::pin_dbi_t> readDBI, writeDBI;
#endif
    decltype(Std::Interface::m_patternHandler) words;
#ifdef VP_LPDDR6
    decltype(Std::Interface::m_dbi) dbi{std::nullopt, BURST, nullptr, false};
    LPDDR6Interface::DataFormatter formatter;
#endif

    Parts(const Setup& s, const Std::Interface& i)
        : rate(s.raw.memarchitecturespec.dataRate), width(s.raw.memarchitecturespec.width)
        , command(CA, CA_RATE, CA_IDLE)
        , data(s.data(), s.config.toggleRateDefinition.has_value() ? util::DataBusMode::TogglingRate : util::DataBusMode::Bus)
        , clock(2, false)
#ifdef VP_DDR5
        , readDQS(s.spec.dataRateSpec.dqsBusRate, true), writeDQS(s.spec.dataRateSpec.dqsBusRate, true)
#else
        , readDQS(rate, true), writeDQS(rate, true)
#endif
#ifdef VP_WCK
        , always(s.raw.memarchitecturespec.WCKalwaysOn), wck(rate / 2, !always)
#endif
#ifdef VP_DBI_PINS
        , dbi(width, BURST, [this](timestamp_t load, timestamp_t, std::size_t pin, bool inverted, bool read) {
            (read ? readDBI : writeDBI)[pin].set(load, inverted != DBI_LOW ? util::PinState::H : util::PinState::L, 1);
        }, false)
        , readDBI(width / 8, Std::Interface::pin_dbi_t{DBI_LOW ? util::PinState::H : util::PinState::L, DBI_LOW ? util::PinState::H : util::PinState::L})
        , writeDBI(readDBI)
#endif
        , words(i.m_patternHandler) {}

    void word(timestamp_t t, CmdType c, const TargetCoordinate& x) {
        const std::size_t beats = words.getPattern(c).size() / CA;
        command.load(t, words.getCommandPattern(c, x), beats);
    }
    void strobes(timestamp_t t, bool read, uint64_t length) {
        const timestamp_t end = t + length / rate;
        if (read) { readDQS.start(t); readDQS.stop(end); } else { writeDQS.start(t); writeDQS.stop(end); }
#ifdef VP_WCK
        if (!always) { wck.start(t); wck.stop(end); }
#endif
    }
    void transfer(timestamp_t t, bool read, const uint8_t* d, std::size_t n) { if (read) data.loadRead(t, n, d); else data.loadWrite(t, n, d); }
    void same_as(const Std::Interface& i) const {
        same_bus(i.m_commandBus, command);
        std::visit([&](const auto& bus) {
            if constexpr (std::is_same_v<std::decay_t<decltype(bus)>, util::DataBus<64>>) {
                same_bus(bus.busRead, data.busRead); same_bus(bus.busWrite, data.busWrite);
                same_toggling(bus.togglingHandleRead, data.togglingHandleRead); same_toggling(bus.togglingHandleWrite, data.togglingHandleWrite);
                vp::ensures(bus.busType == data.busType && bus.width == data.width && bus.dataRate == data.dataRate, "data bus");
            } else vp::ensures(false, "data bus for up to 64 pins");
        }, i.m_dataBus.m_dataBusContainer.getVariant());
        same_clock(i.m_clock, clock); same_clock(i.m_readDQS, readDQS);
#ifdef VP_WCK
        same_clock(i.m_wck, wck);
#else
        same_clock(i.m_writeDQS, writeDQS);
#endif
#ifdef VP_DBI_PINS
        vp::ensures(i.m_dbiread.size() == readDBI.size() && i.m_dbiwrite.size() == writeDBI.size(), "one inversion pin per byte");
        for (std::size_t k = 0; k < readDBI.size(); ++k) { same_pin(i.m_dbiread[k], readDBI[k]); same_pin(i.m_dbiwrite[k], writeDBI[k]); }
#endif
    }
    void reported(const Std::Interface& i, timestamp_t t) const {
        SimulationStats s;
        i.getWindowStats(t, s);
        stats r, w, tr, tw;
        data.get_stats(t, r, w, tr, tw);
        same(s.commandBus, command.get_stats(t));
        same(s.readBus, r); same(s.writeBus, w); same(s.togglingStats.read, tr); same(s.togglingStats.write, tw);
        const uint64_t lines = (width == 16) ? 4 : 2;      // two lines per differential pair; two pairs on a x16 device
        (void)lines;
        same(s.clockStats, uint64_t(2) * clock.get_stats_at(t));
#ifdef VP_WCK
        same(s.readDQSStats, uint64_t(2) * readDQS.get_stats_at(t));
        same(s.wClockStats, uint64_t(2) * wck.get_stats_at(t));
        same(s.writeDQSStats, stats{});
#else
        same(s.readDQSStats, lines * readDQS.get_stats_at(t));
        same(s.writeDQSStats, lines * writeDQS.get_stats_at(t));
        same(s.wClockStats, stats{});
#endif
        stats a, b;
#ifdef VP_DBI_PINS
        for (const auto& q : readDBI) a += q.get_stats_at(t, rate);
        for (const auto& q : writeDBI) b += q.get_stats_at(t, rate);
#endif
        same(s.readDBI, a); same(s.writeDBI, b);
    }
};
// the column address pins a burst of this length leaves to the burst order
static void columns(Parts& p, std::size_t length, bool read) {
#if defined VP_DDR4
    using namespace pattern_descriptor;
    const auto order = read ? PatternEncoderBitSpec::L : PatternEncoderBitSpec::H;
    p.words.getEncoder().settings.updateSettings({{C0, order}, {C1, order}, {C2, length == 4 ? PatternEncoderBitSpec::L : order}});
#elif defined VP_DDR5
    using namespace pattern_descriptor;
    p.words.getEncoder().settings.updateSettings({{C2, read ? PatternEncoderBitSpec::L : PatternEncoderBitSpec::H}, {C3, read || length == 8 ? PatternEncoderBitSpec::L : PatternEncoderBitSpec::H}});
    if (length == 32) p.words.getEncoder().settings.updateSettings({{C10, PatternEncoderBitSpec::L}}); else p.words.getEncoder().settings.removeSetting(C10);
#elif defined VP_LPDDR4
    using namespace pattern_descriptor;
    p.words.getEncoder().settings.updateSettings({{C2, PatternEncoderBitSpec::L}, {C3, PatternEncoderBitSpec::L}, {BL, length == 32 ? PatternEncoderBitSpec::H : PatternEncoderBitSpec::L}});
    if (length == 32) p.words.getEncoder().settings.updateSettings({{C4, PatternEncoderBitSpec::L}}); else p.words.getEncoder().settings.removeSetting(C4);
#elif defined VP_LPDDR5
    using namespace pattern_descriptor;
    if (length == 32) p.words.getEncoder().settings.updateSettings({{C0, PatternEncoderBitSpec::L}}); else p.words.getEncoder().settings.removeSetting(C0);
#else
    p.words.getEncoder().getExtraData().currentBurstLength = length;
#endif
}
static TargetCoordinate somewhere() {
#ifdef VP_LPDDR6
    return TargetCoordinate(2 * vp::any_in(0, 7, "bank"), vp::any_in(0, 3, "group"), 0, vp::any_in(0, 0xffffff, "row"), vp::any_in(0, 0xffffff, "column"));
#else
    return TargetCoordinate(vp::any_in(0, 63, "bank"), vp::any_in(0, 7, "group"), 0, vp::any_in(0, 0xffffff, "row"), vp::any_in(0, 0xffffff, "column"));
#endif
}
static bool reads(CmdType c) { return c == CmdType::RD || c == CmdType::RDA; }
static void access(Std::Interface& i, Parts& p, timestamp_t t, CmdType c, const uint8_t* d, std::size_t n) {
    const auto x = somewhere();
    i.doCommand(Std::Cmd(t, c, x, d, n));
    const uint8_t* sent = d;
#ifdef VP_DBI_PINS
    if (p.dbi.isEnabled()) sent = p.dbi.updateDBI(t * p.rate, n, d, reads(c)).value();
#endif
#ifdef VP_LPDDR6
    // data, metadata and inversion flags share the pins
    if (p.dbi.isEnabled()) {
        sent = p.dbi.updateDBI(t * p.rate, n, d, reads(c)).value();
        const auto [q, m] = p.formatter.formatData(sent, n, reads(c) ? p.dbi.getInversionStateRead() : p.dbi.getInversionStateWrite());
        sent = q; n = m;
    } else {
        const auto [q, m] = p.formatter.formatData(sent, n, std::nullopt);
        sent = q; n = m;
    }
#endif
    p.transfer(t, reads(c), sent, n);
    p.strobes(t, reads(c), n / p.width);
    columns(p, n / p.width, reads(c));
    p.word(t, c, x);
}
// a transfer, whatever the encoder was told for an earlier one of another length
static void transfer(CmdType c, uint64_t rate, std::size_t width, uint64_t length, uint64_t earlier, bool dbi, bool always) {
    const Setup s(rate, width, false, always);
    Std::Interface i(s.spec, s.config);
    Parts p(s, i);
#ifdef VP_DBI_PINS
    i.enableDBI(dbi); p.dbi.enable(dbi);
#endif
#ifdef VP_LPDDR6
    i.enableDBI(dbi); p.dbi.enable(dbi);
    i.setMetaData(vp::any<uint16_t>("meta"), vp::any<uint16_t>("meta")); p.formatter.m_metaData = i.m_formatter.m_metaData;
    const std::size_t n = length * 32 / 3; (void)earlier;
#else
    i.handleOverrides(earlier, !reads(c)); columns(p, earlier, !reads(c));
    const std::size_t n = length * width;
#endif
    uint8_t d[64] = {};
    for (std::size_t k = 0; k < n / 8; ++k) if (!dbi || k % 8 < 2) d[k] = vp::any<uint8_t>("d");
    const timestamp_t t = vp::any_in(1, LATE, "t");
    access(i, p, t, c, d, n);
    vp::ensures(i.getLastCommandTime() == t, "time of the last command");
    p.same_as(i);
}
#ifdef VP_DDR5
constexpr uint64_t LENGTHS[] = {8, 16, 32};
#elif defined VP_DDR4
constexpr uint64_t LENGTHS[] = {4, 8};
#elif defined VP_LPDDR6
constexpr uint64_t LENGTHS[] = {24, 48};
#else
constexpr uint64_t LENGTHS[] = {16, 32};
#endif
static bool always_on() {        // whether the write clock runs all the time
#ifdef VP_WCK
    return vp::cases(vp::any<bool>("always on"));
#else
    return false;
#endif
}
static void transfers(CmdType c) {
    const bool always = always_on();
    for (uint64_t l : LENGTHS) {
        transfer(c, 2, PINS, l, LENGTHS[1], false, always);
#ifndef VP_LPDDR6
        transfer(c, 2, PINS, l, LENGTHS[0], false, always);
#endif
    }
}
void vp_lemma_read() { transfers(CmdType::RD); }
void vp_lemma_read_with_precharge() { transfers(CmdType::RDA); }
void vp_lemma_write() { transfers(CmdType::WR); }
void vp_lemma_write_with_precharge() { transfers(CmdType::WRA); }
#ifndef VP_LPDDR6
void vp_lemma_read_wide() { transfer(CmdType::RD, 2, 16, LENGTHS[1], LENGTHS[0], false, always_on()); }
void vp_lemma_write_wide() { transfer(CmdType::WR, 2, 16, LENGTHS[1], LENGTHS[0], false, always_on()); }
#endif
void vp_lemma_read_fast() { transfer(CmdType::RD, 4, PINS, LENGTHS[0], LENGTHS[1], false, always_on()); }
void vp_lemma_write_fast() { transfer(CmdType::WR, 4, PINS, LENGTHS[0], LENGTHS[1], false, always_on()); }
#ifdef VP_DBI_PINS
void vp_lemma_read_inverted() { transfer(CmdType::RD, 2, 16, LENGTHS[0], LENGTHS[1], true, always_on()); }
void vp_lemma_write_inverted() { transfer(CmdType::WR, 2, 16, LENGTHS[0], LENGTHS[1], true, always_on()); }
#elif defined VP_LPDDR6
void vp_lemma_read_inverted() { transfer(CmdType::RD, 2, PINS, 24, 24, true, always_on()); }
void vp_lemma_write_inverted() { transfer(CmdType::WR, 2, PINS, 24, 24, true, always_on()); }
// Where every bit of a burst goes: four pins carry metadata in beats 8 to 11 and inversion flags in beats 20 to 23, every other place
// carries data, four consecutive bits on one pin in four consecutive beats.
static void format(std::size_t bursts, bool flags) {
    LPDDR6Interface::DataFormatter f;
    uint8_t d[64];
    for (std::size_t k = 0; k < 32 * bursts; ++k) d[k] = vp::any<uint8_t>("d");
    f.m_metaData = {vp::any<uint16_t>("meta"), vp::any<uint16_t>("meta")};
    std::vector<bool> inversion;
    if (flags) for (std::size_t k = 0; k < 16 * bursts; ++k) inversion.push_back(vp::any<bool>("inverted"));
    const auto [out, bits] = f.formatData(d, 256 * bursts, flags ? std::make_optional(std::cref(inversion)) : std::nullopt);
    vp::ensures(bits == 288 * bursts, "number of bits on the pins");
    static const std::size_t BASE[] = {0, 48, 96, 128, 176, 224};
    for (std::size_t b = 0; b < bursts; ++b) for (std::size_t beat = 0; beat < 24; ++beat) {
        std::size_t k = 0;
        for (std::size_t pin = 0; pin < 12; ++pin) {
            const bool special = pin == 4 || pin == 5 || pin == 10 || pin == 11;
            const std::size_t flag = 4 * (pin % 2 + (pin > 5 ? 2 : 0)) + beat % 4;
            bool expected;
            if (special && beat / 4 == 2) expected = (f.m_metaData[b] >> flag) & 1;
            else if (special && beat / 4 == 5) expected = flags && inversion[16 * b + flag];
            else { const std::size_t bit = 256 * b + BASE[beat / 4] + 4 * k++ + beat % 4; expected = (d[bit / 8] >> (bit % 8)) & 1; }
            const std::size_t at = 288 * bursts - 1 - (288 * b + 12 * beat + pin);
            vp::ensures(((out[at / 8] >> (at % 8)) & 1) == expected, "bit on its pin in its beat");
        }
    }
}
void vp_lemma_format_one() { format(1, false); }
void vp_lemma_format_one_inverted() { format(1, true); }
void vp_lemma_format_two() { format(2, false); }
void vp_lemma_format_two_inverted() { format(2, true); }
#endif
// every other command drives its word and nothing else
void vp_lemma_other_commands() {
    const Setup s(2, PINS, false, always_on());
    Std::Interface i(s.spec, s.config);
    Parts p(s, i);
    const util::Bus<CA> idle(CA, CA_RATE, CA_IDLE);
    for (CmdType c : COMMANDS) {
        i.m_commandBus = idle; p.command = idle;
        const timestamp_t t = vp::any_in(0, LATE, "t");
        const auto x = somewhere();
        i.doCommand(Std::Cmd(t, c, x));
        if (drives_bus(c)) p.word(t, c, x);
        vp::ensures(i.getLastCommandTime() == t, "time of the last command");
        same_bus(i.m_commandBus, p.command);
    }
    p.command = i.m_commandBus;
    p.same_as(i);
}
// what is reported under which name
void vp_lemma_reported() {
    for (int k = 0; k < 3; ++k) {
        const Setup s(k == 1 ? 4 : 2, k == 2 ? 16 : 8, false, k == 0);
        Std::Interface i(s.spec, s.config);
        Parts p(s, i);
        const timestamp_t t = vp::any_in(0, LATE, "t");
        vp::cases(t == 0);
        i.m_commandBus.stats = vp::any<stats>("command"); 
        std::visit([&](auto& bus) {
            if constexpr (std::is_same_v<std::decay_t<decltype(bus)>, util::DataBus<64>>) {
                bus.busRead.stats = vp::any<stats>("r"); bus.busWrite.stats = vp::any<stats>("w");
                p.data.busRead.stats = bus.busRead.stats; p.data.busWrite.stats = bus.busWrite.stats;
            }
        }, i.m_dataBus.m_dataBusContainer.getVariant());
        i.m_clock.stats = vp::any<util::Clock::clock_stats_t>("clock"); i.m_readDQS.stats = vp::any<util::Clock::clock_stats_t>("rdqs");
        p.clock.stats = i.m_clock.stats; p.readDQS.stats = i.m_readDQS.stats; p.command.stats = i.m_commandBus.stats;
#ifdef VP_WCK
        i.m_wck.stats = vp::any<util::Clock::clock_stats_t>("wck"); p.wck.stats = i.m_wck.stats;
#else
        i.m_writeDQS.stats = vp::any<util::Clock::clock_stats_t>("wdqs"); p.writeDQS.stats = i.m_writeDQS.stats;
#endif
#ifdef VP_DBI_PINS
        for (auto& q : i.m_dbiread) q.set(0, util::PinState::H, 1);
        for (auto& q : i.m_dbiwrite) q.set(0, util::PinState::L, 1);
        for (auto& q : p.readDBI) q.set(0, util::PinState::H, 1);
        for (auto& q : p.writeDBI) q.set(0, util::PinState::L, 1);
#endif
        p.reported(i, t);
    }
}
// without data the toggling-rate bus counts a burst of the length of the memory, and strobes run as long
static void toggling(CmdType c, uint64_t rate, std::size_t width) {
    const Setup s(rate, width, true, always_on());
    Std::Interface i(s.spec, s.config);
    Parts p(s, i);
    const auto x = somewhere();
    const timestamp_t t = vp::any_in(1, LATE, "t");
    i.doCommand(Std::Cmd(t, c, x));
    p.transfer(t, reads(c), nullptr, BURST * width);
    p.strobes(t, reads(c), BURST);
    columns(p, BURST, reads(c));
    p.word(t, c, x);
    p.same_as(i);
}
void vp_lemma_toggling_read() { toggling(CmdType::RD, 2, PINS); }
void vp_lemma_toggling_write() { toggling(CmdType::WR, 2, PINS); }
void vp_lemma_toggling_read_with_precharge() { toggling(CmdType::RDA, 4, PINS); }
void vp_lemma_toggling_write_with_precharge() { toggling(CmdType::WRA, 4, PINS); }
#ifdef VP_DDR4
// a transfer is seamless exactly if it starts where the last one of its kind ended
void vp_lemma_seamless() {
    const Setup s(2, 8, false, false);
    Std::Interface i(s.spec, s.config);
    auto& rank = i.m_ranks[0];
    const bool read = vp::cases(vp::any<bool>("read"));
    const timestamp_t t = vp::any_in(1, LATE, "t");
    rank.lastReadEnd = vp::any_in(0, read ? t : 2 * LATE, "end of the last read");
    rank.lastWriteEnd = vp::any_in(0, read ? 2 * LATE : t, "end of the last write");
    rank.seamlessPrePostambleCounter_read = vp::any_in(0, LATE, "seamless reads"); rank.seamlessPrePostambleCounter_write = vp::any_in(0, LATE, "seamless writes");
    vp::cases((read ? rank.lastReadEnd : rank.lastWriteEnd) == t);
    const RankInterface before = rank;
    const uint8_t d[8] = {};
    i.doCommand(Std::Cmd(t, read ? CmdType::RD : CmdType::WR, somewhere(), d, 64));
    vp::ensures(rank.lastReadEnd == (read ? t + 4 : before.lastReadEnd), "end of the last read");
    vp::ensures(rank.lastWriteEnd == (read ? before.lastWriteEnd : t + 4), "end of the last write");
    vp::ensures(rank.seamlessPrePostambleCounter_read == before.seamlessPrePostambleCounter_read + ((read && before.lastReadEnd == t) ? 1 : 0), "seamless reads");
    vp::ensures(rank.seamlessPrePostambleCounter_write == before.seamlessPrePostambleCounter_write + ((!read && before.lastWriteEnd == t) ? 1 : 0), "seamless writes");
    SimulationStats w;
    i.getWindowStats(t, w);
    vp::ensures(w.rank_total.size() == 1 && w.rank_total[0].prepos.readSeamless == rank.seamlessPrePostambleCounter_read && w.rank_total[0].prepos.writeSeamless == rank.seamlessPrePostambleCounter_write, "seamless transfers reported");
}
#endif
