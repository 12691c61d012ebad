D = 'src/DRAMPower/DRAMPower/'
P = [
dict(id='C01', title='Interval counters report exactly the time spent in the intervals',
  statement='A time-in-state counter reports, at any moment, the summed lengths of all intervals that were started and closed plus the elapsed part of an interval that is still open, and nothing else. Closing a counter that is not open, or closing it twice, changes nothing; starting one that is already running with the conditional start leaves the running interval alone. Copying or saving and restoring a counter preserves what it reports.',
  over=['inputs', 'histories'], all='all start/close/reset/add histories and all 64-bit timestamps with close >= start, including any number of intervals',
  why='test_interval.cpp runs five fixed sequences with a handful of timestamps; the property is over every history and every timestamp.',
  files=[D + 'util/cycle_stats.h'], mech=[('interval_counter', D + 'util/cycle_stats.h')],
  note='Every state reachable through the public interface, one transition at a time, plus an unbounded history lemma (invariant over any number of intervals).'),
dict(id='C02', title='A dynamic bit sequence behaves as an array of independent bits',
  statement='Every operation on a runtime-sized bit sequence (construction, set, reset, flip, indexing, assignment through a reference, and/or/xor/complement, comparison, counting, any/all/none, append, resize, clear, conversion to a number) has exactly the meaning it has on an array of bits of that length. Two sequences compare equal exactly when they have the same length and the same bits, whatever operations produced them. Out-of-range accesses through the checked interface throw and change nothing.',
  over=['inputs', 'histories'], all='all lengths, all bit contents, all indices, and several block sizes, for every operation from every representation state that satisfies the invariant the operations preserve',
  why='test_dynamic_bitset.cpp checks a few lengths around block boundaries; a wrong mask or carry only shows for particular length/content combinations.',
  files=[D + 'util/dynamic_bitset.h'], mech=[('dynamic_bitset', D + 'util/dynamic_bitset.h')],
  note='Unbounded in length for the operations proved against the representation invariant; the public-interface companion lemmas are at fixed lengths with arbitrary bits and are labelled bounded.'),
dict(id='C03', title='A width-limited bit sequence behaves as an array of independent bits',
  statement='Every operation on a fixed-capacity, variable-width bit sequence has exactly the meaning it has on an array of bits of the current width, and two such sequences compare equal exactly when widths and bits agree. Accesses outside the current width are rejected and change nothing.',
  over=['inputs', 'histories'], all='all widths up to the capacity, all bit contents, all indices, for several capacities',
  why='No existing test exercises this class at all.',
  files=[D + 'util/sub_bitset.h'], mech=[('sub_bitset', D + 'util/sub_bitset.h')],
  note='All widths and contents symbolically, for the listed compile-time capacities.'),
dict(id='C04', title='Command names, classification and conversion are faithful',
  statement='Every command has exactly one trace spelling; reading that spelling yields the command back and anything else is read as the no-operation command. Exactly the column read and write commands (with or without auto-precharge) are classified as carrying data. Constructing and converting commands, including to the LPDDR6 form, preserves timestamp, type, coordinates, data and burst length.',
  over=['inputs'], all='every command type, every string, every timestamp, coordinate and payload size',
  why='The stable tests do not exercise the name tables or the conversion; one swapped table row is invisible to them.',
  files=[D + 'command/CmdType.h', D + 'command/Command.cpp', D + 'command/Command.h', D + 'standards/lpddr6/LPDDR6Command.cpp'],
  mech=[('CmdTypeUtil', D + 'command/CmdType.h'), ('Command', D + 'command/Command.cpp'), ('LPDDR6Command', D + 'standards/lpddr6/LPDDR6Command.cpp')],
  note='Finite tables are decided completely; strings are arbitrary.'),
dict(id='C05', title='Each command-bus pin carries the bit its pattern descriptor names',
  statement='Encoding a command through a pattern yields a word in which each pin carries exactly the level its descriptor names (fixed levels, opcode, bank, bank group, row or column address bit), first descriptor most significant. Descriptors with an override take the overridden level, removing the override restores the default, and other descriptors are unaffected. No bit outside the pattern is driven.',
  over=['inputs', 'configurations'], all='every pattern of up to 64 descriptors, all coordinates, every override table and every previous bus word',
  why='No stable test reaches the encoder; existing interface tests check a few commands of a few patterns with fixed coordinates.',
  files=[D + 'command/Pattern.cpp', D + 'command/Pattern.h'], mech=[('DefaultEncoder::encode', D + 'command/Pattern.cpp'), ('PatternEncoderOverrides', D + 'command/Pattern.h')],
  note='Loop over the pattern summarised for every length up to 64; any descriptor.'),
dict(id='C06', title='Each LPDDR6 command-bus pin carries the bit its pattern descriptor names',
  statement='Encoding an LPDDR6 command yields a word in which each pin carries the level its descriptor names: address, bank, bank-group, derived dynamic-bank and sub-channel bits, the burst-length pin and the burst-length dependent lowest column bit. With parity checking the parity pin makes the number of high pins even; without it the pin stays low. No bit outside the pattern is driven.',
  over=['inputs', 'configurations'], all='every pattern of 3 to 64 descriptors, all coordinates, both burst lengths, bank-group counts and parity modes',
  why='No stable test reaches the LPDDR6 encoder.',
  files=[D + 'standards/lpddr6/LPDDR6Pattern.cpp', D + 'standards/lpddr6/LPDDR6Pattern.h'], mech=[('LPDDR6Encoder::encode', D + 'standards/lpddr6/LPDDR6Pattern.cpp')],
  note='Pin levels for every pattern length up to 64; parity is decided for 16- and 32-descriptor patterns (the registered lengths) with arbitrary descriptors.'),
dict(id='C07', title='Commands reach exactly their own pattern and handler',
  statement='A command registered with a pattern is encoded with exactly that pattern, its own coordinate, the current overrides and the word sent before; re-registering replaces only that command; a command without pattern is rejected and leaves the history unchanged; copies continue independently. A dispatched command runs exactly one handler: its own if registered, otherwise the default, and that handler sees the command unchanged.',
  over=['inputs', 'histories'], all='every command type, coordinate, pattern and previous word, over a history of registrations and encodings',
  why='No stable test reaches the pattern or dispatch tables.',
  files=[D + 'util/PatternHandler.h', D + 'util/Router.h'], mech=[('PatternHandler', D + 'util/PatternHandler.h'), ('Router', D + 'util/Router.h')],
  note='The history is a fixed sequence of operations with arbitrary arguments; command types are decided completely.'),
dict(id='C08', title='Deferred commands run exactly once, when due, in time order',
  statement='A deferred command is executed exactly once, at the first processing whose time is not before its due time, never earlier, and remains pending until then. Commands run in order of due time, and commands due at the same time run in the order they were added. Processing reports the time of the last executed command and leaves the report alone if nothing was due.',
  over=['histories', 'inputs'], all='any number of pending commands with arbitrary 64-bit due times, deferred in any order and processed at any time, for both handler kinds',
  why='No stable test exercises the deferral queue.',
  files=[D + 'util/ImplicitCommandHandler.h'], mech=[('ImplicitCommandHandler', D + 'util/ImplicitCommandHandler.h')],
  note='Any number of pending commands: insertion and processing preserve a sorted-queue invariant and run exactly the due prefix; plus three-command histories through the public interface.'),
dict(id='C09', title='Data bus inversion inverts exactly when it helps and reports every inversion',
  statement='Each chunk of a data burst is transmitted inverted exactly when more than half of its bits differ from the idle level of its DBI pin, and unchanged otherwise; nothing outside the chunk changes. The DBI pins toggle exactly when the inversion decision of a chunk differs from the level the pin carries, return to idle at the burst end when no burst follows seamlessly, and read and write state do not influence each other. Disabled DBI changes nothing.',
  over=['inputs', 'histories'], all='all data contents, idle levels and timestamps; fixed small bus widths and burst lengths',
  why='Tests check a few fixed bursts; a wrong majority threshold or a lost pin state only shows for particular contents and burst sequences.',
  files=[D + 'util/dbi.h', D + 'util/dbihelpers.h', D + 'util/dbialgos.h', D + 'util/dbitypes.h'],
  mech=[('DBI', D + 'util/dbi.h'), ('SubChunkView', D + 'util/dbihelpers.h'), ('StaticDBI', D + 'util/dbialgos.h')],
  note='Chunk and subchunk iteration is decided for fixed geometries with arbitrary contents (labelled bounded); thresholds for all counts.'),
dict(id='C10', title='Every bank and rank is accounted active exactly while it is',
  statement='For every supported memory standard, the statistics at any time show for every bank exactly the time it has been active (from its activation to its precharge), the rest as precharged, a rank as active exactly while one of its banks is, and each activation, precharge, read and write counted once on exactly the bank addressed. An auto-precharge takes effect at the later of the minimum active time and the read/write-to-precharge time; redundant precharges change nothing. No other bank or rank is affected.',
  over=['inputs', 'histories'], all='all timings, command times, query times and prior histories (arbitrary reachable state)',
  why='Tests replay a few fixed command traces with one timing set; a wrong offset, a wrong bank or a missed close only shows for particular times, states and timings.',
  files=[D + 'standards/ddr4/DDR4Core.cpp', D + 'standards/ddr5/DDR5Core.cpp', D + 'standards/lpddr4/LPDDR4Core.cpp', D + 'standards/lpddr5/LPDDR5Core.cpp', D + 'standards/lpddr6/LPDDR6Core.cpp', D + 'dram/Rank.cpp', D + 'util/ImplicitCommandHandler.h', D + 'util/cycle_stats.h'],
  mech=[('doCommand and handlers', D + 'standards/ddr4/DDR4Core.cpp'), ('ImplicitCommandHandler', D + 'util/ImplicitCommandHandler.h'), ('getWindowStats', D + 'standards/lpddr5/LPDDR5Core.cpp')],
  note='For all five standards, with a fixed number of ranks and banks (2 ranks of 3 or 4 banks; where it matters also 16) but arbitrary timings, arbitrary reachable state (so: after any history) and arbitrary command times; the fixed geometry is why the evidence labels these lemmas bounded.'),
dict(id='C11', title='A refresh keeps exactly its banks busy for exactly its refresh time',
  statement='An all-bank, per-bank, same-bank, two-bank or dual-bank refresh makes exactly the banks it names active from the command until the refresh time that the standard and the selected refresh mode define, counts one refresh on each of them, and leaves them precharged and usable afterwards. All other banks keep their state; the rank stays active as long as any bank or the refresh needs it.',
  over=['inputs', 'histories'], all='all timings, command times, query times, refresh modes and prior histories',
  why="Tests use one refresh at one time per standard; overlaps with other banks' activity, queries in the middle of a refresh and the bank sets of the grouped refreshes are not covered.",
  files=[D + 'standards/ddr4/DDR4Core.cpp', D + 'standards/ddr5/DDR5Core.cpp', D + 'standards/lpddr4/LPDDR4Core.cpp', D + 'standards/lpddr5/LPDDR5Core.cpp', D + 'standards/lpddr6/LPDDR6Core.cpp', D + 'dram/Rank.cpp', D + 'util/ImplicitCommandHandler.h', D + 'util/cycle_stats.h'],
  mech=[('handleRefAll and relatives', D + 'standards/ddr5/DDR5Core.cpp'), ('handleRefreshOnBank', D + 'standards/lpddr5/LPDDR5Core.cpp')],
  note='For all five standards, with a fixed number of ranks and banks (2 ranks of 3 or 4 banks; where it matters also 16) but arbitrary timings, arbitrary reachable state (so: after any history) and arbitrary command times; the fixed geometry is why the evidence labels these lemmas bounded.'),
dict(id='C12', title='Power-down lasts from the earliest legal entry to the exit',
  statement='A power-down entered by command begins at the command or, if later, when the last activation, precharge and refresh of the rank have settled, and ends at the exit command or, if later, when the exit is legal; exactly that time is accounted as active (respectively precharge) power-down and not as active or precharged time. Afterwards exactly the banks that were active before and have not been precharged meanwhile are active again.',
  over=['inputs', 'histories'], all='all timings, entry, exit and query times, all sets of active banks and prior histories, including exits requested before the entry took effect',
  why='Tests use one power-down per trace at fixed times; deferred entries, early exits, auto-precharges falling due meanwhile and repeated power-downs are not covered.',
  files=[D + 'standards/ddr4/DDR4Core.cpp', D + 'standards/ddr5/DDR5Core.cpp', D + 'standards/lpddr4/LPDDR4Core.cpp', D + 'standards/lpddr5/LPDDR5Core.cpp', D + 'standards/lpddr6/LPDDR6Core.cpp', D + 'dram/Rank.cpp', D + 'util/ImplicitCommandHandler.h', D + 'util/cycle_stats.h'],
  mech=[('handlePowerDownActEntry/Exit, handlePowerDownPreEntry/Exit', D + 'standards/lpddr4/LPDDR4Core.cpp'), ('earliestPossiblePowerDownEntryTime', D + 'standards/ddr4/DDR4Core.cpp')],
  note="For all five standards, with a fixed number of ranks and banks (2 ranks of 3 or 4 banks; where it matters also 16) but arbitrary timings, arbitrary reachable state (so: after any history) and arbitrary command times; the fixed geometry is why the evidence labels these lemmas bounded. An exit is legal once the rank's last activation, precharge and refresh have settled; the active exit is specified for at least one active bank."),
dict(id='C13', title='Self-refresh is a refresh of the rank followed by self-refresh until the exit',
  statement='Entering self-refresh refreshes every bank of the rank once and accounts exactly the time from the end of that refresh to the exit as self-refresh; deep sleep within it is accounted apart and never twice. After the exit the rank is idle and usable; other ranks are unaffected throughout.',
  over=['inputs', 'histories'], all='all timings, entry, exit, deep-sleep and query times and prior histories (exit not before the entry refresh is over)',
  why='Tests use one self-refresh per trace at fixed times.',
  files=[D + 'standards/ddr4/DDR4Core.cpp', D + 'standards/ddr5/DDR5Core.cpp', D + 'standards/lpddr4/LPDDR4Core.cpp', D + 'standards/lpddr5/LPDDR5Core.cpp', D + 'standards/lpddr6/LPDDR6Core.cpp', D + 'dram/Rank.cpp', D + 'util/ImplicitCommandHandler.h', D + 'util/cycle_stats.h'],
  mech=[('handleSelfRefreshEntry/Exit', D + 'standards/ddr4/DDR4Core.cpp'), ('handleDSMEntry/Exit', D + 'standards/lpddr5/LPDDR5Core.cpp')],
  note='For all five standards, with a fixed number of ranks and banks (2 ranks of 3 or 4 banks; where it matters also 16) but arbitrary timings, arbitrary reachable state (so: after any history) and arbitrary command times; the fixed geometry is why the evidence labels these lemmas bounded. An exit before the entry refresh is over is outside the contract (the code asserts it).'),
dict(id='C14', title='The accounted times partition the window and asking never changes a later answer',
  statement="At any query time and after any command, active, precharged, power-down, self-refresh and deep-sleep times of every bank and every rank add up to exactly the elapsed time, without any of them wrapping around. Asking for statistics, at the same time again or in between commands, changes no later answer, no pending effect and no later command's effect.",
  over=['inputs', 'histories'], all='all timings, command times, query times and prior histories',
  why='Tests ask once per trace, or at a few fixed times; an interim query while effects are pending or a sum that wraps needs particular times.',
  files=[D + 'standards/ddr4/DDR4Core.cpp', D + 'standards/ddr5/DDR5Core.cpp', D + 'standards/lpddr4/LPDDR4Core.cpp', D + 'standards/lpddr5/LPDDR5Core.cpp', D + 'standards/lpddr6/LPDDR6Core.cpp', D + 'dram/Rank.cpp', D + 'util/ImplicitCommandHandler.h', D + 'util/cycle_stats.h'],
  mech=[('getWindowStats', D + 'standards/lpddr5/LPDDR5Core.cpp'), ('processImplicitCommandQueue', D + 'util/ImplicitCommandHandler.h')],
  note='For all five standards, with a fixed number of ranks and banks (2 ranks of 3 or 4 banks; where it matters also 16) but arbitrary timings, arbitrary reachable state (so: after any history) and arbitrary command times; the fixed geometry is why the evidence labels these lemmas bounded.'),
dict(id='C15', title='Bus, pin and clock statistics are those of the signal, cycle by cycle',
  statement="The ones, zeroes, rising edges, falling edges and bit changes a bus, pin or clock reports at any time are exactly those of the signal it carries: the idle level, then each loaded burst bit by bit, then the idle level again, each cycle and each edge counted once. A load never changes what was reported for earlier times. A bus or clock that is switched off counts nothing until it is switched on again, and then starts from its idle level.",
  over=['inputs', 'histories'], all='all burst contents, load times, idle levels, query times (inside, at the end of and after a burst) and prior statistics',
  why='Tests use a few contents and query times; an edge between a burst and what follows, a query inside a burst, or a data rate above one needs particular values.',
  files=[D + 'util/bus.h', D + 'util/pin.h', D + 'util/clock.h', D + 'util/burst_storage.h', D + 'util/pending_stats.h', D + 'util/binary_ops.h', D + 'util/bus_types.h'],
  mech=[('advance_stats', D + 'util/bus.h'), ('set_internal', D + 'util/pin.h'), ('insert_data', D + 'util/burst_storage.h')],
  note='Bus widths 2 to 8, 1 to 4 bursts per load and data rates 1 and 2 (4 for clocks) are enumerated; contents, times and prior statistics are arbitrary. DRAMUtils (absent here) is replaced by plain-data stand-ins under stub/.'),
dict(id='C16', title='A data bus counts each transfer once, on its own side and in its own mode',
  statement="A read or write transfer shows only in the read or write statistics, and only in those of the mode the bus is in: bit-accurate, or described by toggling rate and duty cycle. In toggling-rate mode the statistics are those of exactly the transferred cycles (a running transfer counts as far as it has got) at the configured rate and duty cycle, and of the idle level for the rest of the time it was switched on. Switching modes switches both sides and loses nothing counted before.",
  over=['inputs', 'histories'], all='all toggling rates, duty cycles, idle levels, transfer lengths, times, contents and prior states',
  why='Tests use a handful of rates and times; the running transfer, the switched-off time and the split between sides and modes need particular sequences.',
  files=[D + 'util/databus.h', D + 'dram/Interface.cpp', D + 'dram/Interface.h', D + 'util/bus.h'],
  mech=[('TogglingHandle::get_stats', D + 'dram/Interface.cpp'), ('load', D + 'util/databus.h')],
  note='TogglingHandle: every reachable state, arbitrary times and lengths, every width, data rates 1 and 2. Rates and duty cycles are real numbers (rounding of double arithmetic is not modelled; the conversion to whole counts is). DRAMUtils (absent here) is replaced by plain-data stand-ins under stub/.'),
dict(id='C17', title='Core energy is the power model applied to the measured counts and times',
  statement='For every standard, the core energy of each bank of each device and rank is, summed over the supply domains, the currents and voltages of the memory description applied to that bank\'s own command counts and active time and its rank\'s precharged time; refresh, power-down, self-refresh, deep-sleep and shared background energy are charged per rank and device in the same way. Nothing is charged to another bank, device or rank, and each event is charged once.',
  over=['inputs'], all='all currents, voltages, timings, bank-wise factors, refresh modes, bank architectures, burst lengths and data rates, all counts and times, any number of banks (and any number of ranks and devices for the rank energies)',
  why='The energy tests compare a few totals for one memory description each; a wrong current, timing, domain or index that happens not to matter there changes every other result.',
  files=[D + 'standards/ddr4/core_calculation_DDR4.cpp', D + 'standards/ddr5/core_calculation_DDR5.cpp', D + 'standards/lpddr4/core_calculation_LPDDR4.cpp', D + 'standards/lpddr5/core_calculation_LPDDR5.cpp', D + 'standards/lpddr6/core_calculation_LPDDR6.cpp', D + 'data/energy.h', D + 'data/stats.h'],
  mech=[('calcEnergy', D + 'standards/ddr4/core_calculation_DDR4.cpp'), ('calcEnergy', D + 'standards/lpddr5/core_calculation_LPDDR5.cpp')],
  note='Exact real arithmetic. Any number of banks for one rank (and two ranks for DDR4, DDR5, LPDDR4), any number of ranks and devices for the rank energies; the index arithmetic over ranks, devices and banks together is enumerated for small shapes (up to 2x2x2, 16 banks). DRAMUtils (absent here) is replaced by plain-data stand-ins under stub/.'),
dict(id='C18', title='Totals and merged statistics contain every part exactly once',
  statement='The total energy of a bank, of a device and of an interface is the sum of its parts with every part counted once, for any number of banks. Adding statistics adds every counter of every bank, rank and bus; banks or ranks present on one side only are kept. Statistics compare equal exactly when every counter of every part agrees.',
  over=['inputs'], all='all energies and counter values, any number of banks and ranks on each side',
  why='Tests compare or add a few fixed objects; a counter that is dropped from a sum or a comparison only shows where that counter differs.',
  files=[D + 'data/energy.cpp', D + 'data/energy.h', D + 'data/stats.h', D + 'util/bus_types.h'],
  mech=[('energy_t::total', D + 'data/energy.cpp'), ('SimulationStats::operator+=', D + 'data/stats.h'), ('SimulationStats::operator==', D + 'data/stats.h')],
  note='Exact real arithmetic for energies, exact modular arithmetic for counters; loops over any number of banks by summaries with proved invariants.'),
dict(id='C19', title='A memory description is taken over faithfully',
  statement='Every quantity the cores, interfaces and energy calculations use is the one the memory description gives: voltages and currents per supply domain, timings, geometry, impedances, pre- and postambles, data rates and the refresh mode\'s values; optional entries take their documented defaults. The read-to-precharge and write-to-precharge distances follow from it as each standard defines them, and an invalid LPDDR5 bank architecture falls back to 16 banks consistently.',
  over=['inputs'], all='all memory descriptions (every field arbitrary; data rate and clock ratio 1..16)',
  why='The tests load one description per standard in which many values coincide; a swapped or missing field shows only in descriptions where they differ.',
  files=[D + 'memspec/MemSpec.h', D + 'memspec/MemSpecDDR4.cpp', D + 'memspec/MemSpecDDR5.cpp', D + 'memspec/MemSpecLPDDR4.cpp', D + 'memspec/MemSpecLPDDR5.cpp', D + 'memspec/MemSpecLPDDR6.cpp'],
  mech=[('MemSpecDDR4::MemSpecDDR4', D + 'memspec/MemSpecDDR4.cpp'), ('MemSpecLPDDR5::MemSpecLPDDR5', D + 'memspec/MemSpecLPDDR5.cpp')],
  note='The descriptions are the plain-data stand-ins under stub/ for the absent DRAMUtils package; reading JSON is outside. Fields the library declares but never reads (tRL of some standards, fck) are not covered.'),
dict(id='C20', title='Interface energy is the signalling model applied to the bus statistics',
  statement='For every standard, the interface energy is, per signal group (clocks, command, data on the bus or in toggling mode, strobes, DBI), its rising edges times its edge energy plus, only if that group is terminated, the time its pins spend at the level that draws current (low on DDR, high on LPDDR) times V\u00b2/R. The controller pays for clocks, commands and writes, the DRAM for reads, each group exactly once and with its own impedance, termination flag and bit time. On DDR4 every burst that does not follow another one seamlessly additionally pays its pre- and postamble per strobe pair.',
  over=['inputs'], all='all impedances, termination flags, edge energies, voltages, clock periods, data rates 1..16, widths and statistics (one and two ranks)',
  why='The tests compare totals for a description in which all groups are terminated and share values, so a swapped impedance, flag, bit time or payer stays invisible.',
  files=[D + 'standards/ddr4/interface_calculation_DDR4.cpp', D + 'standards/ddr5/interface_calculation_DDR5.cpp', D + 'standards/lpddr4/interface_calculation_LPDDR4.cpp', D + 'standards/lpddr5/interface_calculation_LPDDR5.cpp', D + 'standards/lpddr6/interface_calculation_LPDDR6.cpp', D + 'data/energy.h', D + 'data/stats.h', D + 'standards/ddr4/DDR4Core.cpp'],
  mech=[('calculateEnergy', D + 'standards/ddr4/interface_calculation_DDR4.cpp'), ('calculateEnergy', D + 'standards/lpddr5/interface_calculation_LPDDR5.cpp')],
  note='Exact real arithmetic. Terminated groups have a positive resistance. DDR5 and LPDDR6 have no DBI energy and LPDDR5/LPDDR6 no write strobe energy, as modelled by the library.'),
dict(id='C21', title='A restored state behaves like the saved one',
  statement='Saving any part of the memory model (core, interface, bus, pin, clock, data bus, inversion, encoder, statistics) and restoring it into another one of the same description leaves the restored one with every answer and every reaction to later commands that the saved one has, whatever it held before. A core offers itself for saving exactly when no deferred effect is outstanding.',
  over=['inputs', 'histories'], all='all saved states (in the middle of a burst, a refresh, an interval, with or without inversion), all previous contents of the object restored into, all later times',
  why='The serialisation tests need DRAMUtils and compare one state per standard with fixed data; a field that is forgotten, or that survives from before, shows only in particular states.',
  files=[D + 'util/bus.h', D + 'util/pin.h', D + 'util/clock.h', D + 'util/burst_storage.h', D + 'util/databus.h', D + 'util/dbi.h', D + 'util/PatternHandler.h', D + 'util/pending_stats.h', D + 'command/Pattern.h', D + 'dram/Interface.cpp', D + 'dram/Rank.cpp', D + 'dram/Bank.h', D + 'data/stats.h', D + 'standards/ddr4/DDR4Core.cpp', D + 'standards/ddr4/DDR4Interface.cpp', D + 'standards/ddr5/DDR5Interface.cpp', D + 'standards/lpddr4/LPDDR4Interface.cpp', D + 'standards/lpddr5/LPDDR5Interface.cpp', D + 'standards/lpddr6/LPDDR6Interface.cpp'],
  mech=[('serialize/deserialize', D + 'standards/lpddr5/LPDDR5Interface.cpp'), ('serialize/deserialize', D + 'util/dbi.h'), ('serialize/deserialize', D + 'dram/Rank.cpp')],
  note='The standard streams are modelled as the sequence of bytes-with-a-type that was written (so a value must be read with the type and size it was written with). Parts: any reachable state. Interfaces: after one read or write, one device of 8 (LPDDR6: 12) data pins. Cores: any state of 2 ranks of 3 banks (labelled bounded). Configuration that both objects take from the same description is not part of the state.'),
dict(id='C22', title='A command drives exactly its own pins',
  statement='For every standard, a command puts exactly its own word on the command bus at its own time, and nothing else on any pin. A read or write additionally puts exactly its data (inverted where data bus inversion says so, merged with metadata and inversion flags on LPDDR6, each bit on its pin in its beat) on the data bus of its own side, runs the strobe of its own side and the write clock for exactly the length of the burst, sets the inversion pins, and fixes exactly the column-address and burst-length bits that its burst length prescribes, whatever the length of the transfer before it. Without data a toggling-rate bus counts one burst of the length of the memory. The window statistics report each of these signals under its own name, per line, at the data rate of the memory.',
  over=['inputs', 'histories'], all='all commands, addresses, times, data, metadata and inversion flags; 8/16 pins (LPDDR6: 12), data rates 2 and 4, every burst length a standard knows, write clock always on or not, inversion on or off',
  why='The interface tests compare totals of a few fixed traces, with data rate 2 throughout, repeated bytes and a single burst length, so a swapped side, a stale burst-length bit, a wrong beat or a doubled line stays invisible; several commands never occur in them.',
  files=[D + 'standards/ddr4/DDR4Interface.cpp', D + 'standards/ddr5/DDR5Interface.cpp', D + 'standards/lpddr4/LPDDR4Interface.cpp', D + 'standards/lpddr5/LPDDR5Interface.cpp', D + 'standards/lpddr6/LPDDR6Interface.cpp', D + 'standards/lpddr6/LPDDR6Interface.h', D + 'util/databus.h', D + 'util/databus_presets.h'],
  mech=[('doCommand', D + 'standards/ddr4/DDR4Interface.cpp'), ('handleData/handleOverrides', D + 'standards/lpddr4/LPDDR4Interface.cpp'), ('formatData', D + 'standards/lpddr6/LPDDR6Interface.cpp')],
  note='The parts (buses, clocks, pins, inversion, encoder) behave as C05/C06, C09, C15 and C16 say; here an interface is compared, field by field, with the parts used directly. A transfer starts from an interface that was idle before (encoder settings: from an earlier transfer). The command truth tables themselves (which level a standard prescribes for which pin) are taken as registered. One rank and one device.'),
]
