T = 'include/vrtgen/types/'
K = 'include/vrtgen/packing/'
LAYOUT_NOTE = ('Random histories with shrinking against a bit-level model written from the standard; the offsets and widths in vt/libspec.py are trusted. '
               'Scaled and enumerated values stay within their field; reserved bits are zero in parsed bytes.')

prop('P01', 'Prologue, acknowledge-mode and trailer words follow the VITA 49.2 bit layout',
     'Every subfield of the packet header variants, the class identifier, the control and acknowledge mode words, the trailer and the state/event indicators '
     'occupies exactly the bits that VITA 49.2 assigns to it, in big-endian order, whatever history of setting, withdrawing, copying, packing and parsing precedes it. '
     'Writing one subfield never changes another, and an optional indicator reads as absent exactly while its enable bit is clear. '
     'Packing touches exactly the bytes of the word, and parsing the packed bytes gives back every value.',
     ['inputs', 'histories'], 'all values of all subfields, and all finite sequences of set, withdraw, copy, pack and parse',
     'Each unit test sets one subfield of a fresh object to one or two values; interactions between neighbouring subfields and longer histories are never sampled.',
     [K + 'header.hpp', K + 'prologue.hpp', K + 'command.hpp', K + 'trailer.hpp', K + 'state_event_indicators.hpp'],
     [('subfield accessors', K + 'header.hpp'), ('enable/value pairs', K + 'state_event_indicators.hpp'), ('bit-field access', T + 'packed.hpp')],
     'stateful property-based testing against a bit-level reference model', LAYOUT_NOTE)

prop('P02', 'Structured context fields follow the VITA 49.2 layout, scaling and defaults',
     'Every subfield of the fixed-size structured context fields (gain, levels, angles, noise and error-rate pairs, device identifier, geolocation, ephemeris, payload format, '
     'spectrum, version, buffer size, probability and belief) occupies the word, bits, signedness and scaling that the standard assigns to it, independently of every other subfield and of the history of the object. '
     'Freshly created structures hold the "unspecified" codes the standard prescribes and zero elsewhere; packing followed by parsing is the identity.',
     ['inputs', 'histories'], 'all in-range values of all subfields and all finite sequences of set, copy, pack and parse, also for values known at compile time',
     'Tests pack one hand-picked value per subfield; extremes of each scaled range, defaults and the combination of subfields are not covered.',
     [K + 'cif0.hpp', K + 'cif1.hpp', K + 'cif7.hpp'],
     [('structured fields', K + 'cif0.hpp'), ('structured fields', K + 'cif1.hpp'), ('fixed-point pairs', T + 'packed.hpp')],
     'stateful property-based testing against a bit-level reference model', LAYOUT_NOTE)

prop('P03', 'Indicator words map every field to its own standard bit',
     'In the context, warning, error and attribute indicator words, the sector-scan indicator and the warning/error condition word, every named indicator controls exactly the bit VITA 49.2 gives it and no other. '
     'The any/none queries report whether some bit is set, for every combination of bits and every history of setting, clearing, copying, packing and parsing.',
     ['inputs', 'histories'], 'all subsets of indicator bits of every indicator word and all finite sequences of set, clear, copy, pack and parse',
     'Tests set one bit at a time on a fresh word; no test covers combinations of bits, and warning and error words are hardly covered.',
     [K + 'indicator_fields.hpp', K + 'command.hpp', K + 'cif1.hpp'],
     [('indicator accessors', K + 'indicator_fields.hpp'), ('warning/error words', K + 'command.hpp')],
     'stateful property-based testing against a bit-level reference model', LAYOUT_NOTE)

prop('P04', 'Fixed-point conversion is exact on codes and rounds to nearest between them',
     'Converting any code of a fixed-point format to floating point gives the exact number it stands for, and converting that number back gives the same code. '
     'Any other in-range number converts to a code that is at most half a unit in the last place away.',
     ['inputs'], 'all codes and all in-range reals, for the 16-, 32- and 64-bit formats with the radix points the standard uses, from float, double and long double',
     'Tests convert a few round numbers; neither the extremes nor points between codes are sampled.',
     [T + 'fixed.hpp'], [('conversions', T + 'fixed.hpp')],
     'exhaustive (16-bit) and random round-trip and nearest-value testing', '16-bit formats are enumerated completely; 32- and 64-bit ones are sampled with boundary values.')

prop('P05', 'UUID text form and 16-byte wire form correspond exactly',
     'A UUID given as 8-4-4-4-12 hexadecimal text, in either letter case, packs into the sixteen bytes the digits spell in order and reads back as the same digits in lower case with the same hyphens. '
     'Any sixteen bytes parse into the UUID whose text spells them, whatever the object held before.',
     ['inputs', 'histories'], 'all 128-bit values, both letter cases, all sequences of construct, assign, parse and copy',
     'Tests use two fixed UUIDs.', [T + 'uuid.hpp'], [('text and wire conversion', T + 'uuid.hpp')],
     'property-based round-trip testing against a byte-array model', 'Only well-formed 36-character text is generated.')

prop('P06', 'Variable-length context fields encode their lists and counts faithfully',
     'GPS ASCII text, context association lists, index lists and sector-scan records pack into the counts and big-endian, word-aligned elements that VITA 49.2 prescribes, and the reported size is the number of bytes packed. '
     'Parsing such bytes gives back the same lists and counts, reads nothing beyond them, and leaves no trace of what the object held before.',
     ['inputs', 'histories'], 'all list lengths within the count fields, all element values, all sequences of assigning, appending, copying, packing and parsing',
     'There is no unit test of the lists at all and one two-byte GPS sentence; lengths that are not a multiple of a word are exactly what a sample misses.',
     [K + 'cif0.hpp', K + 'cif1.hpp'], [('GPS ASCII, association lists', K + 'cif0.hpp'), ('index list, sector scan', K + 'cif1.hpp')],
     'stateful property-based testing against a reference encoder', 'Lists of up to 600 entries (511 for nine-bit counts); index-list and sector-scan count words are set by the caller, as the interface demands.')

prop('P07', 'Bit-field access reads and writes exactly the addressed bits',
     'Reading or writing the bit field of a given position and width in an 8-, 16-, 32- or 64-bit big-endian word affects exactly those bits of the transmitted bytes, for every position and every width that fits; of a value wider than the field only the low bits are written. '
     'Conversion of integers to and from network byte order is its own inverse and puts the most significant byte first, for every integer type.',
     ['inputs', 'histories'], 'all positions and widths (all for words up to 32 bits, a random subset for 64 bits), all values, also wider than the field, and all write sequences',
     'Tests instantiate fewer than ten of the 2700 position/width combinations.',
     [T + 'packed.hpp', T + 'swap.hpp'], [('bit-field access', T + 'packed.hpp'), ('byte order', T + 'swap.hpp')],
     'property-based testing with generated accessor instantiations against a bit-array model', 'Positions and widths of 64-bit words are sampled in the quick tier.')

prop('P08', 'Named codes have the values of the VITA 49.2 tables',
     'Every named code of the library (packet types, timestamp codes and modes, command modes, data formats, sample-frame codes, spectrum, averaging and window types, '
     'entry sizes and standard compliance) stands for the code the standard assigns to that name. Setting a named code transmits exactly that code in its subfield, '
     'and parsing a code reads as exactly that name, whatever else the structure holds.',
     ['inputs', 'histories'], 'all named codes of all enumerated subfields, and all finite sequences of setting and parsing them',
     'Tests use a few of the 150 names, mostly the same one for writing and reading, so that a wrong or swapped value cancels out.',
     [K + 'enums.hpp', K + 'cif1.hpp', K + 'trailer.hpp', K + 'header.hpp'],
     [('enumerations', K + 'enums.hpp'), ('spectrum enumerations', K + 'cif1.hpp')],
     'exhaustive (names) and random (histories) testing against an independent code table', 'The table in vt/libspec.py is trusted; reserved codes are not named in it.')

G = 'src/vrtgen/backend/cpp/'
TM = G + 'templates/macros/'
PKNOTE = ('Random definitions (%s) are turned into YAML, generated and compiled with the tree under test, and driven with random histories; '
          'the oracle is the reference encoder in vt/pkmodel.py. Bounded by the definition grammar of vt/pkgen.py; sector_step_scan fields are covered by P06 only.')

prop('P10', 'Every valid packet definition generates compiling, reproducible C++ classes',
     'For every valid definition of data, context and control packets (and their extension kinds) the generator succeeds and writes one header and one source file per packet, and these compile as C++20. '
     'The files depend only on the definition of that packet: not on the run, the hash seed, the other packets of the file or their order.',
     ['inputs'], 'all valid combinations of prologue, CIF0/1/2 fields and modes, acknowledge modes, user-defined subfields and trailers, and all orders of packets in a file',
     'The test suite generates a fixed set of YAML files once; combinations of options and cross-talk between definitions are never tried.',
     [G + 'generator.py', G + 'type_helpers.py', G + 'templates/packet.hpp.jinja2', G + 'templates/packet.cpp.jinja2'],
     [('generation', G + 'generator.py'), ('templates', G + 'templates')],
     'property-based testing: random definitions, metamorphic comparison of outputs and compilation', 'CamelCase packet names; g++ for every packet, clang++ for one in nine.')

prop('P11', 'A built packet serializes to the VITA 49.2 image of its contents',
     'Whatever fields and attributes are set on a packet object, in any order, data() is exactly the big-endian VITA 49.2 encoding of those contents: header word with type, indicators, timestamp codes, count and size in words, '
     'prologue parts in order, indicator words with exactly the bits of the present fields, and the fields in descending bit order of CIF0, CIF1, CIF2 with their reserved words.',
     ['inputs', 'histories'], 'all packet definitions and all contents assigned through setters, references and subfield accessors',
     'Tests pack a few hand-made packets with one or two fields set and compare selected bytes.',
     [TM + 'function_defs.jinja2', TM + 'function_defs/cif.jinja2', TM + 'function_defs/constructors.jinja2', 'include/vrtgen/packing'],
     [('serialization', TM + 'function_defs/cif.jinja2'), ('construction', TM + 'function_defs/constructors.jinja2')],
     'property-based testing against a reference encoder', PKNOTE % 'all kinds')

prop('P12', 'Parsing a packet recovers every field, and serializing it again is the identity',
     'An object constructed from the bytes of any packet of its class reports, through every getter, exactly the value the bytes carry: absent optional fields are absent, present ones have their value, and prologue, payload and trailer match. '
     'Serializing the unmodified object gives the same bytes, and nothing outside the given bytes is read.',
     ['inputs'], 'all packet definitions and all well-formed packets of the class, including every subset of optional fields',
     'Tests parse packets built by the same code a moment before, so a symmetric mistake is invisible, and with one subset of fields.',
     [TM + 'function_defs/constructors.jinja2', TM + 'function_defs/cif.jinja2'],
     [('unpacking constructor', TM + 'function_defs/constructors.jinja2')],
     'property-based testing: reference-encoded packets, parse and re-serialize', PKNOTE % 'all kinds')

prop('P13', 'Size, packet-size word and serialized length always agree',
     'After any history the number of bytes returned by data(), the value of size() and four times the packet-size word of the header agree and are a whole number of words, and every field is found where the lengths of the fields before it put it. '
     'This also holds while variable-length fields, payloads and optional fields grow, shrink, appear and vanish, and asking for the size or the data changes nothing.',
     ['histories'], 'all histories of assignments, resets, parses and inspections, with emphasis on variable-length fields and payloads',
     'Tests never change the length of a field after the first serialization.',
     [TM + 'function_defs/cif.jinja2', TM + 'function_defs/data.jinja2', G + 'templates/packet.cpp.jinja2'],
     [('synchronization of sizes and positions', TM + 'function_defs/cif.jinja2'), ('payload', TM + 'function_defs/data.jinja2')],
     'stateful property-based testing against a reference model', PKNOTE % 'context, control and data packets with variable-length fields')

prop('P14', 'A packet depends on its present fields, not on the history that led there',
     'Setting, re-setting and resetting optional fields (one by one or a whole indicator word at once) in any order, interleaved with serialization and inspection, leaves the packet with exactly the fields last set and not reset afterwards, '
     'each with its last value; the bytes and getters are those of a packet built with these contents directly.',
     ['histories'], 'all sequences of set, assign by reference, reset, reset of a whole CIF, parse, serialize and inspect',
     'Tests set each optional field once and reset it once.',
     [TM + 'function_defs/cif.jinja2', TM + 'function_defs/common.jinja2'],
     [('set, reset and insertion of optional fields', TM + 'function_defs/cif.jinja2')],
     'stateful property-based testing against a reference model', PKNOTE % 'context and control packets with many optional fields')

prop('P15', 'match() accepts exactly the packets of its own class',
     'match() of a generated class accepts every packet the class can produce, whatever its contents, and packets that differ from those only in counts, identifiers, timestamps or optional modes. '
     'It rejects packets whose type, header indicators, timestamp kinds, OUI, packet or information class code, or required acknowledge-mode bits and identifier formats differ from those its definition fixes.',
     ['inputs'], 'all pairs of definitions, all contents, all single-bit changes of the identifying and of the free parts of the prologue',
     'Tests match one packet against its own class and one foreign class.',
     [TM + 'function_defs/match.jinja2'], [('match', TM + 'function_defs/match.jinja2')],
     'property-based testing over families of neighbouring definitions against a reference classifier', 'Acknowledge packets are treated by P19 and P20. Bits a definition does not mention are not judged.')

prop('P16', 'Data packets carry any payload unchanged, zero-padded, before the trailer',
     'A data packet carries every payload byte for byte, padded with zero bytes to a whole word, followed by the trailer when the class has one; replacing the payload by a longer or shorter one, at any moment, leaves no residue and keeps prologue and trailer. '
     'Every part survives serialization, parsing, copying and moving.',
     ['inputs', 'histories'], 'all payload lengths up to the 16-bit size limit and all histories of payload, trailer and prologue changes',
     'Tests use a single payload of a fixed length.',
     [TM + 'function_defs/data.jinja2', 'include/vrtgen/packing/trailer.hpp'], [('payload', TM + 'function_defs/data.jinja2')],
     'stateful property-based testing against a reference model', PKNOTE % 'data packets')

prop('P17', 'User-defined bit fields occupy exactly their own bits',
     'The subfields a definition declares inside a stream identifier, a discrete I/O word or a trailer are laid out without gaps in definition order; writing or reading one, in any order and history, touches exactly its bits (and, in trailers, its enable bits) and no others. '
     'A trailer subfield reads as absent exactly while it is not enabled.',
     ['inputs', 'histories'], 'all layouts of booleans, integers, enumerations and enable/value pairs that fit the word, and all write sequences',
     'Tests know one layout per word and set each subfield once.',
     ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/parser/model/data.py', TM + 'types/user_class.jinja2'],
     [('layout', 'src/vrtgen/parser/model'), ('accessors', TM + 'types/user_class.jinja2')],
     'stateful property-based testing against a bit-level reference model', PKNOTE % 'packets with user-defined words')

prop('P22', 'Packet objects are values: copies are independent and equal',
     'Copying, assigning or moving a packet object yields an object with the same contents and the same bytes; afterwards, changes to either object never show in the other, whatever was set, reset or serialized before.',
     ['histories'], 'all sequences of modifications of two objects interleaved with copy, assignment, move and swap',
     'Tests never copy a packet.', [G + 'templates/packet.hpp.jinja2', TM + 'members.jinja2'], [('members', TM + 'members.jinja2')],
     'stateful property-based testing with two objects against a reference model', PKNOTE % 'all kinds')

prop('P23', 'No-action control packets carry exactly the enabled field indicators',
     'A control packet whose action mode is "none" carries indicator words but no field values: its bytes are the prologue followed by the indicator words of exactly the fields enabled so far, for every history of enabling, disabling and resetting indicators, serializing and parsing. '
     'An optional indicator word is present exactly while one of its fields is enabled.',
     ['histories'], 'all definitions of query packets and all histories of indicator changes',
     'Tests enable a handful of indicators once.', [TM + 'function_defs/cif.jinja2'], [('indicator functions', TM + 'function_defs/cif.jinja2')],
     'stateful property-based testing against a reference model', PKNOTE % 'control packets with action mode none')

prop('P18', 'Validation/execution acknowledgements carry exactly the recorded conditions',
     'The acknowledgement derived from a control packet for validation and execution carries a warning word and an error word for exactly the fields for which one was recorded and not withdrawn since, announced by the warning and error indicator words in order, '
     'and its acknowledge-mode word says whether any warnings or errors are present and mirrors the modes and identifiers of the control packet. '
     'This holds for every history of recording, withdrawing, serializing and parsing, and parsing a received acknowledgement gives back every recorded condition.',
     ['histories'], 'all control packet definitions that request such acknowledgements and all histories of recording, withdrawing, parsing and serializing conditions',
     'Tests record one warning or error once on an acknowledgement with a few fields.',
     [G + 'templates/ack_packet.cpp.jinja2', TM + 'types/weif.jinja2', 'src/vrtgen/parser/model/command.py'],
     [('warnings and errors', TM + 'types/weif.jinja2'), ('derivation from the control packet', 'src/vrtgen/parser/model/command.py')],
     'stateful property-based testing against a reference model', PKNOTE % 'control packets with their acknowledgements')

prop('P19', 'State acknowledgements carry the fields of the control packet they answer',
     'The state acknowledgement derived from a control packet has the prologue, identifiers and fields of that packet, marked as an acknowledgement of state; '
     'under every history of setting, resetting, parsing and serializing, its bytes and getters are the VITA 49.2 image of the fields currently present.',
     ['histories'], 'all control packet definitions that request state acknowledgements and all histories on the acknowledgement',
     'Tests answer a query with one fixed packet.',
     [G + 'templates/ack_packet.cpp.jinja2', 'src/vrtgen/parser/model/command.py'],
     [('derivation from the control packet', 'src/vrtgen/parser/model/command.py'), ('serialization', TM + 'function_defs/cif.jinja2')],
     'stateful property-based testing against a reference model', PKNOTE % 'control packets with their acknowledgements')

prop('P20', 'Acknowledgements are recognized by their own class only',
     'match() of an acknowledgement class accepts every acknowledgement its class can produce and those that differ only in free parts (count, identifiers, times, presence of warnings and errors). '
     'It rejects control packets, acknowledgements of the other kind, and those whose type, class identifier, timestamp kinds, action mode, permissions or identifier formats differ from the ones of the control packet answered.',
     ['inputs'], 'all pairs of acknowledgement and control definitions, all contents and all single-bit changes of identifying and free parts',
     'Tests match one acknowledgement with its own class.',
     [TM + 'function_defs/match.jinja2', 'src/vrtgen/parser/model/command.py'], [('match', TM + 'function_defs/match.jinja2')],
     'property-based testing over families of neighbouring definitions against a reference classifier', 'Bits a definition does not mention are not judged.')

LD = 'src/vrtgen/parser/loader.py'
PA = 'src/vrtgen/parser/__init__.py'
prop('P30', 'The meaning of a definition does not depend on how it is written',
     'Two definition files that say the same thing give the same generated files, byte for byte: letter case of the literals the reader documents as case-insensitive, decimal or hexadecimal numbers, required or true for indicators, '
     'quotes, order of the entries of a section, block or flow style, comments, blank lines, hidden entries, aliases and merge keys make no difference.',
     ['inputs'], 'all definition files and all equivalent spellings of them',
     'Tests read a few files written one way.',
     ['src/vrtgen/parser/value.py', LD, PA, 'src/vrtgen/parser/model/command.py', 'src/vrtgen/parser/model/base.py'], [('literals', 'src/vrtgen/parser/value.py'), ('sections', LD)],
     'metamorphic property-based testing: random definitions rewritten by a generator of equivalent spellings, outputs compared', 'Order of user-defined subfields carries meaning and is kept; so is the order of packets an acknowledgement depends on.')
prop('P31', 'A faulty definition or command line is refused',
     'A definition with an unknown field, a section in the wrong kind of packet or under the wrong name, an unknown mode or literal, a malformed or reserved OUI, subfields that do not fit their word, forbidden combinations of requests or of trailer fields, '
     'an acknowledgement of something that is not an earlier control packet, an unknown packet in an information class, a missing or malformed include or file, an unknown tag or broken YAML, and a command line with an unknown generator, option or socket type or the same packet twice, '
     'ends with a nonzero exit status and a message, and writes no class of the faulty file.',
     ['inputs'], 'all valid definition files with one fault at any place',
     'Tests try one or two faults per field class in an otherwise minimal file.',
     [LD, PA, 'src/vrtgen/parser/value.py', 'src/vrtgen/parser/model/base.py', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/parser/model/data.py', 'src/vrtgen/parser/model/command.py', 'src/vrtgen/main.py', 'src/vrtgen/backend/cpp/generator.py'],
     [('field names', 'src/vrtgen/parser/model/base.py'), ('literals', 'src/vrtgen/parser/value.py'), ('command line', 'src/vrtgen/main.py')],
     'fault injection into randomly generated valid definitions, with the definitions without the fault as controls', 'Faults the reader does not promise to notice (repeated YAML keys, codes of more than 16 bits) are not judged.')
prop('P32', 'Files, includes and information classes assemble to the classes they name',
     'However definitions are spread over files named on the command line and files they include, the generated files are exactly: one header and one source per visible packet (per packet the information class lists, where a file has one), the Controller and Controllee headers with an information class, '
     'and the project layout with copies of all definition files when asked; with the chosen directory, extensions and namespace. Hidden entries produce nothing. Each class is what its definition alone gives, with the information code of its class.',
     ['inputs'], 'all arrangements of definitions over files and includes, all options',
     'Tests generate from one file with one set of options.',
     [PA, 'src/vrtgen/main.py', 'src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/parser/model/information.py'], [('assembly', PA), ('output', 'src/vrtgen/backend/cpp/generator.py')],
     'property-based testing of random arrangements against a model of the file set and the classes of each definition alone', 'Each file is included once; a packet name occurs once.')

prop('P33', 'A packet listed by several information classes serves all of them',
     'A packet with a class identifier that information classes of different codes list starts out with the code of the first of them, has an accessor to read and change the code, and its match accepts its packets under every code; '
     'in every other respect (layout, contents, sizes, what match refuses) it is the class its definition gives. A packet that one information class lists carries and accepts the code of that class only.',
     ['inputs', 'histories'], 'all sets of information classes over all packets, all histories of such packets',
     'No test has a packet in two information classes.',
     [PA, 'src/vrtgen/backend/cpp/generator.py', G + 'templates/macros/function_defs/class_id.jinja2', G + 'templates/macros/function_defs/match.jinja2'],
     [('which code', PA), ('several codes', 'src/vrtgen/backend/cpp/generator.py')],
     'stateful property-based testing of packets listed by random information classes against a reference model, and of match against a reference classifier', 'Packet classes only; which Controller serves which class is not judged.')

prop('P34', 'Generated projects and the installed library build as they are',
     'A project generated (--project) into any directory, given relative, absolute or not at all, from any valid definitions with any options configures with CMake, builds, and yields a program named after the directory that runs. '
     'A program that uses generated classes builds and runs against the library found by find_package or pkg-config after installation under any prefix, added as a subdirectory, or included from the source tree.',
     ['configurations', 'inputs'], 'all directories, options and definitions; all ways to use the library named in the documentation',
     'No test configures a generated project or installs the library.',
     ['src/vrtgen/backend/cpp/generator.py', G + 'templates/CMakeLists.txt.jinja2', G + 'templates/CMakeLists.src.bin.jinja2', G + 'templates/CMakeLists.packets.jinja2', G + 'templates/main.cpp.jinja2', 'CMakeLists.txt', 'cmake/vrtgenConfig.cmake.in'],
     [('project files', 'src/vrtgen/backend/cpp/generator.py'), ('installation', 'CMakeLists.txt')],
     'property-based testing of random projects, configured, built and run', 'vrtgen comes from the tree under test instead of the network; the package cnats is a stand-in.')

NETT = G + 'templates/'
prop('P40', 'A command reaches its handlers unchanged and its answers come back to the caller',
     'For every information class, a packet given to the send function of the Controller reaches, over UDP or TCP, exactly the handlers the Controllee has for what the packet requests (validate for validation, execute for execution or state), once each, in that order, with the same content. '
     'The caller gets exactly the acknowledgements requested and none else, each with the content the handler returned, marked with its kind, and with the stream, message, controllee and controller identifiers of the command; '
     'every command gets a fresh message identifier and the controller identifier configured. This holds for every sequence of commands, contents and answers.',
     ['histories', 'inputs'], 'all information classes (control packets with and without requests, identifiers, user-defined stream IDs) and all sequences of commands and answers',
     'Tests compile one Controller and Controllee; no generated pair is made to talk over many packet classes.',
     [NETT + 'controller.hpp.jinja2', NETT + 'controllee_base.hpp.jinja2', NETT + 'macros/controller/controller.jinja2', NETT + 'controllee.hpp.jinja2', 'include/vrtgen/utility.hpp'],
     [('dispatch', NETT + 'controllee_base.hpp.jinja2'), ('sending', NETT + 'macros/controller/controller.jinja2'), ('waiting for answers', 'include/vrtgen/utility.hpp')],
     'stateful property-based testing of generated Controller/Controllee pairs over loopback sockets against a reference model', 'Both ends in one process, loopback, IPv4. All packets of one information class use one controller_id format.')
prop('P41', 'Packets on a TCP connection do not depend on how the stream is cut',
     'A sequence of command packets written to the TCP connection of a Controllee in any pieces (packets split anywhere, several in one piece, pauses up to and beyond the read timeout) is handled as the same sequence: every packet once, whole, in order, and answered once, '
     'with packets of foreign classes in between skipped. The Controller likewise reads its acknowledgements whole, whatever pieces they arrive in.',
     ['schedules', 'inputs'], 'all sequences of packets and all ways of cutting their byte stream',
     'Tests over loopback with one small packet at a time hardly ever see a split or joined read.',
     ['include/vrtgen/utility.hpp', 'include/vrtgen/socket/tcp.hpp', NETT + 'controllee_base.hpp.jinja2'],
     [('reading a packet', 'include/vrtgen/utility.hpp'), ('listener', NETT + 'controllee_base.hpp.jinja2')],
     'fault injection into the byte stream (random segmentation and delays) with a reference model of the exchange', 'Pieces are separate writes; the kernel may join some.')

prop('P42', 'Data and context packets reach exactly the listeners of their class',
     'While receiving is enabled, every datagram that is a whole packet of a class with a registered listener is given to that listener once, unchanged and in order of arrival, whether the Controllee of the same information class or any other program sent it. '
     'Packets without listener, foreign, cut and meaningless datagrams disturb nothing. Packets the Controller sends arrive unchanged at the destination it was given. Receiving can be disabled and enabled at any time, and the Controller destroyed while it receives.',
     ['histories', 'inputs'], 'all information classes with data and context packets, all sequences of sending, registering, switching and of arriving datagrams',
     'No test runs a generated Controller; unit tests of sockets see single datagrams.',
     [NETT + 'macros/controller/controller.jinja2', NETT + 'controller.hpp.jinja2', NETT + 'controllee_base.hpp.jinja2', 'include/vrtgen/socket/udp.hpp'],
     [('receiving', NETT + 'macros/controller/controller.jinja2'), ('sockets', 'include/vrtgen/socket/udp.hpp')],
     'stateful property-based testing of generated Controllers over loopback sockets, with injected junk, against a reference model', 'Loopback, IPv4; bursts fit the socket buffer.')
prop('P43', 'Only the acknowledgement of a command is returned as its answer',
     'Whatever else a Controller receives while it waits (acknowledgements of earlier commands that come late, of other commands or classes, commands, foreign packets, over UDP also cut or meaningless datagrams and those of strangers), it returns as answer only whole acknowledgements with the message identifier of the command, unchanged, '
     'and finds them behind everything else. If one does not come the call ends with an exception in bounded time, later commands get their own answers, and no reply changes where later commands are sent.',
     ['histories', 'schedules', 'inputs'], 'all sequences of commands and all sequences of replies to them that precede, replace or follow the answers',
     'The peer in the tests answers properly and in time.',
     ['include/vrtgen/utility.hpp', 'include/vrtgen/socket/udp.hpp', 'include/vrtgen/socket/tcp.hpp', NETT + 'macros/controller/controller.jinja2'],
     [('waiting for answers', 'include/vrtgen/utility.hpp'), ('message identifiers', NETT + 'macros/controller/controller.jinja2')],
     'fault injection by a scripted peer (stale, foreign, damaged, missing replies) against a reference model of the exchange',
     'Replies on TCP are whole packets, except for the listed finding. Duplicates of an acknowledgement within one command are not judged.')
S_ = 'include/vrtgen/socket/'
prop('P44', 'Endpoints hold their address, sockets move data and own their descriptors',
     'An endpoint of any family holds exactly the address and port it was given, in its text, its native form and through all setters and copies; text that is no address is refused by the constructor and clears the address in the setter. '
     'Datagrams arrive whole, unchanged and in order at the socket bound to their destination, with the endpoint of their sender; bytes of a TCP connection arrive unchanged and in order, before and after accepting another connection. '
     'bind, connect and accept report success exactly when they succeed and only then change the source and destination endpoints. Sockets close every descriptor they own, once, and a peer that is gone never ends the program.',
     ['histories', 'inputs'], 'all address texts, and all histories of creating, binding, connecting, accepting, sending, receiving, closing and destroying sockets, IPv4 and IPv6',
     'Tests open one socket pair and send one message.',
     [S_ + 'socket_base.hpp', S_ + 'socket_endpoint.hpp', S_ + 'tcp.hpp', S_ + 'udp.hpp'],
     [('endpoints', S_ + 'socket_endpoint.hpp'), ('descriptors', S_ + 'socket_base.hpp'), ('connections', S_ + 'tcp.hpp')],
     'stateful property-based testing of random socket histories on the loopback interface against a reference model, under AddressSanitizer', 'Loopback; IPv6 sockets only where the machine has an IPv6 loopback address. The timeout of an accepted connection is not judged.')
prop('P45', 'Over NATS, messages and commands arrive as they do over sockets',
     'A NATS client subscribes to exactly the subject (and queue group) it was given, publishes exactly the bytes with the reply subject it was given, and hands out the messages of its subscription and of its inbox separately, each once, unchanged, in order, with their reply subject, whether they come before or during the wait; every inbox is new. '
     'A command sent through a Controller over NATS reaches its handlers and is answered as over sockets; commands of other programs are answered to the subject they name, or not at all if they name none; everything else on the subject is skipped; only the acknowledgement of the command is returned as its answer. The threads involved do not race.',
     ['histories', 'schedules', 'inputs'], 'all histories of up to three clients, and all information classes and sequences of commands and replies over NATS',
     'There is no test of the NATS code at all: it needs a server.',
     ['include/vrtgen/nats/client.hpp', 'include/vrtgen/nats/message.hpp', 'include/vrtgen/nats/utility.hpp', NETT + 'macros/controllee/controllee_base.hpp.jinja2', NETT + 'controllee_base.hpp.jinja2', NETT + 'controller.hpp.jinja2', NETT + 'macros/controller/controller.jinja2'],
     [('queues', 'include/vrtgen/nats/client.hpp'), ('waiting for answers', 'include/vrtgen/nats/utility.hpp'), ('listener', NETT + 'controllee_base.hpp.jinja2')],
     'stateful property-based testing against a reference model and a server written for it, half of the client histories under ThreadSanitizer', 'The server is vt/natsd.py (no authentication, no wildcards). Empty messages and loss of the server are not judged.')
prop('P46', 'The loss of a peer ends an exchange, never the program',
     'Whenever a controller leaves a Controllee, by closing or resetting the TCP connection at any byte of a command or before it reads its answers, or by giving up its UDP address, the Controllee keeps running, handles what arrived whole, keeps no descriptor, and serves the next controller exactly. '
     'Whenever a controllee leaves a Controller, before or during a command or in the middle of an acknowledgement, the call ends in bounded time, with an exception if an acknowledgement is missing, later calls do the same, and the Controller can be destroyed and replaced; over UDP a controllee that comes back is served again.',
     ['histories', 'fault_sequences', 'inputs'], 'all information classes, all sequences of commands and all points at which the peer leaves, orderly or not',
     'Peers in the tests stay to the end.',
     ['include/vrtgen/utility.hpp', S_ + 'tcp.hpp', S_ + 'socket_base.hpp', NETT + 'controllee_base.hpp.jinja2', NETT + 'macros/controller/controller.jinja2'],
     [('waiting for answers', 'include/vrtgen/utility.hpp'), ('writing', S_ + 'tcp.hpp'), ('listener', NETT + 'controllee_base.hpp.jinja2')],
     'fault injection (disconnection, reset, absence at random points) into generated Controller/Controllee pairs against a reference model', 'Loopback. Commands that were sent whole before a reset may or may not be handled.')
prop('P50', 'No received bytes make a generated class read outside them',
     'match() and the parsing constructor of every generated class accept any byte string of any length: they never read outside it, never leave defined behaviour, and end with a verdict or an exception. A byte string shorter than the length its header announces is never parsed. '
     'A packet that was parsed, whatever its bytes were, can be read, modified, copied and serialized again without such errors.',
     ['inputs', 'histories'], 'all byte strings offered to all classes, and all short histories on what was parsed from them',
     'Tests parse well-formed packets.',
     [TM + 'function_defs/constructors.jinja2', TM + 'function_defs/match.jinja2', K + 'cif0.hpp', K + 'cif1.hpp'],
     [('parsing', TM + 'function_defs/constructors.jinja2'), ('variable-length fields', K + 'cif0.hpp')],
     'mutation-based fuzzing (structure-aware: headers, indicator words, counts, cuts, splices) of generated classes under AddressSanitizer and UndefinedBehaviorSanitizer', PKNOTE % 'all packet kinds')
