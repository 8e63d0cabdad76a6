T = {
 'C03': ('stateless exhaustive exploration of edit histories of generated context packets',
         'Every CIF0-CIF2 field the generator accepts and user-defined discrete I/O and stream-identifier layouts, as optional and as required; all histories up to length 2 on packets with all fields and 3-4 (quick) / 4-5 (thorough) on small packets, from the fresh and the fully populated packet; operations: setters, resets, assignment and reset through references, whole-word resets, prologue edits, serialize, re-parse. Every reached state is serialized (twice), read, matched, decoded and re-encoded and compared with an independent encoder.'),
 'C04': ('stateless exhaustive exploration of edit histories of generated data packets',
         'Fifteen packet types covering every prologue element, trailer kind and time-mode/spectrum setting; all histories up to length 2-4 (quick) / 3-5 (thorough) over payload sizes (0..40 exhaustively, and the largest that fits), trailer and prologue edits, serialize, re-parse; same per-state checks as C03.'),
 'C05': ('stateless exhaustive exploration of edit histories of generated control and state-acknowledge packets',
         'Fifteen control packets (all combinations of identifier formats, fixed/optional mode bits, action modes, prologue elements, CIF0-CIF2 fields, queries, extension commands) and the state acknowledges they define; all histories up to length 2-3 (quick) / 2-4 (thorough) over setters, resets, mode bits, identifiers, prologue edits, serialize, re-parse; every state compared with an independent encoder, decoded and re-encoded.'),
 'C06': ('stateless exhaustive exploration of warning/error edit histories of generated acknowledges',
         'Validation/execution acknowledges with warnings, errors, both or none over fields of CIF0-CIF2; all histories up to length 1-4 (quick) / 2-5 (thorough) of setting, overwriting, editing by reference, resetting single responses and whole words, flags, serialize, re-parse; every state compared with an independent encoder.'),
 'C07': ('stateless exhaustive exploration: decode every enumerated content, then all edit histories on the decoded object',
         'Every packet type of C03-C06 (incl. fields of variable length): contents one value away from the empty and the full packet and all pairs of presence changes (thorough: all pairs of values for small types), presented in six ways (exact, odd address, trailing bytes of three kinds, followed by another packet), source buffer overwritten after decoding; then all edit histories of length 1-2 (quick) / 2-3 (thorough) on the decoded object, every state compared with the independent encoder whose bytes were decoded.'),
 'C08': ('explicit enumeration of packet-identity states (all header/class-identifier/mode-word/indicator variations) against every generated matcher',
         'About 200 packet types, among them families differing in exactly one setting. Per type: all its contents (must be accepted), all 4096 values of the identifying header bits, up to three (thorough: four) flips in each word with fixed bits and all pairs across those words, up to two changes of required indicators, and every packet of every other type; verdict from an independent statement of which bits are fixed, open or unspecified.'),
 'C09': ('explicit enumeration of malformed inputs (every cut, size, indicator flip, byte value, extreme word) on the real decoder under sanitizers',
         'Every packet type of C03-C06 in exact-size heap buffers under AddressSanitizer/UndefinedBehaviorSanitizer with container annotations: every truncation, every announced size, single and pairwise indicator flips, every byte with every value, every word with 24 extreme values (also with nothing behind), plausible starts continued with constants; after a decode that succeeds all getters, serialization and every operation are run. Inputs too short must be flagged by matcher or decoder.'),
 'C15': ('explicit enumeration of bounded packet descriptions, run through the real parser and command, against an independent reading of them',
         'About 37,000 (quick) / more (thorough) descriptions: all prologue combinations, every field, mode, pair of fields and indicator word, all mode-word request/permission/action combinations, all key orders, documents of up to four packets in every order, control/acknowledge pairs, information classes, unknown keys at every level, illegal values and elements of the wrong kind. Each accepted model is compared attribute by attribute with the independent reading; a selection also runs through the command line.'),
 'C17': ('stateless exhaustive exploration of UUID construction, conversion and comparison histories',
         'All values of each byte in every position, all pairs of bytes, all texts obtained by one or two character substitutions, and all operation histories to the stated depth over construction from text, bytes and words, assignment, comparison and conversion.'),
 'C19': ('explicit enumeration of user-defined layouts; per layout exhaustive exploration of assignment histories on the generated classes',
         'Every trailer layout that fits (with and without sample frame), stream identifiers and discrete I/O words of 1-32 parts over the listed widths and orders; per layout every state and assignment where the word has at most 2^11 (thorough 2^16) states, else boundary/walking-bit values two (thorough three) assignments deep from six backgrounds, each re-read, serialized, decoded and re-serialized. Layouts that do not fit must be refused. Bit ownership is observed from the packet bytes.'),
 'C16': ('explicit enumeration of bounded descriptions, option combinations and generation orders through the real generator, deciding on the compiler and on the files written',
         'Every field in every mode and packet kind, all prologue and mode-word combinations (quick: every fifth to ninth), about 35 information classes times three transports, pairwise (thorough: all) option combinations including a built project, 14 descriptions generated alone and in every ordered pair, file split, inclusion and rotation, with different hash seeds; clashing names. Compiled with g++ -fsyntax-only. Not claimed: descriptions outside these grammars; two known uncompilable settings are listed.'),
    'C10': ('stateless model checking of the real client under a controlled scheduler (iterative preemption bounding) with a fault-injecting NATS library stand-in',
            'every schedule up to the preemption bound (2-3 in most scenarios) of 91 scenarios: 1-2 receivers per queue, 1-3 messages, timed/untimed waits, timeouts and spurious wakeups, resubscription, failures, destruction under waiters and callbacks; race and lifetime monitors on every execution'),
    'C11': ('explicit-state exploration of the real socket classes against a descriptor-ownership model of the operating system',
            'closed reachable state space (object bytes x descriptor table) of one UDP and one TCP socket, IPv4 and IPv6, every operation with every system call failing, each history ending in destruction; two objects plus a foreign descriptor to depth 6 (8 thorough); all 65536 ports for endpoints'),
    'C12': ('stateless model checking of the real send_packet functions under a controlled scheduler, network and clock',
            'every request combination against every cut of the reply stream into up to 3 reads, every truncation point, replacement, short write, failing system call and late acknowledge, over TCP, UDP and NATS; network threads interleaved with up to 1 (2) preemptions'),
    'C13': ('stateless model checking of real generated controllees under a controlled scheduler, network and clock',
            'generated controllees over UDP, TCP and NATS (identifier formats, several control types, data/context types): every sequence of up to 2-3 messages out of commands with every request combination, foreign, truncated and garbage messages and receive failures; listener start/stop and destruction interleaved up to the preemption bound; duplicated identifiers, both acknowledges failing')
,    'C14': ('stateless model checking of real generated controllers under a controlled scheduler, network and clock',
            'generated controllers over UDP, TCP and NATS: every sequence of commands with every request combination and fate (answered, unanswered, wrong, stale, failing), every sequence of datagrams (own types, foreign, truncated, shorter after longer, failures), listener registration, enabling, disabling and destruction interleaved up to the preemption bound')
,    'C18': ('stateless exhaustive exploration of edit histories of generated packets with field attributes',
            'Every CIF0-CIF2 field (optional and required, with reserved bits, enumerations, structures, variable length) and every attribute; all histories up to length 1-3 (quick) / 2-4 (thorough) of setting values and attributes, editing by reference, resetting fields and words, serializing and re-decoding, context and control packets; byte-exact against a reference encoder'),
}
