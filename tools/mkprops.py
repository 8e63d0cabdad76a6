#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

prop('C01', 'Every packed subfield sits at its V49.2 bits and setting it touches no other',
 "For every header, prologue, indicator, trailer, warning/error and field structure of the C++ library, each subfield occupies exactly the bit positions VITA 49.2 assigns to it, in network byte order. Setting a subfield changes only its own bits (and the enable bit that belongs to it), whatever was stored before and even when the value is wider than the subfield; reading it back returns the value, a reset clears value and enable, and packing then unpacking a structure reproduces every subfield. A default-constructed structure has defined contents and marks unspecified quantities with the standard's 'unspecified' codes.",
 ['inputs', 'histories'],
 "every structure, every subfield, every value of narrow subfields and all boundary/bit-walk values of wide ones, every background bit pattern of an enumerated set, all sequences of one and two (thorough: three) setter calls",
 "Existing tests set each subfield once from an all-zero structure with one or two values; cross-talk between subfields, over-wide values and non-zero backgrounds are never reached.",
 ['include/vrtgen/types/packed.hpp', 'include/vrtgen/packing/header.hpp', 'include/vrtgen/packing/prologue.hpp', 'include/vrtgen/packing/command.hpp', 'include/vrtgen/packing/indicator_fields.hpp', 'include/vrtgen/packing/trailer.hpp', 'include/vrtgen/packing/state_event_indicators.hpp', 'include/vrtgen/packing/cif0.hpp', 'include/vrtgen/packing/cif1.hpp', 'include/vrtgen/packing/cif7.hpp'],
 [('shift-and-mask accessors over a big-endian word', 'packed<T>::get/set'), ('pack_into/unpack_from of each structure', 'include/vrtgen/packing/*.hpp')],
 [('packed word', 'stored in network order', 'packed<T>::m_value')],
 ['setters, getters, resets, pack_into, unpack_from, size'])

prop('C02', 'Fixed-point conversion is exact on codes and rounds to nearest on values',
 "Converting any representable fixed-point code to floating point and back yields the same code, for every width and radix point the library uses. Converting a floating-point value inside the representable range yields the nearest code (halves away from zero), and the conversion is monotonic.",
 ['inputs'],
 "all 65536 codes for each 16-bit format; for 32- and 64-bit formats all codes within a window of every power of two, of zero and of both range ends, plus the half-step and quarter-step neighbours of each",
 "Tests convert a handful of sample values per format; rounding at half steps, negative codes and range ends are quantified over all codes.",
 ['include/vrtgen/types/fixed.hpp', 'include/vrtgen/types/swap.hpp'],
 [('scale and round', 'vrtgen::fixed::to_int'), ('divide by scale', 'vrtgen::fixed::to_fp')],
 None, ['return values of the conversions; getters/setters of fixed-point fields'])

prop('C03', 'A context packet always encodes exactly the fields set on it, after any edits',
 "After any sequence of setting, overwriting, resetting, editing through returned references, serializing, copying and re-parsing, the bytes of a generated context packet are exactly the VITA 49.2 encoding of the values currently set: header with right size, identifiers, timestamps, indicator words announcing exactly the present fields, then the present fields in standard order. An indicator word other than the first is present exactly when some field it announces is. Serializing has no side effect: repeating it gives the same bytes.",
 ['histories', 'configurations'],
 "all edit sequences up to a depth bound, over packets enumerated across every supported field of the three indicator words, required/optional modes and prologue configurations, started from the empty and from the fully populated packet",
 "Each test performs one fixed set/reset sequence on a packet with few fields; insertion offsets depend on which other fields are present and on the order in which they came and went, which is combinatorial.",
 ['src/vrtgen/backend/cpp/templates/packet.cpp.jinja2', 'src/vrtgen/backend/cpp/templates/packet.hpp.jinja2', 'src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2', 'src/vrtgen/backend/cpp/templates/macros/types/cif.jinja2', 'src/vrtgen/backend/cpp/templates/macros/types/prologue.jinja2', 'src/vrtgen/backend/cpp/templates/macros/function_defs/timestamp.jinja2', 'src/vrtgen/backend/cpp/templates/macros/function_defs/class_id.jinja2', 'src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2', 'src/vrtgen/parser/model/cif0.py', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/parser/model/cif2.py'],
 [('insert/erase bytes at tracked offsets, then recompute offsets and size', 'setters/reset/update_positions/sync templates')],
 [('packet bytes', 'the serialized packet being edited in place', 'm_data'), ('offset map', 'where each field starts', 'm_positions')],
 ['data(), size(), getters of every field'])

prop('C04', 'A data packet always carries exactly its payload, trailer and prologue',
 "After any sequence of payload, trailer, timestamp, identifier and packet-count edits, the bytes of a generated data packet are exactly header, identifiers, timestamps, the latest payload zero-padded to a 32-bit boundary, and the trailer if the packet has one, with the header's size and trailer flag agreeing and the class identifier's pad-bit count stating the padding. Shrinking or growing the payload never leaves remnants of earlier contents in the packet. Reading the payload returns the latest payload bytes.",
 ['histories', 'configurations'],
 "all edit sequences up to a depth bound over payload lengths 0..9 and one large, across data packet configurations with/without stream id, class id, timestamps, required/optional/absent trailer, user-defined trailer bits",
 "Tests set one payload on one packet; remnants and trailer placement depend on the history of payload sizes.",
 ['src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2', 'src/vrtgen/backend/cpp/templates/packet.cpp.jinja2', 'src/vrtgen/parser/model/data.py', 'include/vrtgen/packing/trailer.hpp'],
 [('payload setter resizing the byte vector in front of the trailer', 'data.jinja2')],
 [('packet bytes', 'serialized packet edited in place', 'm_data')],
 ['data(), payload(), payload_size(), trailer(), header()'])

prop('C05', 'Command and state-acknowledge packets encode exactly what was set on them',
 "After any sequence of edits, a generated control packet and a state-acknowledge packet are exactly the VITA 49.2 encoding of the values set: header with acknowledge and cancellation indicators, identifiers, timestamps, control/acknowledge mode word, message identifier, controllee then controller identifier in the configured 32-bit or UUID format, indicator words, fields. Mode bits fixed by the configuration always have their configured value and configurable ones only their latest set value.",
 ['histories', 'configurations'],
 "all edit sequences up to a depth bound across control and acknowledge packet configurations: action modes, request/permission bits required/optional/absent, identifier formats none/word/uuid for both parties, timing control, stream/class/timestamp prologues",
 "Tests exercise single configurations with single assignments; offsets of identifiers and fields depend on the whole configuration and the edit history.",
 ['src/vrtgen/backend/cpp/templates/macros/function_defs/command.jinja2', 'src/vrtgen/backend/cpp/templates/packet.cpp.jinja2', 'src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2', 'src/vrtgen/parser/model/command.py', 'include/vrtgen/packing/command.hpp'],
 [('mode-word setters and identifier offsets', 'command.jinja2')],
 [('packet bytes', 'serialized packet edited in place', 'm_data')],
 ['data(), cam(), message_id(), controllee_id(), controller_id(), field getters'])

prop('C06', 'A validation/execution acknowledge carries exactly the warnings and errors set',
 "After any sequence of setting, overwriting, resetting (one field or a whole indicator word), editing through returned references and serializing warnings and errors, the bytes of a generated acknowledge packet are exactly the VITA 49.2 encoding of the current ones: the mode word's warning and error flags tell whether any are present, warning indicator words precede error indicator words, then the warning responses and the error responses follow in standard order. A word is present exactly when it announces something, and serializing repeatedly gives the same bytes.",
 ['histories', 'configurations'],
 "all edit sequences up to a depth bound over warnings/errors of fields in all three indicator words, for acknowledge packets with warnings only, errors only and both permitted",
 "Tests set at most a couple of warnings once; nothing covers the third word, resets, mixtures of warnings and errors or repeated serialization.",
 ['src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2', 'src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2', 'src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2', 'src/vrtgen/parser/model/command.py'],
 [('insert/erase of indicator words and responses at tracked offsets', 'weif.jinja2, ack_packet.cpp.jinja2')],
 [('packet bytes', 'serialized packet edited in place', 'm_data')],
 ['data(), <field>_warnings(), <field>_errors(), cam(), wif/eif words'])

prop('C07', 'Decoding any well-formed packet recovers its contents and stays editable',
 "Constructing a packet object from any well-formed encoding of its type, whoever produced it, yields exactly the encoded values for every field, absent exactly where the encoding omits them, and serializing it again reproduces the input bytes. A decoded packet behaves under further edits exactly like one that was built locally, and extra bytes after the packet's own length have no influence.",
 ['inputs', 'histories'],
 "all field-presence combinations (up to a bound) of encodings produced by an independent encoder, for context, data, command, state-ack and validation/execution-ack packets, each followed by all single and double edits",
 "Tests decode only bytes their own encoder produced, in one or two presence combinations, and never edit a decoded packet.",
 ['src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2', 'src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2', 'src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2'],
 [('unpack constructor recomputing offsets from the indicator words', 'constructors.jinja2')],
 [('offset map', 'where each field starts', 'm_positions')],
 ['unpack constructor, getters, data()'])

prop('C08', 'A packet type recognises exactly the packets of its own configuration',
 "Every packet produced from a packet type, in whatever state, is accepted by that type's matcher. A packet is rejected whenever it differs from the configuration in packet type, acknowledge/cancellation or trailer/time-mode/spectrum indicators, class-identifier presence or value, timestamp kinds, fixed mode bits or identifier formats, or lacks a required field indicator; settings the configuration leaves open never cause rejection.",
 ['configurations', 'inputs'],
 "the full cross matrix of all enumerated packet configurations against packets of every other configuration, plus every single-bit change of the matched words of an accepted packet",
 "Tests check a few accept cases and isolated rejects; confusion between two configured types is a property of the pair matrix.",
 ['src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2'],
 [('static matcher comparing header, class id and mode word', 'match.jinja2')],
 None, ['match()'])

prop('C09', 'Malformed or truncated packets are rejected without touching foreign memory',
 "Offering any byte string to a packet type's matcher or decoder never reads or writes outside the supplied bytes and the object, and never crashes: the matcher reports a mismatch, or the decoder throws an exception, when the bytes are too short for the header, for the size the header announces, or for the fields the indicator words announce.",
 ['inputs'],
 "every truncation length of valid packets, every announced size from 0 to beyond the buffer, every single indicator bit flipped on, for all enumerated packet types, under address and undefined-behaviour sanitizers",
 "No test feeds malformed input; memory safety is quantified over all inputs.",
 ['src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2', 'src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2'],
 [('matcher and unpack constructor', 'match.jinja2, constructors.jinja2')],
 None, ['match(), unpack constructor, getters'])

prop('C10', 'The NATS client neither loses, duplicates, reorders nor deadlocks on messages',
 "Under every interleaving of delivery callbacks, receiving threads and shutdown, each message delivered to the client's subscription or inbox is handed out exactly once, in arrival order, to a receiver of that queue, and never freed while in use or leaked. A receiver that waits is woken when a message for its queue arrives, returns empty-handed only after its timeout or at shutdown, and destruction always terminates with every waiter released and every library object destroyed exactly once. What is published reaches the library with its subject, data and reply subject unchanged.",
 ['schedules'],
 "all thread interleavings up to a preemption bound of small scenarios (1-2 receivers per queue, 1-3 messages, timed and untimed waits, stop and destruction) executed on the real client with controlled mutexes and condition variables and a fake NATS library",
 "There are no tests of the client; lost wakeups and wrong-mutex races appear only in particular interleavings.",
 ['include/vrtgen/nats/client.hpp', 'include/vrtgen/nats/message.hpp', 'include/vrtgen/nats/utility.hpp'],
 [('mutex + condition variable per queue', 'nats/client.hpp')],
 [('message queues', 'received but not yet fetched messages', 'm_msg_queue, m_inbox_msg_queue')],
 ['next_msg/next_inbox_msg results, thread termination, destroy calls'])

prop('C11', 'Sockets own their descriptors: each opened once, closed once, never another',
 "Under any sequence of binding, connecting, accepting, closing and destroying, and under any failure of the underlying system calls, a socket object closes every descriptor it obtained exactly once, at the latest on destruction, and never closes or uses a descriptor it does not own. It reports itself open exactly while it holds an open descriptor, and its configured source and destination endpoints are those actually used for traffic.",
 ['histories', 'fault_sequences'],
 "all operation sequences up to a depth bound on UDP and TCP sockets, with every system call failing at every point, against a descriptor-ownership model of the operating system interface",
 "No test exercises sockets at all; descriptor reuse makes a double close visible only if another descriptor was opened in between.",
 ['include/vrtgen/socket/socket_base.hpp', 'include/vrtgen/socket/udp.hpp', 'include/vrtgen/socket/tcp.hpp', 'include/vrtgen/socket/socket_endpoint.hpp'],
 [('RAII around socket/close', 'socket_base.hpp, tcp.hpp')],
 [('descriptor', 'the open socket, or -1', 'm_socket, m_connected_socket')],
 ['system calls issued; is_open(), src(), dst()'])

prop('C12', 'Sending a command returns precisely the requested acknowledges or an error',
 "Sending a control packet transmits its bytes exactly once and completely; each requested acknowledge is then filled, in request order, with the contents of a complete acknowledge packet that matched its type, and unrequested ones are left untouched. However the network segments, coalesces, delays or drops the replies, the call returns either all requested acknowledges or throws; it never returns a partially received or mismatched acknowledge and never reads beyond the received bytes.",
 ['fault_sequences', 'configurations'],
 "all segmentations of the reply byte stream into reads (up to a bound), all short-write splits, errors, end-of-stream, timeouts, wrong-type replies, for all combinations of requested acknowledges over UDP, TCP and NATS transports",
 "No test sends a packet; segmentation and failure points are environment nondeterminism.",
 ['include/vrtgen/utility.hpp', 'include/vrtgen/nats/utility.hpp', 'include/vrtgen/socket/tcp.hpp', 'include/vrtgen/socket/udp.hpp'],
 [('send then await each requested acknowledge', 'send_packet overloads')],
 None, ['bytes sent; acknowledge objects; exceptions'])

prop('C13', 'A controllee answers each command once per requested ack, with its identifiers',
 "For every sequence of incoming messages, a generated controllee invokes its validate handler exactly when a matching command requests validation and its execute handler exactly when execution or state is requested, once per command, and sends exactly one acknowledge per request back to the requester, in the order validation, execution, state. Each acknowledge carries the command's stream, message, controllee and controller identifiers and the flag of its own kind; other messages and failed receives cause neither handler calls nor replies, and destruction stops the listener.",
 ['histories', 'configurations', 'schedules'],
 "all message sequences up to a depth bound over commands with every request-bit combination, foreign, truncated and garbage messages and receive failures, for UDP, TCP and NATS controllees, with listener start/stop interleaved",
 "The generated controllee is only compiled, never run, by the tests.",
 ['src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2', 'src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2'],
 [('listener loop: match, dispatch, copy identifiers, reply', 'controllee_base.hpp.jinja2')],
 [('listening flag', 'whether the listener thread should run', 'm_listening')],
 ['handler invocations; replies sent'])

prop('C14', 'A controller numbers its commands and dispatches each data/context packet once',
 "Every command a generated controller sends carries the next message identifier (consecutive, starting at one) and the configured controller identifier, and requests acknowledgement objects exactly for the request bits set. Every received data or context packet reaches exactly the registered listeners of the types it matches, once, with contents taken from that one datagram; malformed, foreign or failed receives reach none, and receiving can be enabled and disabled repeatedly without losing the thread.",
 ['histories', 'configurations', 'schedules'],
 "all sequences up to a depth bound of sends with every request combination, received datagrams of each type, shorter-after-longer datagrams, garbage, failures, listener registration and enable/disable",
 "The generated controller is only compiled, never run, by the tests.",
 ['src/vrtgen/backend/cpp/templates/controller.hpp.jinja2', 'src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2'],
 [('receiver loop and send functions', 'controller.hpp.jinja2, controller.jinja2')],
 [('message counter', 'next message identifier', 'm_message_id'), ('receiving flag', 'whether the receiver thread should run', 'm_receiving')],
 ['bytes sent; listener invocations'])

prop('C15', 'A YAML description is either rejected or yields exactly the packets it says',
 "Every packet description whose settings are valid is accepted, and the resulting packet model has exactly the described elements enabled, required or optional, with the described values, independent of the order in which keys or packets are written and of any other packet in the same or an earlier file. Every description with an unknown key, an illegal mode or value, a reserved identifier, or a combination the standard forbids is rejected with an error.",
 ['configurations'],
 "all single settings of every key (each legal and illegal value), all pairs of keys within a section in both orders, all pairs of packet documents in both orders",
 "Parser tests check selected keys one at a time; order independence and cross-packet isolation are pairwise properties.",
 ['src/vrtgen/parser/loader.py', 'src/vrtgen/parser/value.py', 'src/vrtgen/parser/__init__.py', 'src/vrtgen/parser/model'],
 [('YAML constructors, validation and parsing of mappings', 'parser/')],
 None, ['parsed packet model; exceptions'])

prop('C16', 'Generation is deterministic, isolated and always yields compilable code',
 "For every accepted description and every combination of command-line options, generation succeeds and its output compiles; generating twice gives identical files, and the code of a packet does not depend on which other packets, files or runs it was generated with. A command acknowledged by the description gets its acknowledge types, whatever the definition order.",
 ['configurations'],
 "all enumerated packet descriptions, alone and in pairs/orders, with and without project mode, for each command transport, with repeated runs",
 "The build compiles one fixed set of examples.",
 ['src/vrtgen/main.py', 'src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/backend/cpp/type_helpers.py', 'src/vrtgen/backend/jinja.py', 'src/vrtgen/backend/cpp/templates'],
 [('Jinja generation from the packet model', 'backend/cpp/generator.py')],
 None, ['files written; compiler exit status'])

prop('C17', 'UUIDs keep their 128 bits through text, bytes, copies and packets',
 "For every UUID, setting it from text (32 hexadecimal digits of either case in 8-4-4-4-12 grouping) and formatting it gives the same text in lower case; packing writes its sixteen bytes in the order the text shows them and unpacking sixteen bytes gives the UUID with that text. Setting a value replaces the earlier one completely, and a default UUID is all zero.",
 ['inputs', 'histories'],
 "every byte position with every byte value over several backgrounds, every pair of set bits, all sequences up to a depth of set / unpack / copy operations over an enumerated alphabet",
 "Tests convert one or two samples.",
 ['include/vrtgen/types/uuid.hpp'],
 [('text parsing and byte storage', 'types/uuid.hpp')],
 None, ['set/get, constructor, pack_into/unpack_from'])

prop('C18', 'Field attributes accompany exactly the fields present, in standard order',
 "When a packet description requests field attributes, every present field of the indicator words is encoded as its requested attributes in standard order (its current value first when requested), absent fields contribute nothing, and the packet size agrees; decoding returns each attribute's value.",
 ['histories', 'configurations'],
 "all edit sequences up to a depth bound over packets with enumerated attribute sets and required/optional fields of every indicator word",
 "Tests cover a single first-word required field with two attributes.",
 ['src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2', 'src/vrtgen/backend/cpp/templates/macros/types/cif.jinja2', 'src/vrtgen/parser/model/cif7.py', 'include/vrtgen/packing/cif7.hpp'],
 [('attribute structures per field', 'packet.hpp.jinja2, cif.jinja2')],
 None, ['data(), <field>_attributes()'])

prop('C19', 'User-defined bit layouts never overlap and round-trip independently',
 "For every legal user-defined stream identifier, trailer or discrete I/O layout, each declared part gets its own bits inside the word, parts never overlap or spill, the parts of a trailer own the enable bits that belong to their indicator bits, and setting any part to any of its values leaves all others unchanged and reads back equal, also after serializing and decoding the packet. Constant parts have their declared value; layouts that do not fit are rejected.",
 ['configurations', 'inputs'],
 "all ordered layouts of up to three (thorough: four) parts over the kinds boolean, enable/indicator pair, enumeration and integer with boundary widths, and all part values (all for narrow, boundary for wide) in all pairs",
 "Tests use one layout per structure.",
 ['src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2', 'src/vrtgen/parser/model/cif1.py', 'src/vrtgen/parser/model/data.py', 'src/vrtgen/parser/model/base.py', 'src/vrtgen/parser/loader.py'],
 [('bit position allocation', 'parser/model'), ('generated user structures', 'user_class.jinja2')],
 None, ['generated structure getters/setters; data()'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
