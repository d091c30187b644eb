#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The list below is the single source of the property texts."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BS_H, BS_C = "inc/midi/midi1_byte_stream.h", "src/midi1_byte_stream.cpp"

prop("C01", "Any MIDI 1 byte stream decodes to exactly the right messages",
 "For every sequence of bytes fed to the MIDI 1 byte stream parser, the packets reported are exactly the channel voice, system common and real-time messages the MIDI 1.0 rules assign to that sequence, each reported once, in order, on the parser's group, as soon as its last byte arrives. "
 "Running status continues across complete channel messages and across real-time bytes inside a message, and is cancelled by any system common or SysEx status. "
 "Undefined status bytes, stray data bytes, stray end-of-SysEx bytes and unfinished messages produce nothing and never corrupt a later message.",
 ["inputs", "histories"], "every byte sequence (all 256 byte values at every position), every interleaving of real-time bytes, from every parser state",
 "The tests feed a few dozen hand-written sequences; the guarantee is about all byte histories, where errors hide in state left behind by an interrupted, unfinished or undefined message.",
 [BS_C, BS_H],
 [("byte dispatch and message assembly", BS_C + ": midi1_byte_stream_parser::feed"), ("real-time pass-through", BS_C + ": system_realtime"), ("system common / running status cancel", BS_C + ": system_common"), ("channel voice start", BS_C + ": channel_voice")],
 [("m_packet", "message under construction / running status", BS_H), ("m_packet_byte, m_num_missing_bytes", "position in the message", BS_H)],
 ["packet callback of the parser"])

prop("C02", "Byte-stream SysEx is reported as well-formed, lossless SysEx7 packets",
 "When no SysEx handler is installed, every SysEx in a byte stream that is terminated by its end byte is reported as either one complete packet or one start packet, any number of continue packets and one end packet on the parser's group, and the concatenated payload is exactly the data bytes between start and end, whatever their number and whatever real-time bytes are interleaved. "
 "A SysEx cut off by another status byte never gets an end (or complete) packet and never leaks bytes into a later message; an empty SysEx reports nothing.",
 ["inputs", "histories"], "every SysEx length (within the bound), every data content, every position of real-time or aborting bytes, every preceding stream",
 "Packet boundaries are every six payload bytes; tests use a handful of lengths and no systematic placement of interleaved or aborting bytes.",
 [BS_C],
 [("packet payload accumulation", BS_C + ": sysex_continue_packet"), ("final packet", BS_C + ": sysex_end_packet")],
 [("m_packet", "SysEx packet under construction", BS_H)], ["packet callback of the parser"])

prop("C03", "Byte-stream SysEx handler gets each complete SysEx exactly once, intact",
 "With a SysEx handler installed, every SysEx in the byte stream that has a complete one- or three-byte manufacturer ID and is terminated by its end byte is delivered exactly once, with the right manufacturer and exactly its data bytes, regardless of length and interleaved real-time bytes, and is never reported as packets. "
 "A SysEx that was cut off by another status byte, lacks a complete manufacturer ID, or started or ended while callbacks were disabled is never delivered, and never contaminates a later one.",
 ["inputs", "histories"], "every byte sequence and every enable/disable history, up to large message sizes that force buffer growth",
 "Tests deliver a few messages; mixing of aborted, incomplete, disabled and very long messages needs history enumeration.",
 [BS_C],
 [("manufacturer and data collection", BS_C + ": sysex_continue_callback"), ("delivery", BS_C + ": sysex_end_callback"), ("start", BS_C + ": sysex_start")],
 [("m_sysex", "SysEx being collected", BS_H)], ["sysex callback of the parser"])

prop("C04", "Parser output is independent of chunking; reset, group, enable are exact",
 "How a byte stream is split into feed calls, and which overload is used, never changes what the parser reports. "
 "After a reset the parser behaves like a new one with the same group and enable setting; while callbacks are disabled nothing at all is reported and re-enabling them resumes exactly the messages a continuously enabled parser would report from then on (except that a SysEx begun while disabled is not handed to the SysEx handler); a group change applies to every message whose status byte follows it.",
 ["inputs", "histories", "configurations"], "every byte sequence, every partition into chunks, every placement of reset, enable/disable and group changes",
 "Partitions and control operations multiply every byte history; tests only cover a few fixed points.",
 [BS_C, BS_H],
 [("range feed", BS_C + ": feed(begin,end), " + BS_H + ": feed(data,n)"), ("reset", BS_C + ": reset"), ("enable / group", BS_H + ": enable_callbacks, set_group")],
 None, ["packet and sysex callbacks"])

prop("C05", "Packet to byte-stream conversion is the exact inverse of parsing",
 "For every packet that carries MIDI 1 content (system, MIDI 1 channel voice, SysEx7), conversion writes the exact MIDI 1 bytes of that packet (never more than eight, SysEx start and end bytes included where the packet starts or ends a SysEx), and parsing the bytes of any sequence of such packets yields the same messages again. "
 "For every other packet, and for undefined system statuses, conversion yields zero bytes, and never writes outside the eight-byte buffer. "
 "Building a packet from status and data bytes yields that message for every defined channel or system status and an empty packet for every other status.",
 ["inputs", "histories"], "all packets (all types, statuses, payload sizes and data bytes) and all packet sequences within the bound",
 "Tests convert a few packets; all 2^16 first-halves of all packet types are enumerable only systematically.",
 [BS_C, BS_H],
 [("packet to bytes", BS_C + ": to_midi1_byte_stream"), ("byte count", BS_H + ": midi1_byte_stream_size"), ("bytes to packet", BS_H + ": from_midi1_byte_stream")], None, ["return values, buffer contents"])

SX_H, SX_C, COL_H, COL_C = "inc/midi/sysex.h", "src/sysex.cpp", "inc/midi/sysex_collector.h", "src/sysex_collector.cpp"

prop("C06", "SysEx7 messages survive packetisation and reassembly unchanged",
 "For every valid SysEx7 message (any one- or three-byte manufacturer, any length, any 7-bit data) and every group, sending it as packets yields a well-formed sequence: one complete packet when it fits, otherwise one start packet, full continue packets and one end packet, no stray or missing packets, all on the given group, payload exactly manufacturer plus data. "
 "Feeding that sequence to a collector delivers exactly one message equal to the original, and the collector is then ready for the next one.",
 ["inputs", "histories"], "every manufacturer form, every data length through several packet boundaries, every group, consecutive messages",
 "Off-by-one errors sit at particular lengths (multiples of the payload size) in combination with the manufacturer ID width; tests sample a few lengths.",
 [SX_H, COL_C],
 [("packetisation", SX_H + ": send_sysex7, as_sysex7_packets"), ("reassembly", COL_C + ": sysex7_collector::feed")], None, ["packets sent", "collector callback"])

prop("C07", "SysEx8 messages survive packetisation and reassembly unchanged",
 "For every SysEx8 message (any one- or three-byte manufacturer, any length, any 8-bit data), stream id and group, sending it as packets yields one complete packet when it fits, otherwise one start packet, full continue packets and one end packet, all carrying the given stream id and group, with payload exactly the two-byte manufacturer id plus the data. "
 "Feeding that sequence to a collector delivers exactly one message equal to the original with the right stream id, and the collector is then ready for the next one.",
 ["inputs", "histories"], "every manufacturer form, every data length through several packet boundaries, every stream id and group",
 "Lengths at packet boundaries differ by manufacturer form; tests sample a few lengths.",
 [SX_H, COL_C],
 [("packetisation", SX_H + ": send_sysex8, as_sysex8_packets"), ("reassembly", COL_C + ": sysex8_collector::feed")], None, ["packets sent", "collector callback"])

prop("C08", "SysEx7 collector delivers exactly the well-framed messages of any stream",
 "For every sequence of packets fed to a SysEx7 collector, a message is delivered exactly when a complete packet arrives, or when an end packet arrives after a start packet and only continue packets in between; its manufacturer and data are exactly the bytes carried by those packets. "
 "Continue or end packets without a start, messages broken off by a new start, malformed packets and packets of other kinds never cause a delivery and never add, drop or reorder a byte of another message; a reset discards the message in progress and nothing else.",
 ["inputs", "histories"], "every packet sequence (all formats, all payload sizes including malformed ones, other packet types, resets) up to the depth bound, from every collector state",
 "Tests exercise about ten fixed sequences; state leakage appears only for particular histories.",
 [COL_C, COL_H],
 [("framing state machine", COL_C + ": sysex7_collector::feed"), ("reset", COL_C + ": sysex7_collector::reset")],
 [("m_state, m_manufacturerIDBytesRead, m_sysex7", "message in progress", COL_H)], ["collector callback"])

prop("C09", "SysEx8 collector delivers exactly the well-framed messages of any stream",
 "For every sequence of packets fed to a SysEx8 collector, a message is delivered exactly when a complete packet arrives, or when an end packet arrives for the most recently started stream after its start packet and any continue packets of that stream; manufacturer, data and stream id are exactly those carried by these packets. "
 "Continue and end packets of another stream, packets without a start, malformed packets and packets of other kinds never cause a delivery and never alter the message in progress; a new start or complete packet abandons an unfinished message, and a reset discards it.",
 ["inputs", "histories"], "every packet sequence over several stream ids, all formats and sizes, other packets and resets up to the depth bound",
 "Interleaving of streams with broken framing is a history property; tests exercise a handful of sequences.",
 [COL_C, COL_H],
 [("framing state machine", COL_C + ": sysex8_collector::feed"), ("manufacturer decoding", COL_C + ": sysex8_collector::feed")],
 [("m_state, m_stream_id, m_manufacturer_id_state, m_sysex8", "message in progress", COL_H)], ["collector callback"])

prop("C10", "Collector size limit: never exceeded, never drops or mixes fitting messages",
 "With a maximum data size set, a SysEx7 or SysEx8 collector never delivers a message with more data bytes than the limit in force, and still delivers every message whose data fits, unchanged, also when the limit is changed while a message arrives. "
 "A message that exceeds the limit is dropped as a whole and has no influence on any later message; a limit of zero means unlimited.",
 ["inputs", "histories", "configurations"], "every limit, every message length around it, every packetisation, every sequence of oversized, fitting and unfinished messages",
 "The limit interacts with packet boundaries, buffer capacity and history; tests check two fixed limits.",
 [COL_C],
 [("limit check", COL_C + ": sysex7_collector::feed, sysex8_collector::feed, set_max_sysex_data_size")], None, ["collector callback"])

CV_H, M1_H, M2_H, TY_H = "inc/midi/channel_voice_message.h", "inc/midi/midi1_channel_voice_message.h", "inc/midi/midi2_channel_voice_message.h", "inc/midi/types.h"

prop("C11", "MIDI 1 <-> MIDI 2 channel voice translation is faithful and lossless",
 "Every MIDI 1 channel voice message that has a direct MIDI 2 counterpart translates to the MIDI 2 message of the same kind, group, channel and note/controller/program with the correctly upscaled value (note on with velocity zero becoming note off), and translating back yields the original message. "
 "Every MIDI 2 message translated to MIDI 1 keeps kind, group, channel and index with the value correctly downscaled, and a MIDI 2 note on never becomes a MIDI 1 note off (velocity at least one). "
 "Messages without a direct counterpart (bank select, data entry, high-resolution velocity and (N)RPN controllers, program changes with bank, notes with attributes, per-note and registered/assignable messages) are refused in both directions.",
 ["inputs"], "all 2^25 MIDI 1 channel voice packets; all MIDI 2 channel voice statuses, channels, groups, indices and boundary-complete value sets",
 "Tests sample a few messages per kind; refused sets and value edges need complete enumeration.",
 [CV_H], [("translation", CV_H + ": as_midi2_channel_voice_message, as_midi1_channel_voice_message")], None, ["returned message"])

prop("C12", "Resolution scaling follows the MIDI 2 rules for every value and bit width",
 "Scaling any value up from one bit width to a larger one maps minimum to minimum, centre to centre and maximum to maximum, is strictly increasing, and follows the MIDI 2.0 min-center-max (bit repeat) rule; the fixed-width upscalers and the generic one agree wherever both apply. "
 "Scaling down keeps the most significant bits, so that scaling an upscaled value down again yields the original value, and downscaling is monotone, so velocity, pitch bend and controller values of any resolution survive a round trip through higher resolution.",
 ["inputs"], "all values of all source widths up to the bound, all target widths, all 2^32 values for downscaling",
 "Tests compare a few table values; the rule is about every value and every pair of widths.",
 [TY_H], [("upsampling", TY_H + ": upsample_*"), ("downsampling", TY_H + ": downsample_*")], None, ["return values"])

prop("C13", "Float conversions of typed values clamp, are monotone and round-trip",
 "Every 16-bit velocity and 32-bit controller value converts to a number in [0,1], every pitch bend to [-1,1] and every note pitch to [0,128), monotonically and with exact minimum, centre and maximum, and converting back from double restores the value (pitch bend within one step). "
 "Constructing any of these from any finite or infinite float or double clamps out-of-range input to the nearest limit, is monotone, and yields a value whose own conversion is within the type's resolution of the input.",
 ["inputs"], "all 2^16 / 2^32 stored values; all 2^32 float bit patterns except NaN; structured double grids around every representable step",
 "Rounding and clamping errors appear only at isolated values.",
 [TY_H], [("conversions", TY_H + ": impl::from_float_0_1, to_float_0_1, pitch_7_9, pitch_7_25, pitch_bend, pitch_increment constructors")], None, ["values and conversions"])

prop("C14", "Typed pitch and controller arithmetic saturates, never wraps",
 "Adding a pitch increment to a pitch or to another increment, a controller increment to a controller value, or a detune to a pitch yields the mathematically exact sum when it is representable and otherwise the nearest representable limit, in every operator form. "
 "Multiplying pitch bend by pitch bend sensitivity yields the exact scaled deviation rounded toward zero at the fixed-point resolution and clamped to the increment's range, zero at centre, in either operand order.",
 ["inputs"], "all pairs from boundary-complete value sets, and all values of one operand against boundary sets of the other",
 "Wrap-around occurs only at extreme operand pairs.",
 [TY_H], [("operators", TY_H + ": operator+, operator+=, operator*")], None, ["operator results"])

prop("C15", "Channel voice messages read back exactly the fields they were built from",
 "For every MIDI 1 and MIDI 2 channel voice message kind and every combination of its field values, the built packet carries the specified message type, status, group and channel, and every reader of that field (message view and value accessors) returns exactly the value supplied (at the message's resolution), with every other field and all reserved bits unaffected.",
 ["inputs"], "all builders, all values of each field (exhaustively for fields up to 16 bits, boundary-complete bit patterns for 32-bit fields), all pairs of fields",
 "Field overlap or masking bugs show only for particular bit combinations.",
 [M1_H, M2_H, CV_H], [("builders", M1_H + ", " + M2_H + ": make_*"), ("views", M1_H + ", " + M2_H)], None, ["packet words, accessors"])

prop("C16", "Protocol-agnostic helpers classify and read every packet correctly",
 "For every packet, the protocol-agnostic channel voice predicates are true exactly for packets of a MIDI 1 or MIDI 2 channel voice message of that kind, with note on with velocity zero in MIDI 1 counted as note off and not as note on, and at most one kind matching. "
 "For every matching packet the protocol-agnostic readers return the note, pitch, velocity, controller, pressure, program and pitch bend of that message with MIDI 1 values correctly upscaled.",
 ["inputs"], "all first words (2^32) of packets for predicates; all MIDI 1 messages and boundary-complete MIDI 2 messages for readers",
 "Predicates must be right on all packet types and statuses; tests sample matching ones.",
 [CV_H], [("predicates and readers", CV_H + ": is_*_message, get_*")], None, ["return values"])

UP_H, UP_C = "inc/midi/universal_packet.h", "src/universal_packet.cpp"
prop("C17", "Packet size, byte access, equality and text form are exact for all packets",
 "For every packet the number of words follows from its message type, writing any byte or header field changes that byte or field only and reads back, and two packets are equal exactly when their types match and all words belonging to the packet are equal. "
 "Writing a packet to a stream and reading it back yields an equal packet, leaves the stream's formatting state unchanged, and reading malformed or truncated text reports failure on the stream.",
 ["inputs", "histories"], "all message types and byte positions and values, all single- and double-bit differences, all short texts over a hex/space/invalid alphabet",
 "Tests check a few packets and no systematic single-bit or malformed-text space.",
 [UP_H, UP_C], [("byte access and comparison", UP_H), ("text input/output", UP_C)], None, ["accessors, streams"])

ST_H = "inc/midi/stream_message.h"
prop("C18", "Stream messages read back exactly the fields they were built from",
 "Every UMP stream message (endpoint discovery and info, device identity, stream configuration, function block discovery and info) built from any legal field values (function blocks 0 to 31, 1 to 16 groups spanned) has the stream message type, the right format and status, and its view returns exactly the supplied values, with no field disturbing another. "
 "Views are offered exactly for packets of the matching stream status.",
 ["inputs"], "all builders; all values of fields up to 16 bits, boundary-complete patterns of wider ones, all field pairs",
 "Overlapping or truncated fields appear only for particular values.",
 [ST_H], [("builders and views", ST_H)], None, ["packet words, views"])

prop("C19", "Endpoint, function block and product names survive segmentation",
 "Sending an endpoint name or function block name of any length produces one complete packet or a start, continue..., end sequence of stream messages, never an oversized or missing one, and concatenating the payload text of these packets in order yields the name byte for byte, including UTF-8 characters; a product instance id is carried likewise within its length limit. "
 "Every packet of a function block name carries the function block number.",
 ["inputs", "histories"], "all lengths across several packet boundaries, all byte contents without NUL, all function blocks",
 "Packet boundary lengths and non-ASCII bytes are not covered by the fixed names in the tests.",
 [ST_H], [("segmentation", ST_H + ": send_endpoint_name, send_function_block_name, send_product_instance_id"), ("text payload", ST_H + ": payload_as_string")], None, ["packets sent"])

FX_H = "inc/midi/flex_data_message.h"
prop("C20", "Flex data messages read back exactly the fields they were built from",
 "Every flex data message (tempo, time and key signature, metronome, chord, text and generic) built from any field values carries the flex data message type and the right group, format, address, channel, status bank and status, and its payload words hold exactly the supplied values at their specified positions. "
 "Text of up to twelve bytes reads back unchanged.",
 ["inputs"], "all builders; all values of each field; all text lengths and bytes",
 "Bit-field packing bugs appear only for particular values.",
 [FX_H], [("builders and view", FX_H)], None, ["packet words, view"])

SY_H, UT_H = "inc/midi/system_message.h", "inc/midi/utility_message.h"
prop("C21", "System and utility messages read back exactly the fields built",
 "Every system message (all statuses, song position, song select, MTC quarter frame) with 7-bit data bytes, and utility message (no-op, JR clock, JR timestamp, generic) built from any field values carries the right message type, group, status and values, and its view and accessors return exactly what was supplied.",
 ["inputs"], "all builders and all field values",
 "Tests sample a few values per message.",
 [SY_H, UT_H], [("builders and views", SY_H + ", " + UT_H)], None, ["packet words, views"])

prop("C22", "A typed view is offered exactly for packets of that message kind",
 "For every packet, each message-kind predicate is true, and the corresponding checked view is offered, exactly when the packet's message type, status and (for SysEx packets) payload size belong to that kind; the view then reports the packet's own group, status and payload. "
 "No packet is accepted by the views of two different message types.",
 ["inputs"], "all values of the first packet word's type, status and size bits (2^32 first words)",
 "Tests check a few positive and negative packets per view.",
 ["inc/midi/data_message.h", "inc/midi/extended_data_message.h", SY_H, UT_H, M1_H, M2_H, FX_H, ST_H],
 [("predicates and checked views", "is_*_message / as_*_view in the listed headers")], None, ["returned optional views"])

US_H, US_C = "inc/midi/universal_sysex.h", "src/universal_sysex.cpp"
prop("C23", "Identity request/reply and universal SysEx envelope are faithful",
 "An identity request or reply built for any device id and identity (manufacturer, family, model, revision) is valid 7-bit universal SysEx data with the right type and subtypes, and its checked view is offered and returns exactly the supplied values, for one- and three-byte manufacturers. "
 "For any SysEx, the universal and identity views are offered exactly when the message has the universal type, required subtypes and required length.",
 ["inputs"], "all device ids, boundary-complete identities, all types/subtypes, all lengths up to the bound",
 "Tests check two identities and few malformed messages.",
 [US_H, US_C], [("builders and views", US_H + ", " + US_C)], None, ["message bytes, views"])

CI_H, CI_C = "inc/midi/capability_inquiry.h", "src/capability_inquiry.cpp"
prop("C24", "MIDI-CI discovery, management and process messages read back as built",
 "Every MIDI-CI discovery, endpoint information, invalidate-MUID, ACK/NAK and process inquiry message built from any legal field values is valid 7-bit universal SysEx with the right CI subtype, version, device id and source/destination MUID, its checked view is offered, and every field reads back exactly as supplied.",
 ["inputs"], "all builders; all values of 7-bit fields, boundary-complete MUIDs and sizes, all text/data lengths up to the bound",
 "Tests use one or two value sets per message.",
 [CI_H, CI_C], [("builders and views", CI_H + ", " + CI_C)], None, ["message bytes, views"])

prop("C25", "MIDI-CI profile configuration messages read back as built",
 "Every MIDI-CI profile message (inquiry and reply with any lists of enabled and disabled profiles, added/removed, set on/off, enabled/disabled report, details inquiry and reply, specific data of any size) built from any legal values is valid 7-bit universal SysEx with the right subtype and header, its checked view is offered, and counts, profile ids, channels (none for set-off), targets and data read back exactly as supplied.",
 ["inputs"], "all builders; all list sizes and data sizes up to the bound, boundary-complete ids and channel counts",
 "Tests use small fixed lists.",
 [CI_H, CI_C], [("builders and views", CI_H + ": profile_configuration")], None, ["message bytes, views"])

prop("C26", "MIDI-CI property exchange messages and headers read back as built",
 "Every MIDI-CI property exchange message (capabilities, get, set, subscription, notify and their replies) built from any legal request id, header, body and chunk numbers is valid 7-bit universal SysEx, its checked view is offered, and request id, header, number of chunks, chunk number and body read back exactly as supplied. "
 "The headers generated from resource names, commands, ids and options whose texts need no JSON escaping are well-formed JSON objects containing exactly the supplied keys and values, canonical integers as numbers and everything else as strings.",
 ["inputs"], "all builders; all header/body lengths up to the bound, chunk numbers, all option strings over a small alphabet",
 "Tests use fixed headers; edge strings (empty, sign only, numeric-looking) are not covered.",
 [CI_H, CI_C], [("builders and views", CI_H + ": property_exchange"), ("header generation", CI_C + ": make_rjson")], None, ["message bytes, views, header text"])

prop("C27", "Inspecting arbitrary SysEx content never reads outside the message",
 "For every SysEx message of any length and content, whether produced by this library, truncated, corrupted or hostile, asking for any universal SysEx or MIDI-CI view and reading all fields of every view that is offered never accesses memory outside the message, never crashes and never hangs.",
 ["inputs"], "all subtypes, all truncation lengths, all values of every length/count field against all actual lengths, for every view type",
 "A test samples a few malformed messages; the property is over all combinations of declared and actual sizes.",
 [CI_H, CI_C, US_H], [("validate() of every view", CI_H + ", " + US_H)], None, ["sanitizer-instrumented execution"])

prop("C28", "MIDI-CI views accept only complete messages of their own kind",
 "A MIDI-CI or universal SysEx view is offered exactly for messages of the universal manufacturer, type and subtypes it covers that are complete: every declared length and count fits into the message (extra trailing bytes are allowed), property exchange chunk numbers are consistent (no more than the number of chunks, header only in the first, body only in a numbered chunk), and detailed NAK data needs message version 2. So a message of one kind is never accepted as another, a message cut off inside its declared content is refused, and every field read lies in the message; all ways to ask for a view agree.",
 ["inputs"], "all pairs of message kind and view kind; all truncation points of all message shapes within the bound",
 "Tests check a few negative cases.",
 [CI_H, CI_C], [("validate() and subtype checks", CI_H)], None, ["returned optional views"])

prop("C29", "7-bit integer encoding in SysEx data is lossless and legal",
 "Appending a 7-, 14-, 28- or 32-bit number or a device identity to a SysEx7 message appends exactly its little-endian 7-bit groups, keeps the message valid 7-bit data, and reading at that position returns the value, for every value and position; other bytes of the message are untouched.",
 ["inputs"], "all 2^7 and 2^14 values, all 2^28/2^32 values (thorough) or boundary-complete sets (quick), several positions",
 "Tests sample a few values.",
 [SX_H, SX_C], [("encoding", SX_H + ": add_uint*/make_uint*, " + SX_C)], None, ["data bytes, return values"])

prop("C30", "Editing routing fields changes exactly that field",
 "Changing the group, message type or any byte of an existing packet, or the device id, source MUID or destination MUID of a MIDI-CI message, sets exactly that field to the given value and leaves every other bit and the length of the message unchanged, for every previous content.",
 ["inputs", "histories"], "all field values, all prior contents from boundary-complete patterns, all sequences of edits up to the bound",
 "Bit masks that clobber neighbours show only for particular prior contents.",
 [UP_H, CI_H, US_H], [("setters", UP_H + ": set_group, set_type, set_byte; " + CI_H + ": set_source_muid/set_destination_muid/set_device_id")], None, ["message words/bytes"])

JR_H, JR_C = "inc/midi/jitter_reduction_timestamps.h", "src/jitter_reduction_timestamps.cpp"
prop("C31", "JR timestamps and the JR clock are exact modulo 2^16",
 "For every pair of 16-bit JR timestamps, their difference is the number of ticks of 1/31250 s from the second to the first counted modulo 2^16 (0 to 65535), equality compares values, and JR clock and JR timestamp messages carry any timestamp exactly and are recognised as such. "
 "The JR clock reads the whole number of ticks elapsed since its first use modulo 2^16, at every instant and across wrap-around.",
 ["inputs", "histories"], "all 2^32 pairs of timestamps, all timestamps in messages, all clock readings around every tick of the bounded time span (controlled clock)",
 "Tests check a few pairs and never control the clock.",
 [JR_H, JR_C], [("operators and messages", JR_H + ": jr_timestamp_t, jr_message"), ("clock", JR_C + ": jr_clock::now")], None, ["operator results, packet words, clock readings"])

prop("C32", "JR clock follower schedules in order, with bounded, jitter-free delay",
 "For every history of JR clocks and timestamped messages from a sender whose timestamps never go backwards (less than 65536 ticks after the last clock), a message is scheduled at its sender time shifted by the smallest clock delay seen, but not before the previous message's base time or the arrival of a preceding clock, plus the security offset; without any clock yet, at its arrival plus the security offset. "
 "So the schedule never goes backwards, is not before the arrival of any message delayed by no more than the smallest clock delay plus the offset, and with jitter-free clocks distances equal the sender's tick distances exactly, across timestamp wrap-around. "
 "The reported jitter is the spread of clock delays since reset, and the security offset is the larger of the configured one (2 ms by default) and 1.2 times that jitter, not shrinking until configured anew or reset.",
 ["histories", "inputs"], "all event sequences up to the depth bound over a menu of clock/timestamp steps, network delays, wrap-around positions, resets and offset settings",
 "Tests run two or three fixed scenarios; the follower's state depends on the whole history.",
 [JR_H, JR_C], [("clock follower", JR_C + ": jr_clock_follower")], [("m_clock_ts, m_clock_time, m_message_time, m_jitter, m_security_offset", "sender clock estimate", JR_H)], ["returned times, jitter(), security_offset()"])

prop("C33", "Messages survive the whole packet/byte-stream/collector pipeline",
 "Any universal SysEx or MIDI-CI message, alone or interleaved with channel voice, system and real-time messages, that is converted to packets, then to a MIDI 1 byte stream, parsed back (to packets or to whole SysEx) and reassembled arrives exactly once, equal to the original, and all interleaved messages arrive in order.",
 ["inputs", "histories"], "all message shapes and lengths within the bound, all interleavings of other messages at packet boundaries and of real-time bytes at byte positions",
 "No test composes the stages; errors in the interplay (boundary lengths, interleaving) are invisible to stage tests.",
 [BS_C, SX_H, COL_C, CI_H], [("pipeline", "send_sysex7 -> to_midi1_byte_stream -> midi1_byte_stream_parser -> sysex7_collector -> views")], None, ["delivered messages"])

prop("C34", "SysEx values and all behaviour are the same in every allocator configuration",
 "Built with the default, the polymorphic or the user-provided SysEx data allocator, the library produces identical packets, messages, deliveries and field values for the same operations, and all SysEx data lives in memory of the configured allocator (of the given memory resource, if any) and is released to it with the size it was allocated with, nothing leaking. "
 "In each configuration SysEx messages are proper values: copies are equal and independent, moves transfer the content, comparison is by manufacturer and data, clearing empties them, whatever their size and history.",
 ["configurations", "histories"], "all three configurations x all operation sequences up to the bound on SysEx values, parser and collectors, and the other properties' explorations of SysEx code",
 "The tests run in one configuration at a time, never compare behaviour nor account for allocations.",
 [SX_H, SX_C, COL_C, BS_C], [("allocator selection", SX_H + ": sysex::data_type, data_allocator, NIMIDI2_PMR_SYSEX_DATA_ARG")], None, ["values, deliveries, allocator ledger"])

prop("C35", "A failing allocation loses at most that message and leaks nothing",
 "Whenever any single memory allocation fails inside the byte stream parser, a SysEx collector or an operation on a SysEx message, the failure surfaces as std::bad_alloc, no wrong message is delivered, nothing leaks, other objects are unaffected, and after a reset of the parser or collector (or clearing the SysEx message) all later messages are handled correctly.",
 ["histories", "fault_sequences"], "every allocation of every step, after every history of steps up to the depth bound, in every allocator configuration",
 "Tests never make an allocation fail.",
 [BS_C, COL_C, SX_H], [("buffer growth", BS_C + ": sysex_start, sysex_continue_callback; " + COL_C + ": feed")], None, ["deliveries after the failure, allocator ledger"])

prop("C36", "Separate objects never influence each other",
 "Two parsers, collectors or JR clock followers (of the same or different kind, or one a copy of the other made at any time) used in any interleaving each behave exactly as if they were used alone; an object copied, assigned or moved from another continues with its complete state and settings; and operations on separate objects, including reading the same constant message, may run in different threads without data races.",
 ["schedules", "histories"], "all interleavings of two histories for all pairs of object kinds, copies at every step, all pairs of operations in two threads",
 "Tests use one object at a time in one thread; shared scratch state shows only when histories interleave.",
 [BS_C, COL_C, JR_C, SX_H, UP_C, CI_C, US_C], [("per-object state", "member variables of midi1_byte_stream_parser, sysex7_collector, sysex8_collector, jr_clock_follower"), ("stateless functions", "builders, views, conversions")], None, ["callbacks and return values, race detector"])

prop("C37", "SysEx queries and comparison are exact for every content",
 "A SysEx message is reported 7-bit exactly if every one of its data bytes, at whatever position, is below 0x80, and 8-bit otherwise; a SysEx7 message is valid exactly if it is 7-bit and its manufacturer id consists of three 7-bit bytes. "
 "It is empty exactly if it has manufacturer id 0 and no data, its total data size is the number of data bytes plus the length of the manufacturer id (none for 0, one byte if its first byte is not 0, else three), and two messages compare equal exactly if manufacturer id and all data bytes agree.",
 ["inputs"], "all byte values at all positions for lengths up to the bound, all 2^24 and boundary manufacturer ids, all single-byte and length differences",
 "Tests check a handful of messages; a query that inspects only part of the data is invisible to them.",
 [SX_H, SX_C], [("queries and comparison", SX_H + ": sysex, sysex7, sysex8; " + SX_C)], None, ["return values"])

prop("C38", "Exceptions from callbacks reach the caller and leave a usable object",
 "Whenever a callback installed in the byte stream parser or a SysEx collector throws, at any call of any history, the exception reaches the caller of feed unchanged, no further callback is made for that feed, and after reset() the object behaves exactly like a new one with the same settings and callbacks.",
 ["histories", "fault_sequences"], "every callback invocation of every bounded history throws once, followed by every bounded continuation after reset",
 "Tests never throw from a callback.",
 [BS_C, COL_C], [("callback invocation", BS_C + ": feed, sysex_finish; " + COL_C + ": feed")], None, ["exceptions and callbacks seen by the caller"])

prop("C39", "A callback may reset or reconfigure the object that called it",
 "Resetting the byte stream parser, changing its group or enabling or disabling its callbacks from inside one of its own callbacks, and resetting a SysEx collector or changing its size limit from inside its callback, at any call of any history, has exactly the effect it would have right after the feed of the byte or packet that caused the callback.",
 ["histories"], "every callback invocation of every bounded history, every reconfiguration, every bounded continuation",
 "Tests never call back into the object; state that is written after a callback shows only then.",
 [BS_C, COL_C], [("callback invocation", BS_C + ": feed, sysex_continue_packet, sysex_end_packet, sysex_end_callback; " + COL_C + ": feed")], None, ["callbacks seen by the caller, settings"])

prop("C40", "Typed values and profile ids compare by value and default to neutral",
 "Two velocities, pitch bends, pitches, sensitivities, increments or controller values of the same type compare equal exactly if their stored values are equal, and unequal otherwise; profile ids and profile destinations compare equal exactly if all their fields agree. "
 "Default-constructed values are neutral (velocity and pitch bend at centre, sensitivity two semitones, everything else zero), and resetting a pitch bend returns it to centre from every value.",
 ["inputs"], "all pairs of 16-bit values; every 32-bit value with itself, its neighbours and one-bit differences; all one- and two-byte differences of profile ids",
 "Tests compare a handful of values.",
 [TY_H, CI_H], [("comparison operators and defaults", TY_H + "; " + CI_H + ": profile_id, profile_destination")], None, ["operator results"])

prop("C41", "Named constants and omitted arguments have the values the MIDI specs assign",
 "Every named status code, controller, parameter number, packet type and format, Universal SysEx type and subtype, MIDI-CI subtype and category, discovery filter, manufacturer id and property exchange name offered by the headers has the value the MIDI specifications assign to that name. "
 "Omitting trailing arguments of a builder has exactly the effect of passing the neutral value: group 0, data and attribute 0, UMP version 1.1, one group spanned, device id 0x7F (the whole function block), request id 0, one simultaneous request, one channel.",
 ["inputs"], "the complete vocabulary; every builder with every number of omitted arguments, all groups, channels and 7-bit values",
 "Tests use the named constants on both sides of a comparison, so that a wrong value cancels out, and pass most arguments explicitly.",
 [UP_H, US_H, "inc/midi/manufacturer.h", CI_H, ST_H], [("constants", UP_H + "; " + US_H + "; inc/midi/manufacturer.h" + "; " + CI_H), ("default arguments", "inc/midi/*.h: builders")], None, ["constants, built packets and messages"])

prop("C42", "Legal use never runs into undefined behaviour",
 "Whatever legal arguments are passed and whatever the history of the objects, no operation of the library relies on behaviour that C++ leaves undefined: no signed overflow, no shift by an invalid amount, no conversion of an out-of-range floating-point value (NaN input excepted), no division by zero, no invalid bool or enum value, no access outside an array, string or container, no use of a destroyed object. Results therefore do not depend on compiler or optimisation level.",
 ["inputs", "histories"], "the input spaces and histories of all other properties, every operation of every execution monitored",
 "Tests sample ordinary values, in one build; undefined behaviour usually yields the expected result there and shows only at range ends, or with another compiler.",
 ["inc/midi", "src"], [("value arithmetic and conversions", TY_H), ("parser, collectors, views, builders", "inc/midi/*.h; src/*.cpp")], None, ["executed operations, as seen by the sanitizer"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
