"""Which explorer decides which property, in which builds."""
F, S = "fast", "san"
D = "default"


MC_NOTE = "Bounded exhaustive exploration of the real code in lockstep with a reference model; nothing is claimed beyond the stated bounds and alphabets. Trusts g++, the host and the model."
EX_NOTE = "Complete enumeration of the stated input space on the real code against an independent oracle; 32-bit and string fields are covered through the stated value sets. Trusts g++, the host and the oracle."

def mcheck(h, *jobs, technique, note=MC_NOTE, extra=(), **kw):
    return dict(level="model_checking", technique=technique, note=note, jobs=[(h, v, c) for v, c in jobs] + list(extra), **kw)

def echeck(h, *jobs, technique, rule, note=EX_NOTE, **kw):
    return dict(level="exploration", technique=technique, note=note, rule=rule, jobs=[(h, v, c) for v, c in jobs], **kw)

NOT_APPLICABLE = {}

PARSER = "explicit-state / depth-bounded exploration of the real parser in lockstep with a MIDI 1.0 reference model"
CHECKS = {
    "C01": mcheck("parser", (F, D), technique=PARSER),
    "C02": mcheck("parser", (F, D), technique=PARSER),
    "C03": mcheck("parser", (F, D), technique=PARSER),
    "C04": mcheck("parser", (F, D), technique=PARSER + " plus a continuously enabled twin"),
    "C05": echeck("bytestream", (F, D), (S, D), rule="every packet / packet sequence of the stated space exactly once; non-trivial: it carries MIDI 1 bytes", technique="exhaustive enumeration of packets and bounded packet sequences, real converter composed with the real parser, against a MIDI 1.0 reference"),
    "C06": mcheck("collector", (F, D), (S, D), technique="exhaustive enumeration of messages through packetisation composed with the real collector"),
    "C07": mcheck("collector", (F, D), (S, D), technique="exhaustive enumeration of messages through packetisation composed with the real collector"),
    "C08": mcheck("collector", (F, D), technique="depth-bounded exploration of all packet sequences on the real collector in lockstep with a reference model"),
    "C09": mcheck("collector", (F, D), technique="depth-bounded exploration of all packet sequences on the real collector in lockstep with a reference model"),
    "C10": mcheck("collector", (F, D), technique="depth-bounded exploration of packet sequences and limits on the real collectors in lockstep with a reference model"),
    "C12": echeck("values", (F, D), rule="every value (of a width, per pair of widths) once; non-trivial: all", technique="exhaustive enumeration of all values of every width against a bit-by-bit MIDI 2.0 scaling reference"),
    "C13": echeck("values", (F, D), rule="every stored value / every input bit pattern of the stated space once; non-trivial: all", technique="exhaustive enumeration of stored values and ordered float bit patterns, monotonicity and nearness checked at every step"),
    "C14": echeck("values", (F, D), rule="every operand pair of the stated space once; non-trivial: all", technique="exhaustive enumeration of operand pairs against exact 128-bit arithmetic"),
    "C11": echeck("cvm", (F, D), rule="every message of the stated space once; non-trivial: it has a translatable status", technique="exhaustive enumeration of all MIDI 1 and bounded MIDI 2 channel voice messages through the real translators, both directions, against an independent reference"),
    "C15": echeck("cvm", (F, D), rule="every builder argument combination of the stated space once; non-trivial: all", technique="exhaustive enumeration of builder arguments against an independent bit layout"),
    "C16": echeck("cvm", (F, D), rule="every packet of the stated space once; non-trivial: channel voice packet", technique="exhaustive enumeration of all 2^32 first packet words against an independent classification"),
    "C17": echeck("packet", (F, D), rule="every packet / text of the stated space once; non-trivial: the packet or text reads as a packet, or the pair differs", technique="exhaustive enumeration of packets, bit differences, stream states and token texts against an independent reference"),
    "C18": echeck("messages", (F, D), rule="every builder argument combination of the stated space once; non-trivial: all", technique="exhaustive enumeration of builder arguments and packet headers against an independent bit layout"),
    "C19": mcheck("messages", (F, D), (S, D), technique="exhaustive enumeration of names through segmentation composed with the views, against a reference segmentation"),
    "C20": echeck("messages", (F, D), rule="every builder argument combination of the stated space once; non-trivial: all", technique="exhaustive enumeration of builder arguments against an independent bit layout"),
    "C21": echeck("messages", (F, D), rule="every builder argument combination once; non-trivial: all", technique="exhaustive enumeration of all builder arguments against an independent bit layout"),
    "C22": echeck("messages", (F, D), rule="every first packet word once; non-trivial: all", technique="exhaustive enumeration of all 2^32 first packet words against an independent classification"),
    "C23": echeck("ci", (F, D), rule="every builder argument combination / SysEx content of the stated space once; non-trivial: a message was built, or the content is universal SysEx", technique="exhaustive enumeration of identity fields and short SysEx contents against an independent encoder and decoder"),
    "C24": echeck("ci", (F, D), rule="every builder argument combination of the stated space once; non-trivial: all", technique="exhaustive enumeration of bounded builder arguments, built bytes and view fields against an independent encoder"),
    "C25": echeck("ci", (F, D), rule="every builder argument combination of the stated space once; non-trivial: all", technique="exhaustive enumeration of bounded builder arguments, built bytes and view fields against an independent encoder"),
    "C26": echeck("ci", (F, D), (S, D), rule="every builder argument combination / header option of the stated space once; non-trivial: all", technique="exhaustive enumeration of bounded builder arguments and header options against an independent encoder and JSON parser"),
    "C27": echeck("ci", (S, D), rule="every SysEx content of the stated space once, all views requested and all fields of offered views read; non-trivial: at least one view was offered", technique="exhaustive enumeration of bounded hostile SysEx contents on the real views under AddressSanitizer and range monitors"),
    "C28": echeck("ci", (F, D), rule="every SysEx content of the stated space once, all views requested by all routes; non-trivial: at least one view was offered", technique="exhaustive enumeration of bounded SysEx contents, truncations and mutations against an independent decoder"),
    "C29": mcheck("sysexint", (F, D), technique="exhaustive enumeration of all values and depth-bounded exploration of append sequences against a byte vector"),
    "C30": dict(level="exploration", technique="exhaustive enumeration of edits on bounded packets and MIDI-CI messages against an independent bit layout", note=EX_NOTE, rule="every (content, edit) of the stated space once; non-trivial: all", jobs=[("packet", F, D), ("ci", F, D)]),
    "C31": echeck("jr", (F, D), rule="every pair of timestamps / timestamp / clock reading of the stated space once; non-trivial: all", technique="exhaustive enumeration of all 2^32 timestamp pairs and of controlled clock readings against modular arithmetic"),
    "C32": mcheck("jr", (F, D), technique="depth-bounded exploration of all sender/network histories on the real follower in lockstep with a reference model in unwrapped time"),
    "C33": mcheck("pipeline", (F, D), technique="exhaustive enumeration of message sequences, lengths and interleavings through the real composed pipeline against a delivery model"),
    # the extra jobs repeat other properties' explorations in the other configurations; only a difference to the default one counts
    "C34": mcheck("alloc", (F, "default"), (F, "pmr"), (F, "custom"), extra=[(h, F, c, p) for c in ("pmr", "custom") for h, p in (
        ("parser", "C02"), ("collector", "C06"), ("collector", "C07"), ("collector", "C08"), ("collector", "C09"), ("collector", "C10"),
        ("ci", "C23"), ("ci", "C24"), ("ci", "C25"), ("ci", "C26"), ("ci", "C28"), ("sysexint", "C29"), ("pipeline", "C33"))], technique="depth-bounded exploration of operation sequences in every allocator configuration against one model and an allocation ledger"),
    "C35": mcheck("alloc", (F, "default"), (F, "pmr"), (F, "custom"), technique="exhaustive fault injection: every allocation of every bounded history fails once"),
    "C36": mcheck("isolation", (F, D), ("tsan", D), extra=[("ci", "tsan", D)], technique="exhaustive exploration of interleavings of two objects' histories and of copies; all pairs of operations in two threads under happens-before race detection"),
    "C37": echeck("sysexint", (F, D), rule="every content / manufacturer id / pair of contents of the stated space once; non-trivial: all", technique="exhaustive enumeration of bounded contents, manufacturer ids and single-byte differences against byte-by-byte definitions"),
    "C38": mcheck("throwing", (F, D), (S, D), technique="exhaustive fault injection: every callback invocation of every bounded history throws once, then lockstep with a new object"),
    "C39": mcheck("throwing", (F, D), (S, D), technique="exhaustive exploration: every callback invocation of every bounded history reconfigures the object, in lockstep with a twin reconfigured right after the call"),
    "C41": echeck("constants", (F, D), rule="every constant / builder call of the stated space once; non-trivial: all", technique="exhaustive enumeration of the named vocabulary and of calls with omitted arguments against the values assigned by the specifications"),
    "C40": echeck("values", (F, D), rule="every pair of the stated space once; non-trivial: all", technique="exhaustive enumeration of pairs of values against comparison of the stored values"),
}

# undefined behaviour: the explorations of the other properties under UndefinedBehaviorSanitizer
_UB = (("parser", "C01"), ("parser", "C02"), ("parser", "C03"), ("parser", "C04"), ("bytestream", "C05"), ("collector", "C06"), ("collector", "C07"), ("collector", "C08"), ("collector", "C09"), ("collector", "C10"),
       ("cvm", "C11"), ("values", "C12"), ("values", "C13"), ("values", "C14"), ("cvm", "C15"), ("cvm", "C16"), ("packet", "C17"), ("messages", "C18"), ("messages", "C19"), ("messages", "C20"), ("messages", "C21"),
       ("messages", "C22"), ("ci", "C23"), ("ci", "C24"), ("ci", "C25"), ("ci", "C26"), ("ci", "C27"), ("ci", "C28"), ("sysexint", "C29"), ("packet", "C30"), ("ci", "C30"), ("jr", "C31"), ("jr", "C32"), ("pipeline", "C33"),
       ("isolation", "C36"), ("sysexint", "C37"), ("throwing", "C38"), ("throwing", "C39"), ("values", "C40"), ("constants", "C41"))
_UBASAN = ("C05", "C06", "C07", "C18", "C19", "C20", "C21", "C23", "C24", "C25", "C26", "C31", "C36", "C41") # with AddressSanitizer as well
CHECKS["C42"] = dict(level="exploration", technique="exhaustive enumeration of the bounded histories and inputs of all other properties on the real code under UndefinedBehaviorSanitizer (every operation of every execution monitored)", note=EX_NOTE,
                     rule="every case of the other properties' spaces (light bounds) once; non-trivial: as there", jobs=[(h, "ubasan" if p in _UBASAN else "ub", D, p) for h, p in _UB], no_asserts=True,
                     quick_skips=("c14_sweep", "c15_full32", "c15_pairs", "c16_predicates", "c22_all_headers", "c22_payloads", "c29_values"))

# every property is explored (with light bounds) with the library's assertions on as well, unless a sanitised build does
for _p, _c in CHECKS.items():
    if not _c.get("no_asserts") and not any(j[1] == "san" for j in _c["jobs"]):
        _c["jobs"] += [(h, "asserts", D) for h in sorted({j[0] for j in _c["jobs"] if len(j) == 3 and j[1] == F and j[2] == D})]
