EX = "exploration"; MC = "model_checking"; FE = "fault_enumeration"
CLAIMS = {
"P01": ("bounded-exhaustive enumeration of inputs on the real code against a bitwise CRC model", MC,
        "all lengths/alignments/basis vectors/splits within stated bounds; contents decided through linearity of the CRC, which is itself checked on all pairs within the bound"),
"P02": ("explicit-state exploration of all operation sequences on the real buffer against a FIFO model, conformance at every transition", MC,
        "exhaustive over small capacities and alphabets; larger capacities by the code's size-parametric structure only"),
"P04": ("exhaustive enumeration of the complete state space of identities on the real packing functions against the documented layout", MC,
        "complete: all 2^24 tuples and all 2^24 packed values"),
"P05": ("stateless exploration of the real framers over all segment sequences, damage patterns and byte strings within bounds, judged by an independent reference framer", MC,
        "exhaustive over the stated alphabets and depths; longer streams combine the same segment kinds"),
"P06": ("stateless exploration of the real framers, conservation monitored on every call", MC, "as P05, plus small internal buffers"),
"P07": ("stateless exploration of the real framers over streams x chunkings (every single split point, uniform chunkings, double splits)", MC, "as P05"),
"P08": ("stateless exploration of the real framers against an independent reference framer run to completion", MC, "as P05"),
"P09": ("stateless exploration of the real framers over streams x sequences of caller buffer sizes with exact-size poisoned buffers", MC, "up to three chosen sizes per stream, every size within the bound"),
"P03": ("explicit-state exploration of all operation sequences on the real counting components against exact counts", MC,
        "all sequences up to the depth over the stated message kinds"),
"P14": ("exhaustive exploration of filter configurations, edit sequences and message attributes on the real filter against a predicate", MC,
        "all combinations over small colliding value sets; values outside follow the same comparisons"),
"P16": ("explicit-state exploration of all edit sequences on the real database against a map model, conformance at every transition", MC,
        "all sequences to the depth over six messages and five enums that collide in id, name and enum id"),
"P10": ("exhaustive enumeration of headers (field domains and boundaries, pairwise and three-wise) through decode, encode and back on the real codec against independently rendered headers", MC,
        "whole domains for small fields, boundary values for large ones, combined in pairs (thorough: triples); every millisecond fraction of a spread of seconds"),
"P11": ("exhaustive enumeration of definitions and values (field kinds x conversions x values x lengths, alone, in pairs and triples) through the real decoder and encoder in all seven formats against an independent rendering", MC,
        "every ordered pair (thorough: triple) of representative fields, arrays up to length 4, strings up to 4 (thorough 5) over the special characters; all 8-bit and (thorough) 16-bit values, boundary values for wider ones; not enumerated: strings with double quotes or control characters, text fields of abbreviated ASCII that begin with its indentation characters"),
"P12": ("exhaustive enumeration of messages x buffer sizes (every size from 0 to the encoded length and beyond) through the real encoder in all formats, with exact-size poisoned buffers", MC,
        "every size for every message of a corpus over field kinds, arrays, rows, headers and responses; longer messages repeat the same steps"),
"P13": ("systematic fault enumeration on the real decoders: every cut, every single-byte replacement, insertion and deletion from a class alphabet and every hostile-word splice of a corpus of messages, in exact-size allocations under AddressSanitizer, against fresh and re-used objects and an independent reader of binary bodies", FE,
        "corpus over all field kinds, conversions, arrays, rows and all seven formats; single faults (thorough: also pairs of replacements and replacement plus cut); values of garbled (not cut) text are judged only for independence of foreign data"),
"P18": ("exhaustive enumeration of command definitions, values, spellings, faults, buffer sizes and database histories through the real commander, judged by independently rendered commands and by the real framer and decoders", MC,
        "all parameter kinds alone and in pairs, every buffer size, every single-byte fault of representative commands; longer commands repeat the same steps"),
"P21": ("exhaustive enumeration of embedded commands x input formats x output formats x buffer sizes, of payload cuts and single-byte faults, and of sequences of logs through one handler, on the real code against independently built logs", MC,
        "embedded commands over all field kinds with boundary values, three header patterns on each side, sequences up to 3 (thorough 4) of 11 items"),
"P15": ("explicit-state exploration of the real parser and file parser over all short sequences of segments x options x chunkings x file contents, conformance of every delivered message with an oracle composed of independent frames and the separate real components", MC,
        "streams of up to 3 segments of 28 kinds in quick, all options and formats for each; lengths around every internal border; longer streams repeat the same steps"),
"P19": ("exhaustive enumeration of compressed range messages (bit fields, signals, satellites, matrices, counts, times, formats, buffer sizes, cuts and single faults) on the real decompressor against an independent bit-level model of the published layouts", MC,
        "all values of fields up to 11 bits, basis and border values of wider fields, for all 35 signals and all five variants; pairs of fields over border values; matrices of up to 3 systems x 3 satellites x 3 signals; 0 to 326 observations"),
"P20": ("explicit-state exploration of all message histories of one decompressor against a model of the documented lock-time and reference rules, conformance at every message", MC,
        "all histories of 3 to 4 (thorough 5) messages over the stated codes, steps, ids, sources and resets; every signal of every satellite and source in one sweep"),
"P17": ("exhaustive enumeration of database definitions, representations and structural faults (single and pairs), and of all orders in which the loader's tasks can run, on the real loader against an independent reader and layout model", MC,
        "all field kinds and lists of up to three fields, all orders of members and tasks, every single structural change of a corpus and pairs of them, histories of up to three loads"),
"P22": ("stateless model checking of the real logger set-up under a controlled scheduler (all schedules up to a preemption bound, each in a fresh process) with a vector-clock data-race monitor; every outcome must be that of a sequential order", MC,
        "all pairs of operations (thorough: triples of the core ones), preemption bound 1 to 3 at synchronisation operations, and at atomic operations in separate units; sequentially consistent memory for atomics; spdlog itself is explored, not modelled"),
"P23": ("stateless model checking: all interleavings of two instances, all short re-use sequences of one instance, and all schedules (up to a preemption bound) of threads sharing a read-only database with a vector-clock race monitor, each in a fresh process, compared with each instance alone", MC,
        "13 kinds of component on two databases, at most four operations per instance; re-use sequences of three messages (thorough: four); two threads, preemption bound 1 (thorough: 2); sequentially consistent memory for atomics"),
}
NOT_APPLICABLE = {
"P24": "the Python bindings need nanobind and a CPython extension build, neither of which is installed and nothing can be fetched; the code cannot be built or executed here, so no execution can be enumerated",
}
