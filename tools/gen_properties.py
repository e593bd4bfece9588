#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
INC = "include/novatel_edie/"
DEC = INC + "decoders/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("P01", "Every checksum routine computes the CRC its definition prescribes",
  "For every byte sequence, the block checksum, the byte-at-a-time checksum and the compile-time checksum all equal the bit-by-bit CRC defined by their width, polynomial and bit order (for NovAtel messages: reflected CRC-32, polynomial 0xEDB88320, initial value 0, no final inversion), whatever the length and memory alignment of the data. Feeding a sequence in any number of pieces, passing the running value along, gives the same result as feeding it whole.",
  ["inputs"], "all lengths around every internal block size, all alignments, every single-bit basis vector of a buffer (the CRC is linear, so these decide all contents), all two-way splits, chosen running values, all supported widths and bit orders",
  "The tests check a handful of fixed strings; the accelerated routine has separate code paths per length and per position that only an exhaustive sweep of length x alignment x byte position reaches.",
  [INC + "common/crc.hpp", DEC + "oem/crc.hpp"],
  [("slice-by-8 block CRC and per-character CRC", INC + "common/crc.hpp"),
   ("Chorba block CRC for long OEM messages", DEC + "oem/crc.hpp")],
  ["CalculateBlockCrc", "CalculateCharacterCrc", "oem::CalculateBlockCrc32"])

p("P02", "The framers' byte buffer behaves as a bounded FIFO",
  "After any sequence of writes, front erasures and copies, the buffer holds exactly the bytes a bounded FIFO of its capacity would hold, in order, and its size, free space, contiguous view, indexed access, multi-byte reads and copies all agree with that content. A write is taken whole when it fits in the free space and refused whole otherwise, no operation touches memory outside the buffer, and searching returns the first position where the pattern occurs or where the searched range ends in a prefix of it.",
  ["histories"], "all operation sequences over small capacities from every reachable (head, size) position, all patterns and contents over a two-letter alphabet",
  "Compaction depends on head position x size x operation argument; the repository has no test of the buffer and framing tests with 256 KiB capacity practically never compact.",
  [INC + "common/fixed_buffer.hpp"],
  [("FixedBuffer head/size arithmetic and compaction", INC + "common/fixed_buffer.hpp")],
  ["FixedBuffer public operations"])

p("P03", "Message statistics count exactly what was decoded",
  "After any history of decodes, queries and resets, the statistics hold for each message identity (format, message number and sibling) exactly the number of successfully decoded headers with that identity (a non-zero message number) since the last reset; other identities are absent and identities never alias one another. Reading statistics never changes them, failed decodes are not counted, and each decoder or parser counts independently.",
  ["histories"], "all sequences up to a depth of increments, decodes of valid and invalid headers, reads and resets over an identity alphabet chosen to collide in every field and hash bucket",
  "Existing tests replay a few linear histories; aliasing between identities and interaction of queries with later recordings need all sequences.",
  [DEC + "common/message_counts_tracker.hpp", "src/decoders/oem/src/header_decoder.cpp", DEC + "oem/header_decoder.hpp", "src/decoders/oem/src/parser.cpp"],
  [("message counts tracker", DEC + "common/message_counts_tracker.hpp"), ("counting on successful header decode", "src/decoders/oem/src/header_decoder.cpp")],
  ["MessageCountsTracker::Increment/GetCounts/Reset", "HeaderDecoder and Parser message counts"])

p("P04", "Message identity packs and unpacks without loss",
  "Packing a message number, measurement source, format and response flag into a binary identity and unpacking it again returns the same four values, for every value each may take, and the two directions are exact inverses. The packed identity differs whenever any of the four differs.",
  ["inputs"], "all 65536 message numbers x all sources x all formats x both response values, and all 2^32 packed identities that are valid",
  "Tests use a few hand-picked identities; a mask or shift slip affects only some bit patterns.",
  [DEC + "common/message_database.hpp", "src/decoders/common/src/message_database.cpp", DEC + "oem/common.hpp"],
  [("CreateMsgId / UnpackMsgId", "src/decoders/common/src/message_database.cpp"),
   ("message type field packing", "src/decoders/oem/src/encoder.cpp")],
  ["CreateMsgId", "UnpackMsgId", "encoded binary header message type byte"])

p("P05", "Framers only return genuine, intact messages",
  "Whenever a framer reports a framed message, the returned bytes are an unaltered contiguous piece of the input that really is one well-formed message of the reported format: sync, declared length and (where the format has one) checksum are all right, and the reported length equals the piece's length. Corrupted, truncated or look-alike data is never reported as a message, whatever precedes it in the stream.",
  ["inputs", "histories"], "all streams of up to k segments over an alphabet of valid messages of every format, single-byte corruptions, truncations, sync fragments and noise, fed to a fresh or already used framer",
  "The tests frame a fixed list of files; stale state left by one segment only matters for specific following segments.",
  ["src/decoders/oem/src/framer.cpp", "src/decoders/common/src/framer.cpp", "src/decoders/common/src/framer_manager.cpp", DEC + "common/framer.hpp"],
  [("OEM framer state machine and CRC gate", "src/decoders/oem/src/framer.cpp"),
   ("framer manager arbitration", "src/decoders/common/src/framer_manager.cpp")],
  ["Framer::GetFrame", "FramerManager::GetFrame"])

p("P06", "Framing conserves the byte stream",
  "Concatenating everything a framer returns - framed messages, unknown bytes and the final flush - in order gives back exactly the bytes that were written, with none lost, duplicated, reordered or changed, when unknown-byte reporting is on. With reporting off, what is returned is a subsequence made of exactly the framed messages.",
  ["inputs", "histories"], "the streams of P05 x reporting on/off x single framer and multi-framer arbitration",
  "Tests compare single expected outputs; conservation is a global property over arbitrary mixes of good and bad data.",
  ["src/decoders/oem/src/framer.cpp", "src/decoders/common/src/framer.cpp", "src/decoders/common/src/framer_manager.cpp", "src/decoders/oem/src/parser.cpp"],
  [("HandleUnknownBytes / erase_begin bookkeeping", "src/decoders/common/src/framer.cpp"),
   ("FramerManager offset bookkeeping", "src/decoders/common/src/framer_manager.cpp")],
  ["Framer::Write/GetFrame/Flush", "FramerManager::Write/GetFrame/Flush"])

p("P07", "Framing does not depend on how the stream is chunked",
  "Splitting the same byte stream into different write sizes, with reads between the writes, yields the same sequence of framed messages with the same formats and lengths as writing it all at once. A message split at any byte boundary is still found once its last byte arrives.",
  ["inputs", "schedules"], "all P05 streams of bounded length x every split point (all two-way splits, all uniform chunk sizes, byte by byte)",
  "Serial ports deliver arbitrary chunks; tests cover whole-file writes and a few cut points of single messages.",
  ["src/decoders/oem/src/framer.cpp", "src/decoders/common/src/framer.cpp", "src/decoders/common/src/framer_manager.cpp"],
  [("resume state of the OEM framer", "src/decoders/oem/src/framer.cpp")],
  ["Framer::Write/GetFrame", "FramerManager::Write/GetFrame"])

p("P08", "Every valid message in a stream is recovered",
  "A complete valid message that starts at a point where no earlier incomplete or corrupt candidate is pending is always framed, whatever noise or damaged messages came before it. After a damaged candidate is given up, framing resumes inside it, so a valid message embedded in or directly following the damage is still found.",
  ["inputs", "histories"], "all arrangements of valid messages between noise, truncated and corrupted segments, in every supported format",
  "Loss after specific kinds of damage is a multi-segment history effect that fixed sample files do not contain.",
  ["src/decoders/oem/src/framer.cpp", "src/decoders/common/src/framer.cpp", "src/decoders/common/src/framer_manager.cpp"],
  [("resynchronisation after CRC failure / bad length", "src/decoders/oem/src/framer.cpp")],
  ["Framer::GetFrame", "FramerManager::GetFrame", "Parser::Read"])

p("P09", "Frame output never exceeds the caller's buffer",
  "Asking for a frame with a buffer of any size never writes past that size; if the next message does not fit the call says so and the message is still delivered intact by a later call with a large enough buffer. Invalid arguments are refused without side effects.",
  ["inputs", "configurations"], "all buffer sizes from 0 to the message size plus one x all formats x fill states of the internal buffer, with the rest of the buffer poisoned",
  "Tests always pass maximum-size buffers (one BUFFER_FULL case aside).",
  ["src/decoders/oem/src/framer.cpp", "src/decoders/common/src/framer.cpp", "src/decoders/common/src/framer_manager.cpp"],
  [("buffer size checks in GetFrame", "src/decoders/oem/src/framer.cpp"), ("HandleUnknownBytes", "src/decoders/common/src/framer.cpp")],
  ["Framer::GetFrame status and poisoned buffer tail"])

p("P10", "Headers survive decoding and re-encoding in every format",
  "Decoding a message header and re-encoding it in the same format reproduces it byte for byte, and converting it through any other format that can carry a field brings that field back unchanged - message identity, source, port, sequence, idle time, time status, week, milliseconds, receiver status and version. The metadata reported while decoding agrees with the header's fields.",
  ["inputs"], "all header formats x per-field boundary and all small-domain values (every port, every time status, every message type byte, every millisecond fraction class), pairwise combined",
  "Tests convert a few sample logs; each field's domain edges and each millisecond fraction are separate inputs.",
  ["src/decoders/oem/src/header_decoder.cpp", "src/decoders/oem/src/encoder.cpp", DEC + "oem/common.hpp"],
  [("header decoding", "src/decoders/oem/src/header_decoder.cpp"), ("EncodeBinaryHeader / EncodeAsciiHeader / ...", "src/decoders/oem/src/encoder.cpp")],
  ["HeaderDecoder::Decode", "Encoder::EncodeHeader"])

p("P11", "Message bodies survive conversion between formats",
  "Decoding a message body from binary and encoding it to ASCII, abbreviated ASCII or JSON and back gives the original field values for every field type, and binary to binary is the identity. Values printed are the exact textual form of the decoded value, at the precision the field's definition states.",
  ["inputs"], "all field types and conversions of the definition language x boundary values x array lengths 0..max, alone and in pairs",
  "Tests convert a few dozen fixed logs; conversions are a matrix of type x length x conversion string x value class.",
  ["src/decoders/common/src/message_decoder.cpp", DEC + "common/encoder.hpp", DEC + "common/message_decoder.hpp", "src/decoders/oem/src/encoder.cpp"],
  [("DecodeBinary/DecodeAscii/DecodeJson", "src/decoders/common/src/message_decoder.cpp"), ("EncodeBinaryBody/EncodeAsciiBody/EncodeJsonBody", DEC + "common/encoder.hpp")],
  ["MessageDecoder::Decode", "Encoder::Encode"])

p("P12", "Encoding stays inside the output buffer and is deterministic",
  "Encoding any decoded message in any format into a buffer of any size either succeeds, writing only inside the buffer, or reports that the buffer is full without writing past its end; the result when it succeeds does not depend on the buffer's size, address or previous content. The reported message, header and body extents tile the output exactly and carry a correct length field and checksum.",
  ["inputs", "configurations"], "all messages of the corpus x all output formats x every buffer size from 0 to needed+2 x several addresses and prefills, under a sanitizer with exact-size allocations",
  "Tests only ever pass a 32 KiB buffer.",
  ["src/decoders/oem/src/encoder.cpp", DEC + "common/encoder.hpp", DEC + "oem/encoder.hpp"],
  [("Encoder::Encode buffer accounting", "src/decoders/oem/src/encoder.cpp"), ("CopyToBuffer / PrintToBuffer", DEC + "common/encoder.hpp")],
  ["Encoder::Encode", "MessageDataStruct"])

p("P13", "Decoding malformed input is safe and total",
  "Given any message whose framing is right but whose content is truncated, over-long or garbled, header and body decoding return a status; they never read outside the message's declared extent, crash, hang or throw. A message reported as decoded has only values that were present in its bytes: fields that the bytes do not reach are zero or empty, never left over from another message or read from memory around the message.",
  ["inputs", "fault_sequences"], "every truncation length and every single-byte replacement from a class alphabet of a corpus covering all formats and field types, in exact-size buffers under a sanitizer",
  "Tests feed a few malformed samples; each byte position x replacement class is a distinct input.",
  ["src/decoders/common/src/message_decoder.cpp", "src/decoders/oem/src/header_decoder.cpp", "src/decoders/oem/src/message_decoder.cpp"],
  [("bounds and token handling in body decoding", "src/decoders/common/src/message_decoder.cpp"), ("header decoding", "src/decoders/oem/src/header_decoder.cpp")],
  ["HeaderDecoder::Decode", "MessageDecoder::Decode"])

p("P14", "A filter passes exactly the messages its settings describe",
  "After any sequence of include, exclude, invert, remove and clear calls, a message passes if and only if it satisfies each configured criterion (identity with format and source, name with format and source, time status, time window, decimation, NMEA) under the documented meaning. Filtering has no memory: the same message under the same settings always gets the same answer.",
  ["histories", "inputs"], "all configuration call sequences up to a depth x all messages over a small identity, time and status grid",
  "Tests check one criterion at a time; combinations, inversions and order of calls are a product space.",
  ["src/decoders/oem/src/filter.cpp", DEC + "oem/filter.hpp"],
  [("Filter::DoFiltering and the per-criterion predicates", "src/decoders/oem/src/filter.cpp")],
  ["Filter::DoFiltering and getters"])

p("P15", "Parsers deliver every message once, filtered and converted",
  "Reading a stream through the parser yields, in order, each framed message that the filter passes, converted to the requested format exactly as the separate components would convert it, plus the unknown bytes when asked for, and nothing else. The file parser yields the same sequence as the parser for the same bytes, however the stream is chunked.",
  ["inputs", "histories"], "all streams of up to k segments x filter settings x output formats x option flags x chunkings",
  "Tests parse a few files with default options and count messages.",
  ["src/decoders/oem/src/parser.cpp", "src/decoders/oem/src/file_parser.cpp", DEC + "common/file_parser.hpp", DEC + "oem/parser.hpp"],
  [("Parser::ReadIntermediate / Read / Flush", "src/decoders/oem/src/parser.cpp"), ("FileParserBase::Read", DEC + "common/file_parser.hpp")],
  ["Parser::Read", "FileParser::Read"])

p("P16", "The message database answers like a map after any edit history",
  "After any sequence of appends, replacements, removals and merges of message and enum definitions, every lookup by id, name or enum returns exactly the last definition added and not removed, and enum fields of the definitions found refer to the enum definitions currently in force. Removing or replacing one definition never affects another, and a shallow or deep copy evolves independently.",
  ["histories"], "all operation sequences up to a depth over a small colliding alphabet of ids, names and enums",
  "Tests exercise short fixed sequences of one kind of operation.",
  [DEC + "common/message_database.hpp", "src/decoders/common/src/message_database.cpp"],
  [("name/id/enum maps and their mutation", "src/decoders/common/src/message_database.cpp")],
  ["MessageDatabase getters"])

p("P17", "Loading a JSON database is faithful, atomic and order independent",
  "Loading a message definition file yields exactly the definitions, field layout and enums it describes, from file or string alike and under every scheduling of the loader's parallel parts. Any malformed file raises the documented failure and yields no database.",
  ["inputs", "schedules"], "all documents over a small grammar of field kinds, every structural deletion or type change of a reference document, and all orders of the parallel loading tasks",
  "Tests load the shipped database and a few snippets; schedules of the two loader tasks and every malformed shape are not sampled.",
  ["src/decoders/common/src/json_db_reader.cpp", DEC + "common/json_db_reader.hpp"],
  [("ParseFields / ParseJsonDb", "src/decoders/common/src/json_db_reader.cpp")],
  ["ParseJsonDb", "LoadJsonDbFile"])

p("P18", "Commands encode to the message that means the same command",
  "Encoding a well-formed abbreviated command to ASCII or binary yields a message that frames and decodes back to the same command name, port and parameter values. Commands with unknown names, missing parameters or characters that can not be framed are refused with a status; other text yields a refusal or a well-formed message, never a malformed one, and nothing is written past the output buffer.",
  ["inputs"], "all commands over a small definition alphabet x parameter spellings x output formats x every buffer size and command length class",
  "Tests encode a few commands into a large buffer.",
  ["src/decoders/oem/src/commander.cpp", DEC + "oem/commander.hpp"],
  [("Commander::Encode", "src/decoders/oem/src/commander.cpp")],
  ["Commander::Encode"])

p("P19", "Range decompression reproduces the documented observations",
  "Decompressing any well-formed compressed range message (all five variants) yields a range log whose every observation equals, field by field, the value the published bit layout, scale factors, sign rules and tables define, with observations grouped and ordered as in the input. Validity markers, grouping flags and tracking status describe the same signal as the compressed entry.",
  ["inputs"], "every field of every variant over its boundary and basis bit patterns, all systems x signals, all reference/differential block sequences up to a depth",
  "Tests compare a few captured messages; each bit of each field and each signal/system pair is a distinct case.",
  ["src/decoders/oem/src/rangecmp/range_decompressor.cpp", DEC + "oem/rangecmp/common.hpp", "src/decoders/oem/src/rangecmp/channel_tracking_status.cpp", DEC + "oem/rangecmp/channel_tracking_status.hpp"],
  [("RangeCmp*ToRange, ExtractBitfield, sign extension", "src/decoders/oem/src/rangecmp/range_decompressor.cpp"), ("channel tracking status packing", "src/decoders/oem/src/rangecmp/channel_tracking_status.cpp")],
  ["RangeDecompressor::Decompress"])

p("P20", "Lock times and reference data evolve as documented over a session",
  "Over any sequence of compressed range messages, the lock time reported for each signal follows the documented saturation and relative/absolute rules from that signal's own history alone, and differential blocks are resolved only against the matching, most recent reference block. Resetting the decompressor makes it behave exactly like a new one.",
  ["histories"], "all message sequences up to a depth over lock-time codes, time steps, reference ids, sources and resets",
  "The state machine's transitions depend on multi-message histories; captured test messages visit a few of them.",
  ["src/decoders/oem/src/rangecmp/range_decompressor.cpp", DEC + "oem/rangecmp/range_decompressor.hpp"],
  [("GetRangeCmp2LockTime / GetRangeCmp4LockTime / reference block map / Reset", "src/decoders/oem/src/rangecmp/range_decompressor.cpp")],
  ["RangeDecompressor::Decompress over a session", "RangeDecompressor::Reset"])

p("P21", "Receiver configuration logs convert without loss",
  "Converting a receiver-configuration log between ASCII, binary, abbreviated ASCII and JSON keeps the embedded command, its header and its checksums correct, and the extracted command text is the same whichever input format it came from. Output stays within the caller's buffer for every buffer size, and logs that are cut short or damaged are refused or converted without touching memory outside them.",
  ["inputs", "configurations"], "all embedded commands of a small alphabet x input formats x output formats x buffer sizes",
  "Tests convert a few captured logs into a large buffer.",
  ["src/decoders/oem/src/rxconfig/rxconfig_handler.cpp", DEC + "oem/rxconfig/rxconfig_handler.hpp"],
  [("RxConfigHandler::Convert", "src/decoders/oem/src/rxconfig/rxconfig_handler.cpp")],
  ["RxConfigHandler::Write/Convert"])

p("P22", "Shared logging set-up is safe under every thread schedule",
  "When several threads create components or register loggers at once, every request for the same logger name gets the same usable logger object, no request fails, and initialisation and shutdown happen without deadlock, under every interleaving. The result equals some one-at-a-time order of the same calls.",
  ["schedules"], "all interleavings, up to a preemption bound, of 2-3 threads doing 1-2 logger operations with colliding names, at every lock operation",
  "No test uses threads; the bad windows are a few instructions wide.",
  [INC + "common/logger.hpp", "src/common/src/logger.cpp"],
  [("manager mutex and once flag", INC + "common/logger.hpp"), ("singleton access", "src/common/src/logger.cpp")],
  ["RegisterLogger", "InitLogger", "SetLoggingLevel", "Shutdown"])

p("P23", "Component instances never influence one another",
  "Framers, decoders, encoders, filters, parsers and decompressors used side by side - interleaved in one thread or on separate threads sharing one read-only database - each behave exactly as if they were alone. Re-using one instance for unrelated messages gives the same result as a new instance.",
  ["schedules", "histories"], "all interleavings of the call sequences of two instances, compared with each run alone, and all orders of messages through one instance",
  "A shared scratch buffer or cache only shows when two instances alternate at the right calls; tests use one instance at a time.",
  ["src/decoders/oem/src/framer.cpp", "src/decoders/common/src/message_decoder.cpp", DEC + "common/encoder.hpp", "src/decoders/oem/src/encoder.cpp", "src/decoders/oem/src/parser.cpp"],
  [("per-instance state only", "src/decoders/oem/src/*.cpp")],
  ["all component APIs"])

p("P24", "Python bindings agree with the C++ library",
  "Every operation offered by the Python package returns the same messages, values and statuses as the C++ component it wraps. Errors become exceptions without corrupting the underlying object.",
  ["inputs", "histories"], "all binding calls over the input spaces of P05-P18",
  "The Python tests sample a few logs; they also cannot run here.",
  ["python/src/py_oem/bindings/parser.cpp", "python/src/py_oem/bindings/decoder.cpp", "python/include/py_common/pystream.hpp"],
  [("nanobind bindings", "python/src/")],
  ["novatel_edie Python module"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
