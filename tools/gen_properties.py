#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

DEC = "netcode/detail/decoder.cc"; DECH = "netcode/detail/decoder.hh"; ENC = "netcode/detail/encoder.cc"
NDEC = "netcode/decoder.hh"; NENC = "netcode/encoder.hh"; PKZ = "netcode/detail/packetizer.hh"
GF = "netcode/detail/galois_field.hh"; INV = "netcode/detail/invert_matrix.cc"; SL = "netcode/detail/source_list.hh"
DH = "the decoder's data handler calls"; PH = "bytes given to the packet handler"

prop("C01", "Delivered data are byte-exact",
     "Every datum the decoder hands to the application has exactly the length and the bytes of one datum that was given to the encoder, whether it was received directly or rebuilt from repairs. This holds for every payload content and size, every Galois field size the library offers, and every loss, reordering and duplication of the packets the encoder emitted.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "All payload bytes; all payload sizes; all choices of which emitted packet arrives next (loss, reordering, duplication); in-order and out-of-order decoders; systematic and non-systematic encoders; all field sizes.",
     "Tests replay a few fixed loss patterns with fixed ASCII payloads and one random burst run; the interleavings of reordered repairs and sources and the payload/size combinations are unbounded.",
     [DEC, ENC, GF, INV, PKZ, NDEC, NENC],
     [("single-source reconstruction from a repair", DEC), ("elimination of known sources from repairs", DEC), ("matrix decoding of several sources", DEC), ("linear combination and size coding", ENC)],
     [("m_repairs / m_missing_sources", "repairs still holding unknown sources and the unknown sources they reference", DECH)], [DH])
prop("C02", "Each datum is delivered at most once",
     "A decoder never hands the same datum to the application twice, however often and in whatever order its source packet, and repairs that encode it, are received. Receiving a packet again after it has been fully exploited has no effect on what is delivered.",
     ["fault_sequences", "histories", "configurations"],
     "All sequences of emitted packets with arbitrary repetition and order, including repeats after the datum was rebuilt or became outdated; both ordering modes.",
     "Duplicate tests cover one duplicated source and two duplicated repairs in fixed positions; repeats at every other point of a history are not sampled.",
     [DEC, NDEC], [("already-seen and duplicate tests on arrival", DEC), ("ordered hand-over queue", DEC)],
     [("m_last_id / m_sources", "what is known to have been seen", DECH)], [DH])
prop("C03", "In-order decoders deliver in submission order",
     "An in-order decoder hands data to the application in strictly increasing submission order. It passes over a datum only after receiving a repair which shows that the encoder itself has stopped covering that datum, and never withholds a datum it knows once everything before it has been delivered or given up.",
     ["fault_sequences", "histories"],
     "All loss/reordering/duplication sequences of the packets of a bounded transfer, with unlimited and with bounded encoder windows.",
     "In-order tests use a handful of hand-written arrival orders.",
     [DEC, NDEC], [("ordered hand-over queue and flush", DEC), ("give-up on outdated sources", DEC)],
     [("m_first_missing_source_in_order, m_ordered_sources", "delivery frontier and the data waiting behind it", DECH)], [DH])
prop("C04", "Enough independent repairs recover every loss",
     "As soon as the repairs received by the decoder and still covering unknown data are linearly independent and as numerous as all the unknown data they cover together, all of those data are recovered in the same call. In particular one repair in which a single datum is unknown recovers that datum, and dependent or repeated repairs never reduce what later packets can recover.",
     ["fault_sequences", "histories", "inputs"],
     "All subsets and orders of received sources and repairs of a bounded transfer, including rank-deficient repair sets, for every payload content.",
     "Tests exercise successful decodings for a few loss patterns; none relates an arbitrary received set to its rank, and no test reaches the dependent-repairs path through the decoder.",
     [DEC, INV, GF], [("peeling of repairs with one unknown", DEC), ("matrix decoding and removal of the dependent repair", DEC), ("Gauss-Jordan inversion", INV)],
     [("m_repairs, m_missing_sources", "equations kept and unknowns", DECH)], [DH, "nb_decoded(), nb_missing_sources()"])
prop("C05", "A fresh source is available at once without ordering",
     "An out-of-order decoder hands every source packet that is neither a repetition nor outdated to the application during the call that receives it, before anything decoded thanks to it. Loss of other packets, pending repairs or acknowledgements never delay it.",
     ["fault_sequences", "histories"],
     "All arrival sequences of a bounded transfer, at every decoder state they reach.",
     "Tests check arrival of sources from a few decoder states only.",
     [DEC, NDEC], [("immediate callback in out-of-order mode", DEC)], [], [DH])
prop("C06", "Source packets survive the wire unchanged",
     "Reading back a serialized source packet yields the same identifier, the same length and the same bytes, and the reported number of bytes read is the packet's length. The documented header layout (type, 4-byte identifier, 2-byte length, big endian, then payload) holds for every identifier and payload.",
     ["inputs"], "All 32-bit identifiers, all payload bytes, payload sizes up to the stated bound.",
     "One identifier and one four-byte payload are tested.",
     [PKZ, "netcode/packet.hh", "netcode/detail/symbol_alignment.hh"], [("source writer and reader", PKZ)], [], [PH])
prop("C07", "Repair packets survive the wire unchanged",
     "Reading back a serialized repair packet yields the same identifier, list of covered source identifiers, encoded size and symbol bytes. The reported number of bytes read is the length of the packet, i.e. nothing in a repair packet is left unread.",
     ["inputs"], "All identifiers, all increasing identifier lists representable on the wire up to the stated length, all encoded sizes and symbol bytes.",
     "Five fixed lists are tested; run-length boundaries (runs of 255 and more) with arbitrary neighbours are not, and the number of bytes read is not checked for repairs.",
     [PKZ], [("repair writer and reader", PKZ), ("run-length coded identifier list", PKZ)], [], [PH])
prop("C08", "Acks and identifier lists survive the wire unchanged",
     "Reading back a serialized acknowledgement yields the same packet count and exactly the same set of source identifiers, including empty lists, single identifiers, long runs and large gaps. The reported number of bytes read is the packet's length.",
     ["inputs"], "All packet counts, all increasing lists of 32-bit identifiers up to the stated length and all run lengths around the coding limits.",
     "One four-element list is tested.",
     [PKZ, "netcode/detail/ack.hh"], [("run-length coding of adjacent differences", PKZ)], [], [PH])
prop("C09", "Arbitrary packets are handled safely",
     "Whatever bytes arrive in a packet, encoder and decoder stay within the memory they own, terminate, and either process the packet or raise one of the two documented errors (wrong packet type, truncated packet). A packet that is rejected delivers no data, and afterwards the instance still processes valid packets correctly.",
     ["inputs", "histories", "fault_sequences"],
     "All byte strings up to the stated length, presented to fresh instances and to instances holding sources and pending repairs.",
     "Tests try four crafted packets.",
     [PKZ, DEC, "netcode/detail/packet_type.hh", NDEC, NENC], [("bounded reads", PKZ), ("type check", "netcode/detail/packet_type.hh"), ("size clamping while decoding", DEC)], [], ["exceptions, memory accesses, data handler calls"])
prop("C10", "Acks remove exactly the acknowledged data",
     "After an acknowledgement the encoder's window holds exactly the data it held before, minus those listed, in the same order; identifiers that are unknown, already acknowledged or repeated in later acknowledgements change nothing. The window size reported to the user is the number of data the next repair covers.",
     ["inputs", "histories"], "All windows and all acknowledgement lists up to the stated sizes, arbitrary identifiers, sequences of acknowledgements.",
     "A few fixed acknowledgement lists on small windows are tested.",
     [SL, NENC], [("ordered merge erase", SL), ("acknowledgement handling", NENC)], [("m_sources", "data not yet acknowledged", NENC)], ["window(), identifier list of the next repair"])
prop("C11", "The encoder's window respects its limit",
     "The number of data kept by the encoder never exceeds the configured maximal window size once a datum is added, whatever the order of additions, acknowledgements and changes of the limit. When room must be made, the oldest data are discarded and the newest are all kept.",
     ["histories", "configurations"], "All sequences of additions, acknowledgements and limit changes up to the stated length.",
     "One test fills a window with a limit set up front.",
     [NENC, SL], [("eviction of the oldest source on commit", NENC)], [("m_window_size", "limit", NENC)], ["window(), identifier list of the next repair"])
prop("C12", "A repair is the announced combination of the window",
     "Every repair packet lists exactly the data currently in the window, and its symbol and its encoded size are the field-linear combination of those data and of their sizes with the coefficients that both sides derive from the repair's and data's identifiers, shorter data counting as zero-padded to the longest. Nothing of a previously generated repair leaks into it.",
     ["inputs", "histories", "configurations"], "All payload bytes and size patterns up to the stated bound, consecutive repairs over growing and shrinking windows, field sizes 4, 8, 16 (32: symbol).",
     "Encoder tests check identifier lists and round trips of a few sources; the combination itself is only compared for single decodings.",
     [ENC, NENC, "netcode/detail/repair.hh", GF], [("repair construction", ENC), ("repair reset", "netcode/detail/repair.hh")], [], [PH])
prop("C13", "Emission follows identifiers, rate and code type",
     "Data receive consecutive identifiers from 0 in submission order and repairs receive consecutive identifiers from 0 in emission order. A systematic encoder emits each datum unchanged once, a non-systematic one emits a repair instead, and both add one repair after every data whose submission count is a multiple of the rate; the counters equal the packets actually emitted and each packet is terminated exactly once.",
     ["histories", "configurations"], "All rates, code types and interleavings of additions, forced repairs and acknowledgements up to the stated length.",
     "Tests use one or two rates and a fixed sequence.",
     [NENC], [("commit and repair generation", NENC)], [("m_current_source_id, m_current_repair_id, m_rate", "numbering and cadence", NENC)], [PH, "nb_sent_sources(), nb_sent_repairs()"])
prop("C14", "Acks tell what is held, when due",
     "Every acknowledgement a decoder emits lists exactly the data it currently holds and still considers current (data learnt or forgotten during the very call that emits it may be listed or not), and the number of packets received since the previous acknowledgement. With automatic acknowledgement one is emitted when data are handed over and either the packet count has reached its threshold or the period (if not zero) has elapsed since the last automatic one, and not otherwise.",
     ["histories", "schedules", "configurations"], "All clock behaviours (arbitrary non-decreasing instants), thresholds, periods and packet sequences up to the stated length.",
     "Tests use one threshold and disable the clock-driven path.",
     [NDEC, PKZ], [("acknowledgement policy and construction", NDEC)], [("m_ack, m_last_ack_date", "pending acknowledgement and clock", NDEC)], [PH, "nb_sent_acks()"])
prop("C15", "Coefficients are non-zero field elements",
     "For every repair identifier, every data identifier and every field size the library offers, the coefficient used is a non-zero element of the field, and encoder and decoder derive the same one.",
     ["inputs", "configurations"], "All pairs of 32-bit identifiers, field sizes 4, 8, 16, 32.",
     "Tests hit a few small identifiers; overflow cases near 2^32 are never sampled.",
     [GF], [("coefficient derivation", GF)], [], ["repair contents"])
prop("C16", "Matrix inversion is right or refused",
     "Inverting a square coefficient matrix yields its exact inverse whenever one exists. Otherwise failure is reported together with a position that is inside the matrix and designates a line which depends linearly on the others.",
     ["inputs"], "All matrices up to the stated dimension over the stated field.",
     "One invertible and one singular 3x3 matrix and a comparison with a sample implementation are tested.",
     [INV, "netcode/detail/square_matrix.hh"], [("Gauss-Jordan elimination with row exchange", INV)], [], ["returned inverse / failure index"])
prop("C17", "The adaptive rate stays usable",
     "Whatever acknowledgements arrive and however many packets were sent since the last one, the adaptive rate stays between 1 and 50, is determined by the packets sent since the last acknowledgement and by the count the new one reports, and never decreases protection when the observed loss increases. With adaptation off, acknowledgements never change the rate.",
     ["inputs", "histories"], "All reported packet counts (16 bits) and all numbers of packets sent up to the stated bound.",
     "One test feeds two acknowledgements.",
     [NENC], [("loss estimate and rate computation", NENC)], [("m_nb_sent_packets, m_rate", "packets since last acknowledgement; rate", NENC)], ["rate()"])
prop("C18", "Field coding of sizes and symbols is invertible",
     "Multiplying a size or a symbol by any coefficient and then by that coefficient's inverse gives it back, the coding is additive, and sizes are coded consistently with symbols. This holds for every size from 0 to 65535, every coefficient and every field size.",
     ["inputs", "configurations"], "All 16-bit sizes, all symbol bytes and all non-zero coefficients of each field size.",
     "One product 1/5*5 is tested per field size.",
     [GF], [("size multiplication, region multiplication, inversion wrappers", GF)], [], ["recovered lengths"])
prop("C19", "Packet buffers keep content and alignment",
     "A packet behaves as a sequence of bytes: construction, assignment, resizing, reserving, clearing and appending give the content and size the documentation states and keep the leading bytes. The symbol of any packet held by the library, and every datum given to the application, starts on a 16-byte boundary.",
     ["inputs", "histories"], "All byte values and all sequences of packet operations up to the stated length; all reachable deliveries.",
     "Each operation is tested once on a fixed packet.",
     ["netcode/packet.hh", "netcode/detail/buffer.hh", "netcode/detail/symbol_alignment.hh"], [("shifted storage", "netcode/packet.hh"), ("aligned allocator", "netcode/detail/buffer.hh")], [], ["packet accessors; pointer given to the data handler"])
prop("C20", "The C interface mirrors the C++ one",
     "Every C call has the effect of the corresponding C++ operation with the same arguments, and hands the user's context and bytes unchanged to the C callbacks. Errors never escape as exceptions: they are reported by the matching error code (and no error code otherwise), with a message that is absent or a valid C string.",
     ["inputs", "histories"], "All argument values, packets and call sequences up to the stated length, and all exception kinds.",
     "Only resizing data and a crash-free decoder call are tested in C.",
     ["netcode/c/data.cc", "netcode/c/decoder.cc", "netcode/c/encoder.cc", "netcode/c/packet.cc", "netcode/c/detail/check_error.hh", "netcode/c/detail/handlers.hh"], [("exception to error-code translation", "netcode/c/detail/check_error.hh"), ("callback wrappers", "netcode/c/detail/handlers.hh")], [], ["ntc_error, callbacks, returned values"])
prop("C21", "Packets only act on the side they belong to",
     "Acknowledgements are processed by the encoder and sources and repairs by the decoder; a dispatched packet reaches exactly the matching side and the number of bytes read is returned. A packet of the wrong or of an unknown type is refused with the packet-type error carrying the packet, and changes nothing.",
     ["inputs", "histories"], "All packet type bytes and packet contents up to the stated length, in fresh and running states.",
     "Tests try one packet per type.",
     ["netcode/dispatch.hh", "netcode/detail/packet_type.hh", NDEC, NENC], [("type switch", "netcode/dispatch.hh"), ("type check", "netcode/detail/packet_type.hh")], [], ["counters, exceptions"])
prop("C22", "Dumped packets replay identically",
     "A sequence of packets (each of at most 65526 bytes, what the length field can express) written to a dump is read back as the same sequence of packets with the same sizes and bytes.",
     ["inputs", "histories"], "All packet contents and sizes up to the stated bound, sequences of several packets.",
     "One eight-byte packet is tested, never two in a row.",
     ["netcode/detail/serialize_packet.hh"], [("length-prefixed write/read", "netcode/detail/serialize_packet.hh")], [], ["packets read back"])
prop("C23", "No internal assertion fires on valid use",
     "In a build with assertions enabled no internal consistency check ever fails as long as the documented preconditions are respected, whatever packets emitted by a peer encoder are lost, reordered or duplicated.",
     ["fault_sequences", "histories", "configurations"], "All arrival sequences of a bounded transfer; both ordering modes; bounded and unbounded windows.",
     "The suite is run without assertions (release build) and on few histories.",
     [DEC, DECH, NDEC, NENC, ENC, PKZ], [("internal assertions", DEC)], [], ["process abort"])
prop("C24", "Data the encoder gave up are forgotten",
     "Once a decoder has received a repair, packets that concern only data older than the oldest datum that repair covers have no further effect, and such data are from then on neither reported missing nor acknowledged by later calls. Data that are not older are never dropped because of it, and an in-order decoder first hands over the ones it was holding back.",
     ["fault_sequences", "histories"], "All arrival sequences of a bounded transfer with an encoder window smaller than the transfer.",
     "Two fixed scenarios are tested.",
     [DEC, NDEC], [("dropping of outdated sources and repairs", DEC)], [("m_last_id", "oldest identifier still of interest", DECH)], [DH, "acknowledgement contents, nb_missing_sources()"])
prop("C25", "Encoder and decoder converge",
     "When the decoder holds every datum of the encoder's window and an acknowledgement reaches the encoder, the window becomes empty; data not held by the decoder always stay in the window. With both directions lossy, reordered or duplicated, every datum is at any time in the window, or known to the decoder, or deliberately evicted by the window limit.",
     ["fault_sequences", "histories"], "All interleavings of additions, packet deliveries, losses and acknowledgements of a bounded transfer, including late and repeated acknowledgements.",
     "End-to-end tests check only the delivered data for one pseudo-random loss process.",
     [NENC, NDEC, SL, DEC], [("acknowledgement loop", NENC), ("acknowledgement construction", NDEC)], [("m_sources", "encoder window", NENC)], ["window(), data handler calls"])
prop("C26", "Counters tell what happened",
     "The encoder's counters equal the numbers of sources and repairs it emitted and of acknowledgements it was given; the decoder's equal the numbers of sources and repairs it was given, of acknowledgements it emitted and of data it rebuilt from repairs. The number of missing data is that of the current unknown data covered by the repairs it keeps; useless repairs are the current, not repeated ones which arrived when all they cover was already held.",
     ["fault_sequences", "histories"], "All arrival sequences of valid packets of a bounded transfer, both ordering modes, with losses, repetitions, late packets and acknowledgements.",
     "Tests look at counters after a few fixed scenarios.",
     [NENC, NDEC, DEC], [("counters", NDEC), ("counters", NENC)], [("m_nb_decoded, m_nb_useless_repairs, m_nb_sent_repairs ...", "statistics", NDEC)], ["nb_sent_sources(), nb_sent_repairs(), nb_received_acks(), nb_received_sources(), nb_received_repairs(), nb_sent_acks(), nb_decoded(), nb_missing_sources(), nb_useless_repairs()"])

prop("C27", "Sessions do not influence each other",
     "Several encoders and decoders in one process, with the same or with different field sizes, orderings and settings, behave as if each were alone: creating, using or destroying one of them changes nothing in the packets, data, acknowledgements and counters of the others.",
     ["histories", "configurations", "inputs"], "All histories of a session up to the stated length, interleaved with another session that works, appears or disappears; all payload bytes; pairs of field sizes and orderings.",
     "Each test uses one encoder and one decoder; state shared between instances shows only when several differ.",
     [NENC, NDEC, DEC, ENC, PKZ, GF, INV], [("per-instance state", NENC), ("per-instance state", NDEC), ("field instance", GF)], [], [PH, DH])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
