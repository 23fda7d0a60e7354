#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "protocol/src/"
T = "traffic/src/"
props = []
def prop(id, title, statement, over, qtext, why, files, mech, level, note, technique):
    if len(title) > 80: sys.exit(f"{id}: title {len(title)}")
    props.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level=level, note=note, technique=technique))

prop("C01", "Both sides derive exactly the secrets BIP-324 specifies, fresh per connection",
 "For every pair of keys, role and network magic, the two ends of a connection derive the same session id, the same garbage terminators and the same four keys, and these are the values the BIP-324 specification prescribes, with the sending material of one side being the receiving material of the other. Changing either key, the role assignment or the magic changes all of them. Every new connection uses a fresh secret and a fresh key encoding.",
 ["inputs", "configurations"], "all secret keys, remote ElligatorSwift encodings, roles, network magics",
 "Tests use a handful of fixed vectors with the mainnet magic; nothing compares roles, other magics or random encodings with an independent derivation.",
 [P+"lib.rs", P+"handshake.rs"], [("SessionKeyMaterial::from_ecdh", P+"lib.rs"), ("Handshake::new / new_with_rng", P+"handshake.rs")], "exploration",
 "Differential against an independently written model (own HKDF/SHA-256/ElligatorSwift hash order) on random and edge keys; trusts libsecp256k1 for curve arithmetic and its ElligatorSwift decoding.", "differential property-based testing against a reference model")
prop("C02", "Every packet on the wire is byte-for-byte what BIP-324 prescribes",
 "For every session, sequence of contents, packet types and associated data, each packet produced is byte-identical to the one the specification prescribes at that position, however many packets were sent before, including across key rotations every 224 packets and past every internal counter width. In the other direction every conforming packet with any header bits is decrypted to exactly its header, contents and length.",
 ["inputs", "histories"], "all sequences of packets (sizes 0..2^24-1, types, AAD) of any length in both directions",
 "Test vectors cover a few indices up to 224 packets and one size class; rotations, counters and sizes beyond are not reached.",
 [P+"lib.rs", P+"fschacha20poly1305.rs", "README.md"], [("FSChaCha20Poly1305 / FSChaCha20 rekeying", P+"fschacha20poly1305.rs"), ("OutboundCipher::encrypt, InboundCipher", P+"lib.rs")], "exploration",
 "Differential against a from-scratch ChaCha20/Poly1305/FS model; histories to thousands of packets for bodies and past 2^24 (quick) or 2^32 (thorough) length chunks.", "stateful differential property-based testing against a reference model")
prop("C03", "Packets decrypt to exactly what was encrypted, in order, in every usage style",
 "For every sequence of messages exchanged over a session in both directions, the receiver obtains the same types, contents and lengths in the same order, whichever of the in-place, buffer or allocating operations either side uses and however the two directions interleave. Sessions remain usable after being split or cloned, and the reported buffer sizes are always exactly sufficient.",
 ["inputs", "histories"], "all message sequences, interleavings of the directions and choices among the API variants",
 "Unit tests send a few messages through one variant each; mixing variants, directions, and long histories is not covered.",
 [P+"lib.rs"], [("CipherSession, InboundCipher, OutboundCipher", P+"lib.rs")], "exploration", "Random histories over all API variants between two real sessions; oracle is the sent list.", "stateful property-based testing (round-trip)")
prop("C04", "Altered, reordered, replayed or foreign packets never decrypt",
 "A packet whose length field, header, contents, tag or associated data differs in any bit from the one the peer sent at this position in this direction of this session is rejected with an authentication error. No plaintext of a rejected packet is ever returned as a success.",
 ["inputs", "histories"], "all bit changes, truncations, extensions, replays, reorderings, cross-direction and cross-session deliveries at any history position",
 "Tests flip one hand-picked byte of one packet; the quantifier over positions, kinds of change and histories is untested.",
 [P+"lib.rs", P+"fschacha20poly1305.rs"], [("Poly1305 verification in decrypt_in_place", P+"fschacha20poly1305.rs"), ("InboundCipher::decrypt*", P+"lib.rs")], "exploration",
 "Every single-bit change of small packets (enumerated per case) and random structural tampering, at random history positions.", "property-based testing with structured mutation; exhaustive single-bit flips per generated packet")
prop("C05", "Misuse and bad input return errors, never panic, and leave the session intact",
 "Operations given too small a buffer, a ciphertext shorter than a tag, an undersized or forged packet return the documented error and never panic. A refused encryption or an undersized decryption call consumes nothing: the same correct call made next succeeds and the stream stays synchronised.",
 ["inputs", "histories"], "all buffer sizes, ciphertext lengths and positions of the failed call in the history",
 "Tests check single error returns on fresh ciphers, not that the session continues unharmed afterwards or every length class.",
 [P+"lib.rs", P+"handshake.rs"], [("buffer checks in encrypt/decrypt/send_key/send_version", P+"lib.rs, "+P+"handshake.rs")], "exploration",
 "Random histories with injected failing calls followed by continued use; all buffer lengths around the exact size.", "stateful property-based testing with injected misuse")
prop("C06", "Conforming peers always complete the handshake and agree on where it ends",
 "Two parties configured with opposite roles and the same network always complete the handshake, whatever garbage (up to 4095 bytes) and decoys each sends and however the bytes are fed. The reported numbers of consumed bytes are exact, so bytes of later packets that arrived together with the handshake are left untouched and decrypt correctly.",
 ["inputs", "configurations", "schedules"], "all garbage lengths and contents, decoy lists, version contents, feeding granularities, both roles",
 "Tests run a few fixed handshakes with tiny garbage, one feeding pattern.",
 [P+"handshake.rs"], [("Handshake typestate machine", P+"handshake.rs")], "exploration", "Local vs local and local vs model peer with boundary-weighted garbage and decoys.", "property-based testing against a model peer")
prop("C07", "The handshake never completes on bytes the peer did not send",
 "If any byte of what the remote sent up to the end of its version packet is altered, removed, inserted, repeated or reordered, or if the parties disagree on network or roles, the affected party never reports a completed handshake. In particular garbage is authenticated, and no decoy can be dropped.",
 ["inputs", "configurations"], "all edits of the remote's handshake bytes; all mismatched magics and roles",
 "Tests have one bad-garbage example; the space of edits is not sampled.",
 [P+"handshake.rs"], [("garbage as AAD of the first packet, tags", P+"handshake.rs")], "exploration", "Structured man-in-the-middle edits with shrinking; assumes forging by chance is negligible.", "property-based testing with structured man-in-the-middle mutation")
prop("C08", "The garbage terminator is found exactly, within 4095 bytes of garbage",
 "The handshake finds the first occurrence of the 16-byte terminator at any offset from 0 to 4095, however the bytes arrive and whatever look-alikes precede it, and asks for more data exactly while it might still appear. A stream without it in that range is refused with the dedicated error after a bounded number of bytes, and local garbage above 4095 bytes is refused before anything is sent.",
 ["inputs", "schedules"], "all garbage contents incl. terminator prefixes and near misses, all offsets around the limit, all chunkings",
 "Tests try one garbage string; the boundary and look-alike contents are not covered, nor chunked delivery through the blocking and async drivers.",
 [P+"handshake.rs", P+"io.rs", P+"futures.rs"], [("receive_garbage / split_garbage", P+"handshake.rs"), ("garbage read loops", P+"io.rs, "+P+"futures.rs")], "exploration", "Oracle is a naive search; terminators placed around every boundary; sans-IO and both I/O drivers.", "property-based testing against a naive search oracle")
prop("C09", "A version-1 peer is recognised exactly by the network magic it starts with",
 "A remote whose first four bytes equal the configured network magic is reported as a version 1 peer, and any other remote is not, in the sans-IO, blocking and async interfaces alike. After a version-1 detection no terminator, decoy or version bytes have been sent.",
 ["inputs", "configurations", "schedules"], "all magics, first-64-byte contents, roles, chunkings",
 "One test with the mainnet magic.",
 [P+"handshake.rs", P+"io.rs", P+"futures.rs"], [("V1 check in receive_key", P+"handshake.rs")], "exploration", "Version messages, partial/reversed/shifted magics, and other networks.", "property-based testing")
prop("C10", "Blocking sessions send and deliver exactly the right bytes, however fragmented",
 "Over any blocking transport that moves arbitrary amounts per call and interrupts calls, the blocking protocol completes the handshake, sends exactly the bytes the specification prescribes, has flushed them when an operation returns or waits for the peer, and returns every packet of the peer once, in order, unchanged. It never loses bytes that arrived together with handshake bytes and never waits for bytes a conforming peer only sends later.",
 ["inputs", "schedules", "histories"], "all call-by-call transfer sizes and interruptions, all configurations, packet sequences and read/write interleavings",
 "Tests use in-memory transports that always transfer everything.",
 [P+"io.rs"], [("handshake_with_initialized, ProtocolReader/Writer, ProtocolSessionReader", P+"io.rs")], "exploration", "Scripted transport with a model peer; oracle is the exact byte stream plus delivered packets; waiting is detected logically, not by time.", "stateful property-based testing over a scripted transport with a model peer")
prop("C11", "Async sessions send and deliver exactly the right bytes, whenever ready",
 "Over any async transport that is ready at arbitrary moments for arbitrary amounts, the async protocol completes the handshake, sends exactly the bytes the specification prescribes, has flushed them when an operation returns or waits for the peer, and returns every packet of the peer once, in order, unchanged. It registers for wake-ups properly and never stalls while the transport is ready.",
 ["inputs", "schedules", "histories"], "all poll-by-poll readiness and transfer sizes, configurations, packet sequences and read/write interleavings",
 "Tests use in-memory duplex pipes with whole-message transfers.",
 [P+"futures.rs"], [("handshake, ProtocolReader::read, ProtocolWriter::write, ProtocolSessionReader::poll_read", P+"futures.rs")], "exploration", "Hand-polled futures over a scripted transport; stalls are detected from waker bookkeeping.", "stateful property-based testing of poll schedules with a model peer")
prop("C12", "Cancelling an async read never loses or corrupts anything",
 "However often and at whatever point a pending async read is dropped, the reads that follow deliver exactly the packets the peer sent, once and in order. Writes between cancelled reads stay correct.",
 ["schedules", "histories"], "all cancellation points (poll counts) across all transfer schedules and packet sequences",
 "No test cancels a read.",
 [P+"futures.rs"], [("DecryptState kept in ProtocolReader", P+"futures.rs")], "exploration", "Random cancellation points over random readiness schedules, including one-byte schedules so every byte boundary is a cancellation point.", "property-based testing of poll/cancel schedules")
prop("C13", "Every I/O failure surfaces as the right error and never as delivered data",
 "Whenever the transport fails or ends at any byte of the handshake or session, on reading, writing or flushing, the operation in progress returns an I/O error of the transport's kind with the documented suggestion (retry with version 1 for reset, aborted and end of stream; abort otherwise), all packets fully received before are delivered, and no partial or forged packet is. A failed write or flush is never reported as success.",
 ["crash_points", "fault_sequences", "inputs"], "every byte offset and operation of the connection crossed with every error kind, both drivers",
 "Tests cover one EOF case.",
 [P+"io.rs", P+"futures.rs"], [("From<io::Error> for ProtocolError, eof()", P+"io.rs")], "fault_enumeration", "All fault offsets of small sessions enumerated for several kinds, plus random larger ones.", "exhaustive fault-point enumeration plus property-based fault injection")
prop("C14", "Size limits are enforced at the documented boundaries and memory stays bounded",
 "During the handshake a packet announced above the documented limit (about 4 MB) is refused with the dedicated error before its body is read, in both I/O interfaces, so an unauthenticated peer cannot make them allocate more than that. A blocking session refuses larger packets with the same error and never holds more than one packet. Packets up to the limit are delivered (by an async session up to the protocol's 2^24-1 bytes), and contents that do not fit the 3-byte length field are refused on sending with nothing written and the session still usable.",
 ["inputs"], "all announced lengths 0..2^24-1 in handshake and session, all content sizes on sending incl. >= 2^24",
 "One oversize handshake test each; boundaries, session path and sending are not covered.",
 [P+"lib.rs", P+"io.rs", P+"futures.rs"], [("MAX_PACKET_SIZE_FOR_ALLOCATION checks", P+"io.rs, "+P+"futures.rs, "+P+"lib.rs"), ("encrypt length check", P+"lib.rs")], "exploration", "Boundary-weighted sizes against a counting allocator; the 16-byte ambiguity zone between the handshake and session limit is accepted either way.", "boundary-weighted property-based testing with an instrumented allocator")
prop("C15", "No byte stream from a peer causes a panic, hang or forged delivery",
 "For every byte stream a remote can send, honest prefix or arbitrary, the sans-IO, blocking and async interfaces terminate with a result or an error, without panicking or reading without end, and everything they deliver is a prefix of what the genuine peer sent. After a rejected packet nothing further is delivered as authentic unless it is the peer's packet at that position.",
 ["inputs", "histories"], "all remote byte streams: random, mutated honest sessions, truncations, insertions, splices, wrong networks",
 "The existing fuzz targets are not run in tests and assert little.",
 [P+"handshake.rs", P+"io.rs", P+"futures.rs", P+"lib.rs"], [("parsing of all remote input", P+"handshake.rs, "+P+"io.rs, "+P+"futures.rs")], "exploration", "Structure-aware mutation of honest model-peer streams and raw streams; fuel-bounded transports detect endless loops by count.", "structure-aware fuzzing with a prefix oracle")
prop("C16", "The ignore bit alone separates decoys from genuine packets and versions",
 "For all 256 header bytes, exactly the most significant bit decides whether a packet is a decoy, in the handshake and in the session, and reserved bits are ignored. The first non-decoy packet of the handshake is the version packet, whatever its contents.",
 ["inputs", "histories"], "all header bytes; all sequences of decoys with arbitrary reserved bits; all version contents",
 "Tests use only the two header bytes the library itself emits.",
 [P+"lib.rs", P+"handshake.rs"], [("PacketType::from_byte", P+"lib.rs"), ("receive_version", P+"handshake.rs")], "exploration", "All 256 headers enumerated at three positions; random negotiations.", "exhaustive enumeration plus property-based testing")
prop("C17", "Blocking traffic shaping is transparent to a conforming peer",
 "With any shaping configuration the blocking shaped protocol interoperates with any conforming peer: the peer decrypts every packet, decoys carry the ignore bit, and the non-decoy packets are exactly the messages written, in order and unchanged, while every packet of the peer is returned once in order. This holds while background decoys are sent concurrently with writes.",
 ["configurations", "schedules", "inputs", "histories"], "all configurations, message sequences, entropy and timings of background decoys",
 "Tests only construct and drop the wrapper.",
 [T+"io.rs", T+"lib.rs"], [("ShapedProtocolWriter::write, decoy_thread", T+"io.rs")], "exploration", "Model peer decrypts everything written; real background thread, accelerated clock.", "stateful property-based testing with a model peer")
prop("C18", "Async traffic shaping is transparent, also when writes are cancelled",
 "With any shaping configuration the async shaped protocol interoperates with any conforming peer: the peer decrypts every packet, decoys carry the ignore bit, and the non-decoy packets are exactly the messages written, in order and unchanged. A write whose future is dropped is delivered completely or not at all, and never disturbs later ones.",
 ["configurations", "schedules", "inputs", "histories"], "all configurations, message sequences, readiness patterns, timer positions, cancellation points",
 "Tests only construct and drop the wrapper.",
 [T+"futures.rs", T+"lib.rs"], [("writer_task, ShapedProtocolWriter::write", T+"futures.rs")], "exploration", "Virtual time single-threaded runtime; scripted transport; model peer decrypts everything.", "stateful property-based testing under virtual time with a model peer")
prop("C19", "Shaping adds exactly what the configuration asks for, within protocol limits",
 "With a strategy disabled the shaper adds nothing of that kind; with padding enabled garbage of 0 to 4095 bytes is sent and every message is accompanied by one decoy of 1 to 1024 bytes, and with decoys enabled 0 to 3 handshake decoys and random background decoys of 1 to 1024 bytes are sent. The amounts vary between connections and messages.",
 ["configurations", "inputs", "histories"], "all four configurations, entropy values, message sequences",
 "Unit tests with a stepping mock generator check only presence.",
 [T+"lib.rs"], [("TrafficShaper::handshake/pad/decoy", T+"lib.rs")], "exploration", "Observed on the wire through the model peer, over many seeds, for both drivers.", "property-based testing with a model peer and aggregate checks")
prop("C20", "Dropping a shaped protocol ends its background work and frees the transport",
 "After both halves of a shaped protocol are dropped, or its writer half alone, its background activity ends once the transport has taken the write in progress, if any, the transport writer is released, and shortly afterwards (immediately for the blocking one) nothing more is written. While it lives with decoys enabled, background decoys keep coming even when the application is silent.",
 ["schedules", "histories", "configurations"], "all drop orders and moments relative to pending writes and ticks, all configurations",
 "Tests drop but do not observe that anything stopped.",
 [T+"io.rs", T+"futures.rs"], [("Drop for ShapedProtocolWriter", T+"io.rs"), ("writer_task exit", T+"futures.rs")], "exploration", "Virtual time for async; for the blocking thread the state is examined when drop returns.", "property-based testing of drop schedules under virtual time")
prop("C21", "Traffic statistics are exact under concurrency",
 "After any set of concurrent recordings the reported write/read ratio equals bytes written over bytes read, is absent exactly when nothing has been read, and the time since the last activity is the time since the latest recording, or since creation when there was none. A system clock that is set back causes no panic and no inflated time.",
 ["inputs", "schedules"], "all recording sequences and thread interleavings",
 "One sequential example.",
 [T+"lib.rs"], [("AtomicTrafficStats", T+"lib.rs")], "exploration", "Random sequential histories under a virtual clock and multi-thread scripts against sums; real threads, so interleavings are sampled.", "property-based testing, sequential and multi-threaded")
prop("C22", "Splitting and taking apart a connection continues the stream seamlessly",
 "Splitting a protocol into halves or taking a half apart into its cipher and transport at any packet boundary loses, repeats or reorders nothing: bytes already received but not yet consumed are still readable from the returned reader, and the returned ciphers continue exactly at the next packet.",
 ["histories", "schedules", "inputs"], "all packet boundaries, chunkings, orders of splitting, both drivers",
 "No test takes a connection apart.",
 [P+"io.rs", P+"futures.rs", P+"lib.rs"], [("into_split, into_inner, ProtocolSessionReader", P+"io.rs, "+P+"futures.rs")], "exploration", "Random packet counts before the split, model peer as oracle.", "stateful property-based testing with a model peer")
prop("C23", "Shaped connections never report lost messages as sent when the transport fails",
 "When the transport of a shaped protocol fails during padding, a message or a background decoy, the write in progress or the next write reports an error, every write reported as successful was completely handed to the transport, and the peer can decrypt everything up to the failure with the non-decoy packets being a prefix of the messages written. The library never panics in the background.",
 ["crash_points", "fault_sequences", "schedules", "configurations"], "every byte offset of the output crossed with error kinds, configurations and timing of background decoys, both drivers",
 "No test injects a failure.",
 [T+"io.rs", T+"futures.rs"], [("write, decoy_thread", T+"io.rs"), ("writer_task", T+"futures.rs")], "fault_enumeration", "Random fault offsets and kinds against the byte-exact log of the transport.", "property-based fault injection with a model peer")
prop("C24", "Sans-IO, blocking and async interfaces behave identically on the wire",
 "Given the same entropy, configuration, messages and remote bytes, the blocking and the async protocol produce the same output bytes, deliver the same packets and fail with the same class of error, and both agree with driving the sans-IO handshake and ciphers by hand. This includes malformed and truncated remote bytes.",
 ["inputs", "schedules", "histories"], "all configurations, remote streams (honest and mutated), transfer schedules",
 "Each interface has its own few tests; nothing compares them.",
 [P+"io.rs", P+"futures.rs", P+"handshake.rs"], [("handshake in both drivers", P+"io.rs, "+P+"futures.rs")], "exploration", "Three-way differential with a deterministic entropy stand-in.", "differential property-based testing of three implementations")
prop("C25", "The two halves of a connection work independently of each other",
 "After a connection, shaped or not, blocking or async, is taken apart with into_split, a half that waits for the peer or for the transport, fails, or is dropped never delays, alters or fails the operations of the other half. In particular a message can always be written while a read waits for the answer to it, and packets can be read while a write waits for the transport.",
 ["schedules", "histories", "fault_sequences", "configurations"], "histories of exchanges, stalls, failures and drops of either half, with the halves in two threads or tasks, over all configurations, transports and peers",
 "Tests use the halves one after the other.",
 [P+"io.rs", P+"futures.rs", T+"io.rs", T+"futures.rs"], [("into_split", P+"io.rs, "+P+"futures.rs, "+T+"io.rs, "+T+"futures.rs")], "exploration", "Two real threads, or two tasks under virtual time, against a model peer that answers only what it was sent; a hang is an operation without progress in 600 wake-ups.", "stateful property-based testing over schedules of two halves with a model peer")
prop("C26", "Connections used side by side in one program do not influence each other",
 "When a program uses several connections at the same time, in any mixture of the sans-IO, blocking, async and shaped interfaces, with the steps of their handshakes and packets interleaved in any order, also inside of each other's transport calls, and with some of them abandoned in the middle, each connection sends and delivers exactly what it would alone. This holds also for connections to the same peer, with the same network magic or with the same keys.",
 ["schedules", "histories", "configurations"], "2 to 4 connections, interleavings at every public call and every wait of a transport, abandoned at any point",
 "Every test has a single connection at a time.",
 [P+"handshake.rs", P+"lib.rs", P+"fschacha20poly1305.rs", P+"io.rs", P+"futures.rs", T+"lib.rs"], [("the connection's state is owned by its handshake and ciphers", P+"handshake.rs, "+P+"lib.rs")], "exploration", "Generated interleavings in one thread; every connection is compared with its own model peer.", "stateful property-based testing of interleaved connections against independent models")
prop("C27", "Memory does not grow with packets carried, decoys skipped or past connections",
 "The memory a session, protocol or shaped protocol holds, beyond what was handed to the application, does not grow with the number of packets it has sent, received, skipped, rejected or had cancelled, with the number of decoys of a handshake, or with the time a transport takes nothing; and a connection that is finished, failed, cancelled in the handshake, taken apart or dropped gives back all it used, so a program can go through any number of connections.",
 ["histories", "fault_sequences", "configurations", "schedules"], "repeated rounds of any operations, ways for connections to end, sizes of handshakes and stalls; each at five doublings of the work",
 "Tests do not look at memory and are too short for growth to matter.",
 [P+"io.rs", P+"futures.rs", P+"lib.rs", P+"handshake.rs", T+"io.rs", T+"futures.rs", T+"lib.rs"], [("read, write, handshake", P+"io.rs, "+P+"futures.rs"), ("writer_task, decoy_thread, Drop", T+"futures.rs, "+T+"io.rs")], "exploration", "A counting allocator at five moments with doubled work; growth at each of the last three doublings is a failure, one-time growth is not.", "property-based testing with a memory oracle over repeated generated histories")
prop("C28", "The sans-IO interface behaves the same without the standard library",
 "Built without the `std` feature, and in debug and release builds alike, the handshake state machine and the ciphers derive the same secrets, produce the same bytes, find the same garbage terminators, deliver the same packets and report the same errors as the specification and the other builds do, for all inputs and histories.",
 ["configurations", "inputs", "histories"], "all inputs and histories of the sans-IO interface, in builds with and without the standard library, and with and without debug assertions and overflow checks",
 "The unit tests are compiled only with the `std` feature and only in debug builds.",
 [P+"lib.rs", P+"handshake.rs", P+"fschacha20poly1305.rs"], [("cfg(feature = \"std\") items, debug assertions", P+"lib.rs, "+P+"handshake.rs, "+P+"fschacha20poly1305.rs")], "exploration", "The families of C01-C09, C16 and C30 that use the sans-IO interface, recompiled against the crate without std, in two profiles; their oracle is the reference model. One architecture only.", "property-based testing against a reference model, in every build of the crate")
prop("C29", "Any two interfaces of the library interoperate, on any runtime and transport",
 "Two ends of the library in opposite roles, each in any of its four drivers (blocking, async, shaped blocking, shaped async), complete the handshake over any reliable stream that can hold the bytes of a handshake, and then deliver all messages written at both ends at the same time exactly once, in order and with their types, whatever amounts the stream takes, holds and gives at once. Async ends do so on a current-thread runtime, on a multi-threaded one where tasks change threads, and, without shaping, on an executor that is not tokio's. Nothing else arrives but the decoys of shaping, and once an end is dropped the other one sees the end of the stream.",
 ["configurations", "schedules", "inputs"], "pairs of drivers, runtimes, transport capacities and both message sequences",
 "Tests connect the library to itself only in memory large enough for everything, blocking with blocking and async with async, in one thread.",
 [P+"io.rs", P+"futures.rs", T+"io.rs", T+"futures.rs"], [("Protocol, ProtocolReader, ProtocolWriter", P+"io.rs, "+P+"futures.rs"), ("ShapedProtocol and its halves", T+"io.rs, "+T+"futures.rs")], "exploration", "Real threads and runtimes, so schedules are sampled; the model takes no part here, only what was sent. No network stack: the stream is an in-process pipe.", "property-based testing with real threads and runtimes (round-trip)")

prop("C30", "Forward secrecy: a rotated session holds no key that opens what went before",
 "Both ciphers of a direction change their keys after every 224 packets, so that whoever reads a session's memory cannot decrypt earlier traffic. Once a packet of a later epoch has been processed, neither the values that make up a session (the cipher session, its split ciphers, the blocking and the async protocol and their halves), nor heap memory the library still owns, nor static or thread-local memory holds the length key or the packet key of an earlier epoch of that direction, or, once a direction has rotated, the handshake's shared secret, ephemeral secret key or the secret from which all keys are expanded. After a session is dropped none of its keys is left there. Forged and repeated packets, splitting, and copies that were dropped do not change this.",
 ["inputs", "histories", "configurations"], "sequences of packets in both directions, interfaces and handshakes",
 "Secrets that linger do not change what is sent or received, so no test that compares behaviour can see them; and it depends on how often, in which direction and through which interface keys rotated.",
 [P+"fschacha20poly1305.rs", P+"lib.rs", P+"io.rs", P+"futures.rs"], [("FSChaCha20::crypt, FSChaCha20Poly1305::rekey", P+"fschacha20poly1305.rs"), ("CipherSession, InboundCipher, OutboundCipher, SessionKeyMaterial", P+"lib.rs")], "exploration", "Whole 32-byte values are searched for; stack frames that have returned and freed memory are not (the library does not wipe them). Which key is which comes from the reference model.", "property-based testing: memory searched against a reference model")

UNBUILT = set(open(os.path.join(HERE, "tools/unbuilt")).read().split()) if os.path.exists(os.path.join(HERE, "tools/unbuilt")) else set()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="./check.sh build",
    checks=[dict(property=p["id"], quick_cmd="./check.sh "+p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
        technique=p["technique"], level=p["level"], level_note=p["note"]) for p in props if p["id"] not in UNBUILT],
    not_applicable=[dict(property=i, reason="check still under construction") for i in sorted(UNBUILT)],
    notes="No hooks: everything is observed through the public API. Replay a failure with: ./check.sh replay <file>.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
