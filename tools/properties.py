#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess, sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe="", hook=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, hook=hook, note=note))

DEC = ["src/divans_decompressor.rs", "src/codec/decoder.rs", "src/codec/mod.rs", "src/codec/interface.rs", "src/mux.rs", "src/cmd_to_raw/mod.rs"]
THR = ["src/parallel_decompressor.rs", "src/multithreading.rs", "src/threading.rs", "src/codec/decoder.rs", "src/codec/io.rs"]
ENC = ["src/brotli_ir_gen.rs", "src/divans_compressor.rs", "src/raw_to_cmd/mod.rs", "src/codec/mod.rs", "src/mux.rs"]
FFI = ["src/ffi/mod.rs", "src/ffi/compressor.rs", "src/ffi/decompressor.rs", "src/ffi/alloc_util.rs"]
SEAM = "cfg(divans_sim): the crate's std::thread and std::sync come from a seam the simulator schedules"

prop("C01", "Multithreaded decoding gives what serial decoding gives",
 "For every compressed stream, however the calls are sliced and however the two threads are interleaved, the multithreaded decoder delivers the same bytes as the serial decoder and ends the stream at the same input byte, without asking for input past it. On a damaged stream it never succeeds where the serial decoder does not, and what comes out before the failure agrees.",
 ["schedules", "inputs"], "all interleavings of the client thread with the worker thread, spurious wakeups, stalled threads, clock jumps, call slicings, valid and damaged streams",
 "The tests decode a handful of files under whatever schedule the machine happens to produce; a lost wakeup or a misordered command buffer needs a particular interleaving.",
 THR + ["src/divans_decompressor.rs"],
 [("hand-over of command batches, input buffers and context maps between the two threads", "src/multithreading.rs MultiWorker"), ("choice between the two decoders once the header is read", "src/divans_decompressor.rs")],
 [("commands, returned input, context maps in flight", "what one thread has handed over and the other has not taken yet")], "bytes and return codes of every decode call", SEAM)
prop("C02", "The multithreaded decoder always comes to an end",
 "Every decode call of the multithreaded decoder returns, and every stream, whether valid, truncated, damaged or hostile, is brought to success, failure or a request for more input in a bounded number of steps, whatever the interleaving. A fault in the worker thread reaches the caller as a failure, never as a call that does not return.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings, spurious wakeups, stalled threads, clock jumps, damage to the stream, a panic of the worker thread at any of its allocations",
 "A deadlock shows only under particular interleavings of particular (mostly damaged) streams; the tests decode intact files only.",
 THR, [("waiting for commands, input and context maps", "src/multithreading.rs MultiWorker::pull_data, pull_command_buf, push_cmd, push_eof, broadcast_err"), ("ending the worker's input", "src/codec/decoder.rs")],
 [("waiters of the condition variable", "which thread sleeps and what would wake it")], "return of every call, end of the worker thread", SEAM)
prop("C03", "A multithreaded decoder can be given up at any point",
 "A multithreaded decoder may be freed or dropped after any number of calls, also before the first: that returns, the worker thread ends, and every block obtained from the caller's allocator has been returned to it by then. The caller's allocation callbacks are not used after that.",
 ["schedules", "crash_points", "fault_sequences"], "the call after which the client gives up, all interleavings with the worker at that moment, valid and damaged streams",
 "The tests always decode to the end; giving up half way under a particular interleaving is never exercised.",
 THR + FFI, [("ending the worker and taking its allocations back", "src/parallel_decompressor.rs free, src/multithreading.rs"), ("C destructor", "src/ffi/mod.rs divans_free_decompressor")],
 [("worker thread", "running, waiting or done when the client gives up")], "return of free, state of the worker thread, the allocator's books", SEAM)
prop("C04", "What was compressed decompresses to the same bytes",
 "For every input, every combination of option values the interface accepts and every slicing of the compression and decompression calls, compressing and then decompressing yields the original bytes. This holds through the Rust and the C interface and whichever of the two is used on either side.",
 ["inputs", "configurations", "histories"], "data of many shapes and sizes, compressor options, slicing of input and output on both sides (down to single bytes and empty calls), interface on each side",
 "The tests round-trip a few files with a few option sets and a few fixed buffer sizes; resumption state in every coder depends on where the output buffer happens to fill up.",
 ENC + DEC, [("resumption after a full output buffer", "src/codec/*.rs, src/divans_compressor.rs freeze_dry"), ("command generation", "src/brotli_ir_gen.rs, src/raw_to_cmd/mod.rs")],
 [("partially coded command", "where in a command the coder stopped")], "decoded bytes against the original")
prop("C05", "What is coded depends on data and options only",
 "The commands and literals a compressed stream carries are determined by the data and the options: slicing of the calls can only change how they are framed. The same sequence of calls yields the same bytes every time, whatever other instances do in between, whatever the allocator's memory held before and whichever interface is used.",
 ["inputs", "configurations", "histories"], "data, options, slicings, memory contents at allocation, another instance working in between, Rust or C interface",
 "Tests compare round trips only; an encoder that depends on uninitialised memory, on global state or on where the buffer filled up still round-trips.",
 ENC + ["src/alloc_util.rs", "src/ffi/compressor.rs"], [("multiplexing of the two coded streams", "src/mux.rs"), ("storage reused without clearing", "src/alloc_util.rs, src/ffi/alloc_util.rs")],
 [("coded streams", "the payloads of the two multiplexed streams")], "compressed bytes, taken apart by an independent parser")
prop("C06", "Decoding does not depend on how the calls are sliced",
 "However input and output are cut into calls, the decoder delivers the same bytes and reports success exactly once the last byte of the stream has been consumed and the last byte of output delivered, leaving any bytes that follow the stream unread; it never asks for more input once it has been given the whole stream. On a damaged stream, success or not and the bytes delivered do not depend on the slicing either.",
 ["inputs", "histories"], "valid streams followed by arbitrary bytes, damaged streams, all slicings including single bytes and empty calls, serial and multithreaded decoder",
 "The tests use a few fixed buffer sizes on intact streams with nothing after them.",
 DEC, [("header, demultiplexer and trailer assembled across calls", "src/divans_decompressor.rs, src/mux.rs, src/codec/decoder.rs")],
 [("unfinished header, frame, trailer", "what of them arrived in earlier calls")], "bytes, input position and return code of each call", SEAM)
prop("C07", "A damaged stream is never taken for a good one",
 "With checksums on, a decoder that reports success on a stream that was altered after compression delivered the original bytes. Any change confined to 32 consecutive bits is always rejected unless the original bytes come out.",
 ["inputs", "fault_sequences"], "bit flips, bursts, lost bytes, overwritten tails at any place in the stream, with any slicing, serial and multithreaded decoder",
 "One test, if any, flips one byte; whether every byte of the stream is covered by the checksum under every slicing needs all positions and slicings.",
 DEC + ["src/codec/crc32.rs"], [("running checksum over all consumed input and its comparison at the end", "src/codec/decoder.rs, src/codec/crc32.rs")],
 [("running checksum", "over every byte consumed so far")], "return code and bytes", SEAM)
prop("C08", "A truncated stream is never taken for a complete one",
 "Of a compressed stream cut off anywhere before its end, no decoder reports success and no reader reports a clean end of file, with or without checksum verification; what they deliver is a prefix of the original bytes.",
 ["inputs", "crash_points"], "every cut position (header, frames, end marker, trailer), all slicings, serial, multithreaded and adaptor interfaces",
 "The tests do not truncate streams; each cut position ends in a different internal state.",
 DEC + ["src/reader.rs"], [("end marker and trailer", "src/mux.rs, src/codec/decoder.rs"), ("end of input seen by an adaptor", "src/reader.rs")],
 [], "return code and bytes", SEAM)
prop("C09", "No input makes the decoder panic, hang or overstep its buffers",
 "For every byte sequence offered as a stream, well formed or not, every decode call returns with its offsets within the buffers offered, does not write outside the offered output, and does not panic; output cannot be prolonged without end from finite input.",
 ["inputs", "fault_sequences"], "damaged, spliced, reframed and random streams, streams with valid framing and checksum that carry arbitrary commands, hostile window sizes, all slicings, serial and multithreaded decoder",
 "The tests feed valid streams; hostile input is an unbounded space.",
 DEC + ["src/codec/copy.rs", "src/codec/dict.rs", "src/codec/literal.rs", "src/codec/context_map.rs", "src/codec/block_type.rs"],
 [("validation of decoded command fields", "src/codec/*.rs, src/cmd_to_raw/mod.rs")], [], "return codes, offsets, guard bytes round the output, panics", SEAM)
prop("C10", "Once a stream has ended or failed, it stays that way",
 "After a decoder has reported success, further calls report success again, consume nothing and deliver nothing; after it has reported failure, further calls report failure and deliver nothing. After a compressor's flush has reported success, further flushes report success and deliver nothing.",
 ["histories", "inputs"], "calls after the end with any input and any room, valid and damaged streams, all interfaces",
 "Tests stop calling when they see the end.",
 DEC + ENC + FFI, [("terminal states", "src/divans_decompressor.rs, src/parallel_decompressor.rs, src/codec/mod.rs")], [("terminal state", "ended or failed, remembered across calls")], "return codes, offsets", SEAM)

prop("C11", "The read adaptors deliver exactly the right bytes over any reader",
 "Whatever a reader underneath does (short reads, Interrupted, WouldBlock, hard errors at any point) and whatever buffer sizes are used, a caller of a compressing or decompressing Read adaptor that goes on after errors obtains exactly the right bytes and then end of file. Every error of the reader underneath is reported once (Interrupted is retried). A truncated stream never ends in a clean end of file, a damaged one only with the original bytes, and neither end of file nor failure is followed by anything else.",
 ["fault_sequences", "inputs", "histories"], "faults of the reader at every call, buffer sizes from one byte, read sizes including zero, valid, truncated and damaged streams, serial and multithreaded",
 "The tests read from memory, which never fails and never gives a short read.",
 ["src/reader.rs"] + DEC, [("one loop for all adaptors", "src/reader.rs GenReader::read, copy_to_front")], [("input buffer, deferred error, end of input", "state carried between read calls")], "bytes and errors of every read", SEAM)
prop("C12", "The write adaptors put exactly the right bytes into any writer",
 "Whatever a writer underneath does (short writes, writes of nothing, Interrupted, WouldBlock, hard errors at any point), when a caller that offers again what was not taken sees flush succeed, exactly the right bytes have been written underneath, once and in order, and the writer underneath has been flushed after them. Once the compressed stream has been ended nothing more is written.",
 ["fault_sequences", "inputs", "histories"], "faults of the writer at every call, buffer sizes from one byte, write sizes including zero, retries after every error, calls after the end, serial and multithreaded",
 "The tests write to memory, which takes everything and never fails.",
 ["src/writer.rs"] + DEC, [("one loop for all adaptors", "src/writer.rs GenWriter::write, flush, drain")], [("output the writer underneath has not taken", "kept between calls")], "bytes underneath, results of every write and flush", SEAM)
prop("C13", "Every block goes back, once, to the allocator it came from",
 "When a compressor or decompressor is freed through its free function, after any number of calls and whatever state its stream is in, every block it obtained from the caller's allocators has been given back exactly once, to the allocator it came from; nothing is written outside a block or after it was given back.",
 ["histories", "inputs", "crash_points"], "calls before the free, valid and damaged streams, both compressors, serial and multithreaded decoder, Rust allocators and C callbacks",
 "The tests use allocators that do not keep books, and free only after complete streams.",
 DEC + ENC + FFI + ["src/alloc_util.rs", "src/threading.rs"], [("hand-over of buffers between the halves of the decoder", "src/threading.rs SerialWorker"), ("block reuse", "src/alloc_util.rs RepurposingAlloc")],
 [("blocks handed out", "by allocator, size and type")], "the allocator's books after free", SEAM)

prop("C14", "A sequence of commands decodes to what the commands mean",
 "Every sequence of valid commands (literals, copies within the window, dictionary words, block switches, prediction modes), handed to the internal compressor in any batches and with any room for output, yields a stream that every decoder turns into exactly the bytes the commands stand for. The command interpreter makes the same bytes of them.",
 ["inputs", "configurations", "histories"], "command sequences no compressor would produce, windows small enough for the data to wrap round them many times, batching of the commands, output room down to single bytes, decoder and slicing on the other side",
 "The tests code what the compressors happen to produce, and a few recorded command files; the distance cache, the ring buffer's edge and dictionary words at that edge have states no file there reaches.",
 ["src/divans_compressor.rs", "src/cmd_to_raw/mod.rs", "src/codec/mod.rs", "src/codec/copy.rs", "src/codec/dict.rs", "src/codec/literal.rs", "src/codec/block_type.rs", "src/codec/context_map.rs", "src/codec/interface.rs", "src/ir_optimize"],
 [("coding of each kind of command", "src/codec/*.rs"), ("interpreting commands over a ring buffer", "src/cmd_to_raw/mod.rs DivansRecodeState"), ("recent distances", "src/codec/interface.rs, src/codec/copy.rs")],
 [("ring buffer", "the last 2^window bytes made"), ("distance cache", "distances used last"), ("block types and context maps", "in force for the next literal and distance")], "bytes of decoder and interpreter against the meaning of the commands", SEAM)

prop("C15", "The command line tool says success only when its output is complete and right",
 "Whatever the system does to the command line tool's files and standard streams (short reads and writes, Interrupted, errors at any operation, a full disk, an output that takes nothing), it ends, and with exit status 0 only if its output is complete and right: what was compressed decompresses to the input, what was decompressed is the original, what was recoded is what the commands mean. A truncated stream never ends in exit status 0, a damaged one only if the original comes out. When nothing failed and the input was valid, it does. The input is never changed.",
 ["fault_sequences", "inputs", "configurations"], "faults at every system call the tool makes, compressing, decompressing, interpreting and coding command files, files and standard streams, option combinations, valid, truncated and damaged input",
 "The tests of the tool call its inner functions on memory; its handling of what the system answers is not tested.",
 ["src/bin/divans.rs", "src/bin/integration_test.rs", "src/reader.rs", "src/writer.rs"] + DEC, [("read, write and retry loops", "src/bin/divans.rs compress_inner, decompress, recode_inner"), ("choice of input and output", "src/bin/divans.rs main")],
 [("buffers of the loops", "what was read and not yet coded, coded and not yet written")], "files, standard output and exit status of a simulated process", SEAM,)
prop("C16", "Doing what the last answer asked for leads to the end",
 "A caller that owns one input and one output buffer of any size, offers more input only when a call answers that it needs input, empties the output only when a call answers that it needs room, and otherwise calls again, always compresses or decompresses to the end. A request for more input comes only when all the input offered has been consumed; no call leaves everything as it was twice over.",
 ["histories", "inputs", "configurations"], "buffer sizes from one byte on both sides, compressors and decoders, serial and multithreaded, valid and damaged streams, Rust and C interface",
 "The tests' drivers refill and drain on every call, which hides a wrong answer; a caller that takes the answers literally loses data or stalls.",
 ENC + DEC + FFI, [("answers of encode, flush and decode", "src/interface.rs DivansResult, src/brotli_ir_gen.rs, src/divans_compressor.rs, src/divans_decompressor.rs, src/ffi")],
 [("input not yet consumed, output not yet delivered", "kept inside between calls")], "return code and offsets of every call", SEAM)
prop("C17", "The C interface does exactly what the Rust interface does",
 "Given the same options and the same calls, the C functions give the same answers, consume and deliver the same bytes as the Rust types, byte for byte and call for call. An option set again replaces the earlier value. Missing states or offsets, selectors and values nothing stands for, and options after the start are refused with a failure code and change nothing. The allocation helpers use the caller's allocator. If there is no memory for the state, no state is returned.",
 ["histories", "configurations", "fault_sequences", "inputs"], "option sequences, call sequences with slicings, misuse between any two calls, with and without a caller's allocator, failure of the state's allocation",
 "One test drives the C functions through one sequence; options are never compared with their Rust counterparts.",
 FFI + ["src/interface.rs"], [("option selectors", "src/ffi/compressor.rs set_option"), ("argument checks", "src/ffi/mod.rs"), ("choice of compressor at the first call", "src/ffi/compressor.rs")],
 [("options set so far", "in force at the first encode or flush call")], "return codes, offsets, bytes, the C allocator's books", None)
prop("C18", "Instances do not disturb one another",
 "Any number of compressors and decompressors may be in use at a time, their calls interleaved in any way, one of them failing or not, each with its own allocator or a shared one: each delivers what it would deliver alone.",
 ["histories", "schedules", "inputs"], "two to four instances of all kinds, turn taking, schedules of the worker threads of several multithreaded decoders, damaged streams in some of them",
 "The tests use one instance at a time.",
 ENC + DEC + THR + FFI, [("state kept per instance", "all of src, in particular src/multithreading.rs and src/ffi/alloc_util.rs")], [("global state", "there should be none")], "bytes and return codes of each instance", SEAM)

prop("C19", "Streams made by earlier builds still decompress to what went into them",
 "The format does not change silently: every stream that an earlier build of the compressor made, with whatever options, is decompressed by the present build to the bytes it was made from, by the serial and the multithreaded decoder, however the calls are sliced and the threads interleaved.",
 ["inputs", "configurations", "schedules"], "streams kept from the build at the pinned commit and since, made with all kinds of data, options and command sequences; slicings, interface, decoder, schedules",
 "No test decodes a stored stream: a change made to compressor and decoder alike (a constant of a model, an order of fields) passes every round trip and makes all existing files unreadable.",
 DEC + ["src/codec", "src/probability", "src/ans.rs", "src/arithmetic_coder.rs", "src/priors.rs", "src/constants.rs", "src/cmd_to_raw/mod.rs", "src/ffi/mod.rs"], [("layout of header, frames and commands, models and their adaptation", "src/codec/*.rs, src/probability/*.rs, src/mux.rs, src/ans.rs")],
 [("adaptive models", "must go through the same states as when the stream was made")], "decoded bytes against hashes of the originals", SEAM,
 "Seeded random search over 1604 stored streams (sim/corpus.bin, sim/large.bin), slicings and thread schedules. It is not exhaustive: what no stored stream uses is not covered.")

prop("C20", "Builds with other features speak the same format",
 "Built with or without the standard library, without the C interface and unsafe code (safe), dividing by table (avoid-divide), with frequencies that are not cached (uncached_frequentist), or with nothing inlined (no-inline): the same data or commands, options and calls give the same compressed bytes, call for call, and a stream made by any of these builds is decompressed alike by all of them, serial or multithreaded, to the data if it is valid and with the same answers and the same bytes if it is damaged. A build with probabilities of the other kind (blend), whose format is its own, decompresses what it compressed to the data and takes no damaged stream for whole.",
 ["inputs", "configurations", "histories", "schedules"], "builds, data, commands and options, slicings, valid, stored and damaged streams, thread schedules where the build has threads",
 "Tests run against one build at a time; a stream never goes from one build to another, so parts that only one of them compiles may drift apart while every round trip passes.",
 ["Cargo.toml", "src/lib.rs"] + ENC + DEC + ["src/probability/mod.rs", "src/probability/frequentist_cdf.rs", "src/probability/opt_frequentist_cdf.rs", "src/probability/blend_cdf.rs", "src/probability/div_lut.rs", "src/probability/numeric.rs", "src/slice_util.rs", "src/arithmetic_coder.rs", "src/ans.rs"],
 [("choice of probability model and division", "src/probability/mod.rs, src/interface.rs DefaultCDF16, src/probability/*"), ("with and without std, threads and unsafe code", "src/lib.rs, src/stub_parallel_decompressor.rs, src/parallel_decompressor.rs, src/interface.rs, src/slice_util.rs")],
 [("adaptive models", "must go through the same states whatever represents them")], "bytes, return codes and offsets of every call of two builds side by side", SEAM,
 "Seeded random search over workloads, slicings, damage and thread schedules. It is not exhaustive. Two other builds are compared with the usual one: std+safe+avoid-divide+no-inline and no-stdlib-rust-binding+safe+uncached_frequentist; std+safe+avoid-divide+blend with itself. Not covered: simd (its crate is not installed), the debugging features.")

prop("C21", "Compressing makes data smaller and never much larger",
"With the default adaptation speeds, whatever the other options, and the slicing of the calls: the compressor, brotli choosing the commands, makes at least ten repetitions of a pattern that fits well into the window less than half as large (plus 500 bytes); bytes drawn at random from at most 16 values come out at most five eighths as large (plus 500 bytes), and no data, noise included, comes out more than an eighth larger (plus 500 bytes), with either way of choosing commands.",
["inputs", "configurations", "histories"], "data, options, slicings",
"Nothing else fails when a model no longer learns, a match is no longer found across two calls, or commands are coded with the wrong prior on both sides: every round trip still passes. Tests print ratios of a few files and check few of them.",
ENC + ["src/brotli_ir_gen.rs", "src/divans_compressor.rs"],
[("matches over what earlier calls gave", "src/brotli_ir_gen.rs ring buffer and encode callbacks"), ("models that adapt", "src/probability/*, src/codec/*")],
[("adaptive models", "learn from everything coded so far, however it was given")], "size of the compressed stream against the size of the data", SEAM,
"Seeded random search over data, options and slicings. It is not exhaustive. The bounds are deliberately loose, with margins taken from runs on the unchanged tree: a slightly worse ratio is not noticed.")

exec(open(os.path.join(HOME, "tools/more.py")).read()) if os.path.exists(os.path.join(HOME, "tools/more.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])
na = {x["property"] for x in NOT_APPLICABLE}
with open(os.path.join(HOME, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": [p["observe"]], "hook_needed": p["hook"]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^sim:"], capture_output=True, text=True).stdout.split()
NOTE = ("Seeded random search over workloads, call slicings, faults%s: the property held on every run made. "
        "Runs are deterministic, so a failure replays exactly. It is not exhaustive. Trusted: the simulator, its models of the allocator%s, and the reference models in sim/src/model.rs.")
checks = []
for p in P:
    if p["id"] in na:
        continue
    thr = p["hook"] is not None
    checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"], "technique": T, "level": "exploration",
                   "level_note": p["note"] or NOTE % (" and thread schedules" if thr else "", ", threads, locks and clock" if thr else "")})
json.dump({"version": 1, "setup_cmd": "./run.sh build", "hooks": {"guard": "cfg(divans_sim)", "enable": "RUSTFLAGS=--cfg divans_sim (sim/.cargo/config.toml)", "source_commits": hook},
           "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": "See DESIGN.md. Replays: sim/target/release/divsim replay FILE. Known findings and fixes: known_findings.txt."},
          open(os.path.join(HOME, "MANIFEST.json"), "w"), indent=1)
