#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

B, S, BIN = "blake2b/src/", "blake2s/src/", "blake2_bin/src/main.rs"
def both(*names): return [d + n for n in names for d in (B, S)]

prop("C01", "One-shot BLAKE2b/BLAKE2s digests are exactly the specified function",
  "For every message and every legal combination of parameters (digest length, key, salt, personalisation, fanout, max depth, leaf length, node offset, node depth, inner length, last-node flag), hashing all at once returns exactly the digest the BLAKE2 specification defines, of exactly the requested length. The call always returns: no legal parameters and no message make it panic, loop or fail.",
  ["inputs", "configurations"], "all messages of every length x all legal parameter sets, for both the 64-bit and the 32-bit function",
  "The KAT vectors fix one key length (64/32), messages under 256 bytes and default tree parameters; one further vector per crate sets all parameters at once. No test varies parameters independently, uses partial keys/salts, or compares long messages to an independent reference.",
  both("lib.rs", "guts.rs", "portable.rs", "avx2.rs", "sse41.rs"),
  [("parameter block folded into the IV", B+"lib.rs Params::to_words"), ("one-shot path", B+"lib.rs Params::hash"),
   ("compression loops", B+"portable.rs, avx2.rs; "+S+"portable.rs, sse41.rs")],
  [("Params", "pending parameter block, key block and implementation choice", B+"lib.rs")],
  ["blake2b(), blake2s()", "Params::hash", "Hash::as_bytes"])

prop("C02", "One-shot BLAKE2bp/BLAKE2sp digests are exactly the specified tree hash",
  "For every message, digest length and key, the parallel variants return exactly the digest of the specified tree: 4 (8) leaves fed round-robin blocks, key absorbed by the leaves only, leaf digests untruncated, last-node flags on the last leaf and the root. The call always returns, for empty messages, messages shorter than one stripe and messages of any length.",
  ["inputs", "configurations"], "all messages x all digest lengths 1..max x all key lengths 0..max, both crates",
  "KATs use 0..255 byte messages (two stripes of BLAKE2sp at most, never a full BLAKE2bp stripe) with a full-length digest and one key; the in-crate reference test compares the crate to itself, unkeyed, for chosen block counts.",
  [B+"blake2bp.rs", S+"blake2sp.rs"] + both("many.rs", "guts.rs"),
  [("leaf and root parameter words", B+"blake2bp.rs Params::to_words"), ("striped jobs", B+"blake2bp.rs Params::hash"),
   ("root finalisation", B+"blake2bp.rs finalize_root_words")],
  [("leaf_words/root_words", "chaining values of leaves and root", B+"blake2bp.rs State")],
  ["blake2bp::blake2bp, blake2sp::blake2sp", "Params::hash"])

prop("C03", "Incremental hashing depends only on the concatenated bytes",
  "For all four functions and any parameters, feeding a message to an incremental hasher in any sequence of pieces (any sizes, including empty ones, through update or through the standard Write interface) yields the specified digest of the concatenation, the same as hashing it all at once. Write accepts every byte it is given and never fails.",
  ["inputs", "histories"], "all messages x all ways of splitting them into update/write calls x all parameters",
  "Tests split in halves, single bytes, or one byte followed by the rest on a few fixed messages; the buffering code has one state per fill level (128/64/1024/512) times the next piece's length, which they sample at a handful of points.",
  both("lib.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("partial-block buffering", B+"lib.rs State::update, fill_buf, compress_buffer_if_possible"), ("double buffer of the parallel variants", B+"blake2bp.rs State::update"),
   ("std::io::Write", B+"lib.rs impl Write for State")],
  [("buf, buflen", "bytes held back because they may be final", B+"lib.rs State"), ("buf, buf_len", "up to two stripes held back", B+"blake2bp.rs State")],
  ["State::update, io::Write::write, State::finalize"])

prop("C04", "Finalize, count, clone and last-node obey the hasher's life-cycle rules",
  "At any point of any history of calls on an incremental hasher: reading the digest changes nothing and may be repeated and followed by more input; count() is exactly the number of bytes fed so far (key excluded); a clone and its original evolve independently; and the last-node flag in force when the digest is read is the only one that matters, whenever and however often it was set. This holds for all four functions and all parameters.",
  ["histories", "inputs"], "all interleavings of update, finalize, count, clone, set_last_node over a family of hashers forked from one another",
  "Tests finalise twice at one fixed point, never clone mid-stream, set the last-node flag once, and check count on a handful of lengths.",
  both("lib.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("finalize works on a copy of the words", B+"lib.rs State::finalize"), ("count", B+"lib.rs State::count"), ("set_last_node", B+"lib.rs State::set_last_node"), ("derived Clone", B+"lib.rs State")],
  [("count", "bytes compressed so far", B+"lib.rs State"), ("last_node", "flag applied at finalisation", B+"lib.rs State")],
  ["State::finalize, count, clone, set_last_node"])

prop("C05", "hash_many gives each job exactly the digest it would get alone",
  "For any number of jobs, in any order, with any mixture of input lengths (including empty), keys, digest lengths, tree parameters and last-node flags, one call to hash_many leaves every job holding exactly the specified digest of its own input under its own parameters. Running a job again, alone or mixed with fresh jobs, changes nothing; cloned and never-batched jobs are unaffected, and a debug build refuses to read the digest of a job that has not been run.",
  ["inputs", "histories", "schedules"], "all batches (number, order, lengths, per-job parameters), all sequences of batches over a pool of jobs; the lane scheduler's working-set evolution is driven by the length vector",
  "The fuzz test draws up to 8/16 jobs of at most 3 blocks from one fixed seed with all-ones keys, and compares against the crate's own one-shot path; finished/unfinished mixtures and longer or larger batches are not reached.",
  both("many.rs", "guts.rs", "sse41.rs", "avx2.rs"),
  [("working set refill and eviction", B+"many.rs compress_many, fill_jobs_vec, evict_finished"), ("lane kernels", B+"avx2.rs compress4_loop, sse41.rs compress2_loop; "+S+"avx2.rs compress8_loop, sse41.rs compress4_loop"),
   ("keyed job setup", B+"many.rs HashManyJob::new")],
  [("Job", "remaining input, words, count, last_node of one lane", B+"guts.rs"), ("finished", "job has its digest", B+"many.rs HashManyJob")],
  ["many::hash_many, HashManyJob::to_hash"])

prop("C06", "update_many is equivalent to updating each hasher separately",
  "For any collection of hashers, each at any point of its own history, and any inputs paired with them, one update_many call leaves every hasher in a state indistinguishable from calling update on it alone: same count, same digest now, and same digests after any further single or batched updates. Nothing about the batch (its size, order, neighbours' lengths or parameters) can influence a hasher.",
  ["inputs", "histories", "schedules"], "all sets of hashers with arbitrary buffered amounts and parameters x all input vectors x all later histories",
  "The tests start from fresh states, feed the same input twice, use at most 3 blocks and 8/16 states, and finalise once.",
  both("many.rs", "lib.rs", "guts.rs", "sse41.rs", "avx2.rs"),
  [("lazy job construction with buffer flush", B+"many.rs update_many"), ("working set", B+"many.rs compress_many")],
  [("buf/buflen/count", "advanced before the job runs", B+"many.rs update_many")],
  ["many::update_many, State::finalize, State::count"])

prop("C07", "Every build configuration and CPU back end computes the same thing",
  "For the same sequence of public operations, every configuration - portable, SSE4.1 and AVX2 back ends, chosen at compile time or detected at run time, with or without std, with or without uninline_portable, optimised or debug - returns identical digests, counts and accept/reject decisions. The reported parallelism degree matches the back end in use and never exceeds the published maximum.",
  ["configurations", "inputs", "histories"], "all supported configurations x all operation histories",
  "Each test binary runs one detected back end; SSE4.1-only and statically enabled AVX2 builds are never run, and back ends are compared only on a few fixed lengths at the kernel level.",
  both("guts.rs", "portable.rs", "sse41.rs", "avx2.rs", "many.rs") + ["blake2b/Cargo.toml", "blake2s/Cargo.toml"],
  [("run-time and compile-time detection", B+"guts.rs Implementation::detect"), ("dispatch", B+"guts.rs compress1_loop/compress2_loop/compress4_loop"), ("uninline_portable", B+"portable.rs round")],
  [("Implementation", "the selected back end", B+"guts.rs")],
  ["every public operation", "many::degree, many::MAX_DEGREE"])

prop("C08", "Long inputs: byte counters and lengths never truncate",
  "Digests and counts stay correct when the number of bytes hashed crosses any internal width: a single slice or a stream longer than 2^32 bytes in every function and API, the carry of the 32-bit BLAKE2s counter and of the 64-bit BLAKE2b counter into their high words, per leaf in the parallel variants and per lane in the batch APIs, whichever lane carries first.",
  ["inputs", "histories"], "all total lengths below the format's limit, with the counter crossing a word boundary at any block and in any lane, in every API and back end",
  "No test hashes more than a few kilobytes through the public API; the kernel-level carry tests use the portable code as its own reference, so an error in the shared counter helpers is invisible.",
  both("lib.rs", "guts.rs", "many.rs", "portable.rs", "sse41.rs", "avx2.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("count split", B+"guts.rs count_low, count_high, assemble_count"), ("vector carry", B+"avx2.rs add_to_counts, "+S+"sse41.rs add_to_counts"), ("length arithmetic", B+"lib.rs State::update, "+B+"blake2bp.rs State::update")],
  [("count", "u128/u64 byte counter", B+"lib.rs State"), ("Job.count", "per-lane counter", B+"guts.rs")],
  ["State::count, finalize, hash_many, update_many on >4 GiB mappings"],
  "guarded setter that places a fresh hasher or job at a given byte count, so the 2^64 carry of BLAKE2b is reachable")

prop("C09", "No public call reads or writes memory it was not given",
  "Whatever the inputs' addresses, alignments and lengths, and whatever the parameters, histories and back end, the library reads only the slices passed to it, writes only its own objects, never reads uninitialised memory and executes no undefined behaviour. In particular it never touches a byte before or after an input slice and never writes to one.",
  ["inputs", "histories", "configurations"], "all input addresses, alignments and lengths x all operation histories x all back ends",
  "Ordinary test allocations are surrounded by readable memory, so an over-read of a tail block or of a lane's neighbour is silent; no test runs under a sanitizer.",
  both("avx2.rs", "sse41.rs", "guts.rs", "many.rs", "lib.rs"),
  [("raw-pointer block reads bounded by fin_offset", B+"avx2.rs compress1_loop, compress4_loop; sse41.rs compress2_loop"), ("tail copied to a zeroed buffer", B+"guts.rs final_block"), ("unaligned loads and stores", B+"avx2.rs loadu/storeu")],
  [], ["all public operations on guard-paged, read-only, misaligned inputs"])

prop("C10", "Parameters: legal values always accepted and independent, illegal ones rejected",
  "Setting any parameter to a value in its documented range is accepted, sets exactly that field (the last value set wins, shorter values leave no residue of longer ones, setters commute), and copies or reuses of the builder behave like fresh ones; setting any value outside the range panics, in optimised and debug builds alike. Defaults equal the specification's sequential-hash defaults, and an empty key, salt or personalisation equals not setting one.",
  ["inputs", "histories"], "all sequences of setter calls with in-range and out-of-range values on the builders of all four functions",
  "Tests probe one just-out-of-range value for some setters in debug builds and one all-parameters vector; they never overwrite a parameter, vary setter order or try values that alias after narrowing.",
  both("lib.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("range assertions", B+"lib.rs Params setters"), ("zero fill before copy", B+"lib.rs key, salt, personal"), ("48-bit node offset", S+"lib.rs node_offset")],
  [("Params", "builder fields", B+"lib.rs")],
  ["Params setters, Params::hash, Params::to_state"])

prop("C11", "Hash values: exact bytes, canonical hex, equality iff identical",
  "A hash value exposes exactly its digest bytes, in the requested length, through every accessor; its hex form is the lowercase two-digit encoding of those bytes and its Debug form shows just that hex; and it compares equal to another hash or byte string exactly when both length and every byte agree, as an equivalence relation. Converting an array to a hash and back is lossless.",
  ["inputs"], "all digest lengths and digest contents, all pairs of hashes and byte slices",
  "Tests compare equal values and a few hex strings; they never compare values differing in one late bit, in length only, or truncated digests against slices.",
  both("lib.rs"),
  [("length-bounded view", B+"lib.rs Hash::as_bytes"), ("hex", B+"lib.rs bytes_to_hex"), ("equality", B+"lib.rs impl PartialEq for Hash")],
  [("Hash", "bytes plus length", B+"lib.rs")], ["Hash::as_bytes, as_array, as_ref, to_hex, ==, From, Debug"])

prop("C12", "Timing: control flow and addresses never depend on keys, messages or digests",
  "While hashing (one-shot, incremental, batched, all four functions) no branch and no memory address depends on the contents of the key or message, only on public lengths and parameters. Comparing a hash with another hash or byte string of the same length executes no branch and no address that depends on either value's contents.",
  ["inputs", "configurations"], "all keys, messages and digests; all lengths; all back ends",
  "Functional tests cannot observe timing or control flow; an early-exit comparison or a data-dependent shortcut returns the same results.",
  both("lib.rs", "portable.rs", "sse41.rs", "avx2.rs", "guts.rs", "many.rs"),
  [("constant_time_eq", B+"lib.rs impl PartialEq for Hash"), ("straight-line compression", B+"portable.rs, avx2.rs")],
  [], ["definedness of branch conditions and addresses under memcheck with secrets marked undefined"])

prop("C13", "Debug output never reveals keys, messages or intermediate state",
  "The Debug text of parameter builders, incremental hashers and batch jobs is determined by public data only (lengths, counts, flags, salt, personalisation, tree parameters): two objects that differ only in key bytes or message bytes always print identical text, in every formatting style and at every point of their history.",
  ["inputs", "histories"], "all pairs of histories that agree on public data and differ in secret bytes",
  "No test formats these types at all.",
  both("lib.rs", "many.rs", "guts.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("hand-written Debug impls", B+"lib.rs, many.rs, guts.rs, blake2bp.rs")], [],
  ["format!(\"{:?}\"), format!(\"{:#?}\")"])

prop("C14", "Hashers used concurrently never interfere",
  "Any number of threads may hash at the same time, each with its own hashers, or sharing builders, hashers and hash values for reading: every result is what the same calls give single-threaded, under every schedule, including when the first use of the library happens on many threads at once. There are no data races, and all public types can be sent to and shared between threads.",
  ["schedules", "histories"], "all interleavings of operations on distinct hashers and of read-only operations on shared ones",
  "All tests are sequential within a test; a shared scratch buffer, a racy cache or a lock in the wrong place would not show.",
  both("lib.rs", "guts.rs", "many.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("no interior mutability or statics other than std's CPU-feature cache", B+"guts.rs Implementation::detect")], [],
  ["results of concurrent operations; ThreadSanitizer and Miri race reports"])

prop("C15", "blake2 tool prints the right digest for what it read, however it was read",
  "For every file or standard input of any size, every variant and every parameter flag, the command prints the lowercase hex of the specified digest of exactly the bytes read, one line per input in argument order, labelled with the path when there is more than one. The result does not depend on how the bytes arrive: memory-mapped or read, from a file or pipe, in full, short or interrupted reads.",
  ["inputs", "fault_sequences", "configurations"], "all contents and sizes x all flag combinations x all sequences of short and interrupted reads x file/pipe/mmap",
  "The tests run the binary on 3-byte inputs with one flag combination per variant; no input spans two reads, no two files are ever given, and no read is short or interrupted.",
  ["blake2_bin/src/main.rs"],
  [("flag to parameter mapping", BIN+" make_params"), ("read loop", BIN+" read_write_all"), ("mapping", BIN+" mmap_file"), ("output loop", BIN+" main")],
  [], ["stdout of the blake2 process; the read() calls it made"])

prop("C16", "blake2 tool: every failure is reported, and never as a digest",
  "If any input cannot be opened, mapped or completely read, or a flag or value is invalid or not applicable to the chosen function, or the result cannot be written, the exit status is non-zero and no digest is printed for that input; the other inputs are still hashed correctly and in order, and each failing input is named on standard error. The exit status is zero exactly when every requested digest was printed.",
  ["inputs", "fault_sequences"], "all argument vectors x all open/read/mmap/write failures at any point",
  "No test exercises a failing input, a failing read part-way through a file, an invalid flag or several inputs.",
  ["blake2_bin/src/main.rs"],
  [("error collection", BIN+" main"), ("flag validation", BIN+" make_params"), ("read errors", BIN+" read_write_all")],
  [("failed", "whether any input failed", BIN+" main")], ["exit status, stdout and stderr of the blake2 process under injected faults"])

prop("C17", "Digests are independent of byte order and pointer width",
  "On every architecture the crates build for - big-endian and little-endian, 32-bit and 64-bit, x86 or not - the same operations return the same digests, counts and hex as on x86-64, with no undefined behaviour and no alignment assumptions.",
  ["configurations", "inputs"], "all supported targets x all operation histories",
  "The suite here only runs on x86-64, where native and little-endian order coincide and usize is 64 bits.",
  both("lib.rs", "portable.rs", "guts.rs", "many.rs", "sse41.rs", "avx2.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("explicit little-endian conversions", B+"portable.rs, lib.rs state_words_to_bytes, blake2bp.rs finalize_root_words"), ("x86 gating", B+"guts.rs, many.rs cfg(target_arch)")],
  [], ["operation results under the Miri interpreter for s390x, i686 and others"])

prop("C18", "Hashing runs in constant memory and without the heap",
  "No library operation allocates heap memory, whatever the input length, number of updates or number of batched jobs, with or without std (converting to an owned string is the caller's doing). The command-line tool's memory use when streaming does not grow with the size of the input.",
  ["inputs", "histories"], "all input sizes, update counts and batch sizes",
  "Tests never observe allocation or memory use.",
  both("lib.rs", "many.rs") + [B+"blake2bp.rs", S+"blake2sp.rs", BIN],
  [("fixed-size state and ArrayVec working set", B+"lib.rs State, many.rs JobsVec"), ("fixed read buffer", BIN+" read_write_all")],
  [], ["counting global allocator; peak resident set of the blake2 process"])

prop("C19", "Batch and parallel hashing keep the SIMD lanes busy, and work stays linear",
  "When the CPU supports SIMD, hash_many and update_many keep all lanes working for as long as at least `degree` of their inputs have data left, whatever the number, order and lengths of the inputs: a batch costs about what its full groups and the rest cost, batches of a multiple of the degree and the parallel variants (one-shot, keyed and incremental) take clearly less work per byte than hashing one input at a time. Work is linear in the total input and in the number of inputs, up to a constant per call, however the input is split into updates; finalizing or cloning does not get dearer with the amount fed before. The run-time-selected back end never costs more than the portable one beyond a small constant per call.",
  ["inputs", "configurations"], "all batch sizes, all length mixtures and orders, all update granularities, all back ends",
  "Results are identical whether lanes are used or not, so no functional test notices that batching degenerated to serial work.",
  both("many.rs", "guts.rs", "sse41.rs", "avx2.rs") + [B+"blake2bp.rs", S+"blake2sp.rs"],
  [("working set kept full", B+"many.rs compress_many"), ("degree", B+"guts.rs Implementation::degree")],
  [], ["instructions retired per input byte (counted by an instrumenting interpreter, not a clock)"])

prop("C20", "The bundled C comparison implementation agrees with the specification",
  "For every message, the C implementation that the benchmarks compare against returns exactly the specified unkeyed, full-length BLAKE2b, BLAKE2bp and BLAKE2sp digests, the same as the Rust crates, and neither reads nor writes outside the buffers it is given.",
  ["inputs"], "all messages of every length and alignment",
  "One test runs three fixed inputs through it; it is C code that no sanitizer ever sees.",
  ["benches/blake2-avx2-sneves/src/lib.rs", "benches/blake2-avx2-sneves/blake2-avx2/blake2b.c", "benches/blake2-avx2-sneves/blake2-avx2/blake2bp.c", "benches/blake2-avx2-sneves/blake2-avx2/blake2sp.c"],
  [("vectorised C kernels", "benches/blake2-avx2-sneves/blake2-avx2/*.c")], [], ["blake2_avx2_sneves::blake2b, blake2bp, blake2sp"])

prop("C21", "BLAKE2 is collision-resistant, preimage-resistant and a secure MAC",
  "No efficient procedure finds two inputs with the same full-length digest, an input for a given digest, or a valid keyed digest without the key.",
  ["inputs"], "all efficient adversaries",
  "A statement about all adversaries; no execution of the code is evidence for it.",
  both("lib.rs", "portable.rs"), [("the BLAKE2 construction itself", B+"portable.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
