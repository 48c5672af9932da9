#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import checks
MODEL = "Decided by an online monitor comparing every value the library returns with an independent reference model (validated each run against hashlib/KAT vectors)"
T = {
 "C01": ("runtime monitoring: differential reference-model oracle over random and swept executions, several back ends and a debug build", MODEL + "; held on the executions counted in the evidence only."),
 "C02": ("runtime monitoring: tree reference-model oracle over random and swept executions", MODEL + "; held on the executions counted in the evidence only."),
 "C03": ("runtime monitoring: history + executable model (incremental feeding vs concatenation), dense sweep of buffer-fill x piece length", MODEL + "; the dense sweep covers every fill level x next-piece length of one back end."),
 "C04": ("runtime monitoring: history + executable model over families of forked hashers", MODEL + "; held on the histories counted in the evidence only."),
 "C05": ("runtime monitoring: history + executable model per job of hash_many batches", MODEL + "; held on the batches counted in the evidence only."),
 "C06": ("runtime monitoring: history + executable model per hasher over update_many rounds", MODEL + "; held on the histories counted in the evidence only."),
 "C10": ("runtime monitoring: builder history + executable model, accept/reject (panic) oracle, in optimised and checked builds", MODEL + "; every single value of each field is covered by the sweep, combinations are sampled."),
 "C11": ("runtime monitoring: byte-level oracle over accessors and an equality oracle over swept and random pairs", "Accessors and equality are compared with the bytes themselves; pair sweeps are exhaustive where stated, otherwise sampled."),
 "C13": ("runtime monitoring: two-run non-interference monitor over Debug text", "Pairs of executions differing only in secrets must print the same text; holds for the pairs executed."),
 "C07": ("runtime monitoring: recorded transcripts of identical operation sequences compared offline across build configurations and back ends", "Each configuration replays the same cases with no oracle; the transcript hashes of all must coincide and degrees must match the back end. Configurations not runnable on this CPU are noted."),
 "C08": ("runtime monitoring: model oracle over real >4 GiB inputs and, through the guarded hook, over executions started next to a counter carry", MODEL + ". The hook only sets the byte counter; real long inputs are run without it."),
 "C09": ("sanitizers: guard-page placement of every input, AddressSanitizer, valgrind memcheck and Miri over the same workload", "Violations are reports of the instrumentation; red-zone tools can miss non-adjacent accesses (guard pages and Miri complement them). Miri interprets intrinsics it supports."),
 "C12": ("runtime monitoring: valgrind memcheck with secrets marked undefined (dynamic information-flow monitor) on every back end", "Any branch or address derived from a secret in an executed path is reported. Micro-architectural timing of individual instructions is out of scope."),
 "C14": ("sanitizers: ThreadSanitizer (with a planted race as control) and Miri many-seeds over all pairs of concurrent operations, reference-model oracle on every thread's results, first-use races in fresh processes, deadlock watchdog", "Schedules are sampled, not enumerated; the evidence counts the pairs of operation kinds observed overlapping. Send/Sync of the public types is observed by a compiled probe."),
 "C15": ("runtime monitoring: the real binary under an LD_PRELOAD shim (short reads, EINTR), stdout compared with the model", MODEL + "; the shim logs what was injected."),
 "C16": ("runtime monitoring with fault injection: the real binary under an LD_PRELOAD shim failing each system call in turn, exit status and output oracle", "Faults injected at libc calls, one at a time and in random combinations."),
 "C17": ("undefined-behaviour interpreter: Miri on big-endian and 32-bit targets compared with native transcripts; native 32-bit x86 programs with the reference-model oracle", "Miri executes small inputs on each target; i686 programs run the full workloads natively."),
 "C18": ("runtime monitoring: counting global allocator and stack painting around library calls; memory ceiling of the tool from a launcher (peak resident set, descriptors) while streaming", "Allocations, stack depth and peak memory observed on the executions counted in the evidence."),
 "C19": ("runtime monitoring: callgrind instruction counts between client requests, judged by ratio oracles, a lane-occupancy simulation and back-end comparison", "Instruction counts are exactly reproducible; thresholds leave room for refactoring (a degenerate lane costs tens of percent, the tolerance is a few percent plus a constant per call)."),
 "C20": ("sanitizers + runtime monitoring: the bundled C code under AddressSanitizer, UBSan, MemorySanitizer and guard pages; digests compared with CPython hashlib (independent oracle) and the Rust wrappers", "Every length up to several stripes and sampled larger ones, including one input beyond 4 GiB."),
}
NA = {"C21": "Runtime monitoring observes executions; resistance to all efficient adversaries is a cryptographic assumption about the function itself that no set of executions decides (conformance to the specified function, which it rests on, is C01/C02)."}
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "--cfg blake2_simd_verif (RUSTFLAGS)", "enable": "RUSTFLAGS='--cfg blake2_simd_verif' cargo build (done by lib/common.py for the hook* configurations)", "source_commits": ["cb6d45e"]},
     "checks": [], "not_applicable": []}
import subprocess
m["hooks"]["source_commits"] = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=Verification hooks"], stdout=subprocess.PIPE, text=True).stdout.split()
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": checks.LEVELS.get(i, "exploration"), "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
