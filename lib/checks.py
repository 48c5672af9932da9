"""The checks, one function per property."""
import hashlib, json, os, re, shutil, subprocess, sys, time
import concurrent.futures as cf
from common import *
import cli, cost, sneves

MAIN = ["std", "checked", "sse41", "portable"]

def validate_model(ck, exe):
    r = subprocess.run([exe, "selftest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or "MODEL-VALIDATED" not in r.stdout:
        raise HarnessError("the reference model failed its own validation: " + r.stdout[-800:])
    ck.extra["model_vectors_validated"] = int(r.stdout.split("MODEL-VALIDATED")[1].split()[0])

def setup():
    """Builds the harness once and validates the reference model (the checks rebuild what they need)."""
    exe = build_all(["std"])["std"]
    r = subprocess.run([exe, "selftest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout)
    return r.returncode

def seed_for(ck, i):
    return ck.seed * 1000 + i

def functional(ck, configs, cases, secs, rule, sweep=True, dense=(), maxlen=1 << 20, tcases=None, tsecs=None, thorough_configs=(), big=False):
    """Random cases and deterministic sweeps of one property, under several build configurations."""
    configs = list(configs)
    if not ck.quick:
        configs += [c for c in thorough_configs if c not in configs]
        cases, secs = (tcases or cases * 40), (tsecs or 60)
    fz = FUZZ[:1] if ck.quick else FUZZ
    exes = build_all(configs + fz)
    validate_model(ck, exes[configs[0]])
    for i, c in enumerate(configs):
        if c not in exes:
            ck.notes.append(f"{c}: not runnable on this CPU")
            continue
        slow = 4 if c == "debug" else 1
        if sweep:
            ck.harness(c, exes[c], ["run", "--prop", ck.prop, "--mode", "sweep", "--threads", str(NCPU), "--secs", "200",
                                    "--dense", "1" if (c in dense or not ck.quick) and c != "debug" else "0"], label=c + " sweep")
        if cases:
            ck.harness(c, exes[c], ["run", "--prop", ck.prop, "--mode", "random", "--threads", str(NCPU), "--secs", str(secs),
                                    "--cases", str(cases // slow), "--seed", str(seed_for(ck, i)), "--maxlen", str(maxlen)], label=c + " random")
        if big and c != "debug":
            ck.harness(c, exes[c], ["run", "--prop", ck.prop, "--mode", "big", "--threads", str(NCPU), "--secs", "25" if ck.quick else "40",
                                    "--cases", str(480 >> min(2 * i, 3)) if ck.quick else "2000", "--seed", str(seed_for(ck, i)), "--maxlen", str(1 << 27)], label=c + " megabytes")
        if ck.violations and ck.quick:
            break
    if not ck.violations:
        guided(ck, exes, fz, 12 if ck.quick else 45)
    ck.assumptions += [
        "The reference model (harness/src/model_core.rs), validated on every run against vectors from CPython's hashlib and the official KATs, is the specification.",
        "x86-64 with the back ends this CPU supports.",
    ]
    return ck.finish("exploration", rule)

FUZZ = ["fuzz", "fuzz-checked", "fuzz-sse41", "fuzz-portable"]

def guided(ck, exes, configs, secs):
    """Cases chosen by coverage feedback (edges, comparison operands) instead of a random generator; same oracle."""
    for c in configs:
        if c not in exes:
            ck.notes.append(f"{c}: not available here")
            continue
        corpus = scratch("corpus")
        shutil.rmtree(corpus, ignore_errors=True)
        os.makedirs(corpus)
        def one(i):
            cmd = [exes[c], "fuzz", "--prop", ck.prop, "--secs", str(secs), "--seed", str(seed_for(ck, 100 + i) % (1 << 31)), "--corpus", corpus, "--lits", ck.lits, "--maxlen", "8192"]
            t0 = time.time()
            try:
                r = subprocess.run(cmd, env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 400)
            except subprocess.TimeoutExpired:
                raise HarnessError(f"{c}: the fuzzer did not end")
            stats = next((json.loads(l[6:]) for l in r.stdout.splitlines() if l.startswith("STATS ")), None)
            report = next((json.loads(l[17:]) for l in r.stdout.splitlines() if l.startswith("VIOLATION-REPORT ")), None)
            cov = re.findall(r"cov: (\d+) ft: (\d+)", r.stderr)
            ck.runs.append(dict(config=c, label=f"{c} guided", args=cmd[1:], stats=stats, rc=r.returncode, wall=round(time.time() - t0, 2)))
            return r, report, [int(x) for x in cov[-1]] if cov else None
        try:
            with cf.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(one, range(NCPU)))
            ck.extra.setdefault("guided_coverage", {})[c] = dict(edges=max((x[2][0] for x in res if x[2]), default=0), features=max((x[2][1] for x in res if x[2]), default=0),
                                                                 corpus=len(os.listdir(corpus)))
            crashes = [open(os.path.join(corpus, f), "rb").read() for f in sorted(os.listdir(corpus)) if f.startswith("crash-")]
        finally:
            shutil.rmtree(corpus, ignore_errors=True)
        for r, report, _ in res:
            if r.returncode == 0:
                continue
            if report is None and r.returncode not in (70, 77):
                raise HarnessError(f"{c}: fuzzer exit {r.returncode}\n{r.stdout[-500:]}\n{r.stderr[-1500:]}")
            if report and "HARNESS-ERROR" in report["detail"]:
                raise HarnessError(report["detail"])
            before = len(ck.violations)
            for d in [bytes.fromhex(report["bytes"])] if report else crashes[:3]:
                os.makedirs(REPLAYS, exist_ok=True)
                f = os.path.join(REPLAYS, f"{ck.prop}-{hashlib.sha256(d).hexdigest()[:12]}.bin")
                open(f, "wb").write(d)
                ck.harness(c, exes[c], ["run", "--prop", ck.prop, "--mode", "bytes", "--file", f, "--threads", "1", "--maxlen", "8192"], label=f"{c} guided")
            if len(ck.violations) == before:
                if r.returncode == 70:
                    ck.notes.append(f"{c}: a case took more than 120 s once, and not again")
                else:
                    ck.violate(f"{c} guided: {report['detail'] if report else 'the process crashed'} (not reproduced in a fresh process)",
                               dict(kind="guided", config=c, report=report, stderr=r.stderr[-3000:]))
            break
        if ck.violations and ck.quick:
            break

def c01(ck):
    return functional(ck, MAIN, 150_000, 8,
        "random parameter sets x message lengths (block edges, powers of two, numbers found in the sources, up to 1 MiB; a few hundred of 1-96 MiB; one builder used up to 2^17 times) x contents, plus sweeps: every length 0..4399 keyed and unkeyed, every hash_length x key length, every value or bit of every field, and (on 'std'; a sixteenth of it elsewhere) all 313,600 combinations of the values programs use; each digest compared with the model. Non-trivial: message or parameters not all default/empty.",
        dense=("std",), big=True, thorough_configs=["debug", "avx2", "uninline", "native", "size", "sse41-checked", "portable-checked"], tcases=6_000_000)
def c02(ck):
    return functional(ck, MAIN, 150_000, 8,
        "random digest lengths, keys and messages of the parallel variants (a few hundred of 1-96 MiB), plus sweeps: every length 0..4399 keyed and unkeyed, every hash_length x key length x 4 message lengths; each digest compared with the model's tree. Non-trivial: message or parameters not default/empty.",
        big=True, thorough_configs=["debug", "avx2", "uninline", "native", "size", "sse41-checked", "portable-checked"], tcases=6_000_000)
def c03(ck):
    return functional(ck, MAIN, 150_000, 8,
        "random messages cut into random pieces fed through update, write, write_all, io::copy and write_vectored, a few hundred of them with pieces of 1-96 MiB or of up to 2^17 tiny pieces; sweep: every first piece up to nine blocks (four stripes) x next-piece lengths (all of them on 'std', block and stripe edges elsewhere), keyed and unkeyed, and a third piece. Non-trivial: at least two pieces and a non-empty message.",
        dense=("std",), big=True, thorough_configs=["debug", "avx2", "uninline", "sse41-checked", "portable-checked"], tcases=6_000_000)
def c04(ck):
    return functional(ck, MAIN, 200_000, 8,
        "random histories over a family of hashers forked from one another (update, finalize twice, count, clone, clone_from, set_last_node, move, drop), every read compared with the member's own model; some hundred with updates of megabytes or with up to 2^17 calls; sweep: every length up to six blocks (four stripes) x flag sequences x continuation. Non-trivial: some hasher was fed.",
        big=True, thorough_configs=["debug", "avx2", "uninline", "sse41-checked", "portable-checked"], tcases=8_000_000)
def c05(ck):
    return functional(ck, MAIN, 40_000, 8,
        "random batches (0..300 jobs, mixed parameters, or the neighbour's but for one, lengths, orders, the same bytes twice, repeated and cloned jobs, several batches over a pool; inputs of megabytes in a few hundred, up to 2^17 jobs in some); sweep: all tuples of job lengths from {0,1,B,B+1,2B,3B+5}^k (k<=5) and {0,B,2B+1}^k (k<=9), and every position of one odd job among 0..26. Non-trivial: more than one job.",
        big=True, thorough_configs=["debug", "avx2", "uninline", "sse41-checked", "portable-checked"], tcases=2_000_000)
def c06(ck):
    return functional(ck, MAIN, 60_000, 8,
        "random pools of hashers with their own histories and parameters, several update_many rounds over permuted subsets, single updates and flag changes in between, a few hundred with inputs of megabytes, some with up to 2^17 hashers; sweep: every fill level x batch sizes x input lengths, uniform and with one odd neighbour. Non-trivial: more than one hasher.",
        big=True, thorough_configs=["debug", "avx2", "uninline", "sse41-checked", "portable-checked"], tcases=3_000_000)
def c10(ck):
    return functional(ck, ["std", "checked", "sse41", "portable"], 150_000, 8,
        "random sequences of setter calls with legal and illegal values on fresh, copied and used builders, results compared with the model (legal) or required to panic (illegal); sweep: every value or bit of every field, every key/salt/personal length set over every other, all ordered triples of setters, every value of every setter after every value of every other (on 'std'; a sixteenth elsewhere), illegal values up to 600 past each limit and around every power of two. Non-trivial: at least one legal value set.",
        dense=("std",), thorough_configs=["debug", "avx2"], tcases=8_000_000)
def c11(ck):
    return functional(ck, ["std", "checked", "portable"], 100_000, 6,
        "hash values from every source, each accessor against the bytes; pairs of hashes and slices equal, differing in one or two bits, swapped, truncated, extended; sweep: all pairs of bit flips of full-length hashes, all single-bit flips and length changes for every digest length, all pairs of 540 short digests (with true collisions). All cases non-trivial.",
        thorough_configs=["debug", "sse41"], tcases=4_000_000)
def c13(ck):
    return functional(ck, ["std", "checked"], 300_000, 8,
        "pairs of histories that agree on all public data and differ in key and message bytes; the Debug texts (seven formatting styles) of builders, hashers and jobs, their clones, before and after every step, must coincide. All cases non-trivial.",
        sweep=False, thorough_configs=["debug", "portable", "sse41"], tcases=10_000_000)

# ------------------------------------------------------------------ C07

def cache_delta(exe):
    """distance of the standard library's CPU feature cache from a known symbol, or None"""
    r = subprocess.run(["nm", exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    cache = anchor = None
    for l in r.stdout.splitlines():
        f = l.split()
        if len(f) == 3:
            if "std_detect" in f[2] and (f[2].endswith("5CACHE") or "5CACHE17h" in f[2]):
                cache = int(f[0], 16)
            elif f[2] == "VERIF_ANCHOR":
                anchor = int(f[0], 16)
    return None if cache is None or anchor is None else cache - anchor

def simd_args(ck, exe, level):
    """arguments that make the run-time detection of `exe` see a lesser CPU; None when that is impossible here"""
    d = cache_delta(exe)
    if d is None:
        ck.notes.append(f"run-time detection of {level}: no feature cache symbol")
        return None
    a = ["--simd", level, "--cachedelta", str(d)]
    r = subprocess.run([exe, "degree"] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        ck.notes.append(f"run-time detection of {level}: {r.stdout.strip()[:200]}")
        return None
    return a

def cpu_degrees():
    return (4, 8) if "avx2" in CPU else (2, 4) if "sse4_1" in CPU else (1, 1)

def variants(ck, names):
    """[(label, config, exe, extra args, expected degrees)]"""
    exes = build_all([n.split("/")[0] for n in names])
    out = []
    for n in names:
        c, _, lvl = n.partition("/")
        if c not in exes:
            ck.notes.append(f"{n}: not runnable on this CPU")
            continue
        f, feats = CONFIGS[c]["flags"], CONFIGS[c]["features"]
        if lvl:
            if lvl == "sse41" and "sse4_1" not in CPU:
                continue
            a = simd_args(ck, exes[c], lvl)
            if a is None:
                continue
            deg = (2, 4) if lvl == "sse41" else (1, 1)
        else:
            a = []
            if "std" in feats.split(","):
                deg = cpu_degrees()
            elif feats == "uninline" or "+" not in f:
                deg = (1, 1)
            else:
                deg = (4, 8) if "+avx2" in f else (2, 4)
        out.append((n, c, exes[c], a, deg))
    return out

def transcript(ck, v, args, n, out):
    label, c, exe, extra, _ = v
    rec, o, e = ck.harness(c, exe, ["run"] + args + extra + ["--threads", str(NCPU), "--secs", "500", "--out", out], label=label)
    if rec["rc"] != 0:
        return None
    raw = open(out, "rb").read()
    os.unlink(out)
    if not rec["stats"]["complete"]:
        raise HarnessError(f"{label}: the transcript is incomplete")
    return raw

def show_case(v, args, i):
    label, c, exe, extra, _ = v
    r = subprocess.run([exe, "run"] + args + extra + ["--threads", "1", "--first", str(i), "--cases", "1", "--show", "1"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return [l[5:] for l in r.stdout.splitlines() if l.startswith("STEP ")]

def c07(ck):
    names = ["std", "std/sse41", "std/portable", "checked", "debug", "portable", "sse41", "avx2", "uninline", "native", "portable-checked", "uninline-std/portable", "std-sse41"]
    if not ck.quick:
        names += ["uninline-std", "uninline-std/sse41", "std-sse41/portable", "size", "sse41-checked", "checked/sse41", "checked/portable", "debug/sse41", "debug/portable", "size/sse41", "hook"]
    vs = variants(ck, names)
    cases = 60_000 if ck.quick else 1_500_000
    # reported degree
    deg = {}
    for label, c, exe, extra, want in vs:
        r = subprocess.run([exe, "degree"] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r.stdout.startswith("DEGREE"):
            raise HarnessError(f"{label}: {r.stdout[-500:]}")
        b, s, mb, ms = map(int, r.stdout.split()[1:5])
        deg[label] = [b, s]
        if (b, s) != want:
            ck.violate(f"{label}: degree() is {b} (blake2b), {s} (blake2s); this back end's is {want}", dict(kind="degree", config=c, args=extra, got=[b, s], want=list(want)))
        if b > mb or s > ms:
            ck.violate(f"{label}: degree() {b}, {s} exceeds MAX_DEGREE {mb}, {ms}", dict(kind="degree", config=c, args=extra, got=[b, s], max=[mb, ms]))
    ck.extra["degrees"] = deg
    plans = [("C07", "transcript", cases)] + [(p, "tsweep", 0) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C10", "C11")]
    compared = 0
    for prop, mode, n in plans:
        ref = None
        for v in vs:
            if ck.violations:
                break
            if v[1] == "debug" and mode == "transcript":
                k = n // 6
            elif v[1] == "debug" and mode == "tsweep" and prop not in ("C02", "C10", "C01"):
                continue
            else:
                k = n
            args = ["--prop", prop, "--mode", mode, "--seed", str(seed_for(ck, 7)), "--lits", ck.lits] + (["--cases", str(k)] if k else [])
            raw = transcript(ck, v, args, k, scratch("tr"))
            if raw is None:
                break
            if ref is None:
                ref = (v, raw)
                continue
            m = min(len(raw), len(ref[1]))
            compared += m // 8
            if raw[:m] != ref[1][:m] or (mode == "tsweep" and len(raw) != len(ref[1])):
                i = next((j for j in range(0, m, 8) if raw[j:j + 8] != ref[1][j:j + 8]), 0) // 8
                a, b = show_case(ref[0], args, i), show_case(v, args, i)
                d = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                ck.violate(f"{ref[0][0]} and {v[0]} disagree on case {i} of {prop} {mode}: " + " | ".join([(x[d] if d < len(x) else "(nothing)")[:200] for x in (a, b)]),
                           dict(kind="transcript", configs=[ref[0][0], v[0]], config=v[1], args=args, case=i, first=a[:60], second=b[:60]))
                break
    ck.extra["transcripts_compared"] = compared
    ck.assumptions += ["A configuration is compared with the others, not with the specification (C01-C06, C10, C11 do that).",
                       "Configurations this CPU cannot run are left out and noted; lesser CPUs are imitated by clearing bits in the standard library's feature cache."]
    return ck.finish("exploration", "the same random operation sequences (all of C01-C06, C10, C11's cases) and all sweeps are executed by every configuration with the oracle off; per case a hash of everything returned (digests, counts, hex, refusals) is recorded and the records are compared offline. Non-trivial: as in the property the case belongs to.")

# ------------------------------------------------------------------ C08

def build_hooks(ck, names):
    """hook configurations; {} with a note when the hooks do not build or do not mean what the harness thinks"""
    try:
        exes = build_all(names)
    except HarnessError as e:
        # a tree whose guarded hooks no longer build: say so, decide on the rest
        ck.notes.append("the guarded hooks do not build on this tree: " + str(e)[-300:])
        return {}
    out = {}
    for n, x in exes.items():
        r = subprocess.run([x, "hooktest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "HOOK-OK" in r.stdout:
            out[n] = x
        else:
            ck.notes.append(f"{n}: hook calibration failed, not used: {r.stdout.strip()[:300]}")
    return out

def c08(ck):
    names = ["hook", "hook-sse41", "hook-portable", "hook-checked", "i686-hook"]
    with cf.ThreadPoolExecutor(2) as ex:
        fh = ex.submit(build_hooks, ck, names)
        std = build_all(["std"])["std"]
        hooks = fh.result()
    validate_model(ck, std)
    for i, (n, x) in enumerate(hooks.items()):
        ck.harness(n, x, ["run", "--prop", "C08", "--mode", "random", "--threads", str(NCPU), "--secs", "6" if ck.quick else "60",
                          "--cases", str(250_000 if ck.quick else 8_000_000), "--seed", str(seed_for(ck, i))], label=n + " carries")
    if not (ck.violations and ck.quick):
        ck.harness("std", std, ["long", "--threads", str(NCPU), "--seed", str(ck.seed)] + (["--all", "1"] if not ck.quick else []), label="std long inputs", timeout=850)
    if not (ck.violations and ck.quick):
        ck.harness("std", std, ["long", "--threads", str(NCPU), "--seed", str(ck.seed), "--wide", "sp"], label="std inputs beyond 2^35", timeout=850)
    if not (ck.violations and ck.quick):
        ck.harness("std", std, ["long", "--threads", str(NCPU), "--seed", str(ck.seed), "--wide", "bp"], label="std inputs beyond 2^34", timeout=850)
    if not ck.quick:
        for c in ("checked", "sse41", "portable"):
            exe = build_all([c]).get(c)
            if exe:
                ck.harness(c, exe, ["long", "--threads", str(NCPU), "--seed", str(ck.seed)], label=c + " long inputs", timeout=850)
    ck.assumptions += ["The guarded hook only writes the byte counter of a fresh hasher or job; it is calibrated against the model at small counts before use.",
                       "Counters go up to 2^25 bytes below the maximum count() can hold; wrapping beyond it is out of reach of any history and not tried."]
    return ck.finish("exploration", "hook runs: random histories and batches whose byte counters start up to 40 blocks below a multiple of a power of two (mostly the word size), every lane its own; long runs: real slices of 2^32 + 3 MiB bytes (2^35 + 3 MiB for BLAKE2sp and 2^34 + 3 MiB for BLAKE2bp, whose leaf counters then pass 2^32) through every API, with digests and counts at nine lengths around the edge, compared with the model streaming the same bytes. All cases non-trivial.")

# ------------------------------------------------------------------ C09

def asan_report(out, err, rc):
    for l in err.splitlines():
        if "ERROR: AddressSanitizer" in l and "out of memory" not in l and "allocation-size-too-big" not in l:
            return l.strip()
    return None

def memcheck_report(out, err, rc):
    for i, l in enumerate(err.splitlines()):
        for w in ("Invalid read", "Invalid write", "uninitialised", "Source and destination overlap", "Jump to the invalid"):
            if l.startswith("==") and w in l:
                return " ".join(x.split("==")[-1].strip() for x in err.splitlines()[i:i + 4])
    return None

VALGRIND = ["valgrind", "--tool=memcheck", "--leak-check=no", "--error-exitcode=99", "-q", "--undef-value-errors=yes", "--fair-sched=yes"]
# what glibc's CPU dispatch may pick is irrelevant here; Rust's own string functions are plain code

MIRI_BACKENDS = [("portable", ""), ("sse4.1", "-C target-feature=+sse4.1"), ("avx2", "-C target-feature=+avx2")]

def mini_parallel(ck, what, parts, secs, tag, flags="", miri="", target=None, features="", seed=1, of=None):
    """`parts` interpreted processes side by side over disjoint parts of the small cases; {case: line}"""
    of = of or parts
    got = {}
    def one(k):
        return lambda: got.__setitem__(k, miri_run(ck, f"{what} part {k}", ["mini", "--oracle", "off", "--part", str(k), "--of", str(of), "--secs", str(secs), "--seed", str(seed)],
                                                   tag, flags, miri, target, features))
    # the first run also builds
    subprocess.run(miri_cmd(["selfnothing"], tag, target, features), env=miri_env(flags, miri), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ck.parallel([one(k) for k in range(parts)])
    r = {}
    for ls in got.values():
        for l in ls or []:
            f = l.split(None, 2)
            r[int(f[1])] = f[2]
    return r

def c09(ck):
    names = ["std", "checked", "asan"]
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(miri_setup)
        exes = build_all(names)
        fm.result()
    validate_model(ck, exes["std"])
    vs = variants(ck, ["std", "std/sse41", "std/portable"])
    seed = str(seed_for(ck, 9))
    q = ck.quick
    # 1. every input between inaccessible pages, objects flush against them
    n = 8000 if q else 100_000
    def guard(v, k, args):
        return lambda: ck.harness(v[1], v[2], ["run", "--prop", "C09", "--place", "guard", "--threads", "1", "--secs", "400"] + args + v[3], label=f"{v[0]} guard pages {k}")
    ck.parallel([guard(v, k, ["--mode", "random", "--seed", seed, "--first", str(k * n), "--cases", str(n), "--maxlen", "40000"]) for v in vs for k in range(8)])
    sl = 20 * 128 + 1 + 20 * 64 + 1
    step = (sl + 7) // 8
    ck.parallel([guard(v, f"sweep {k}", ["--mode", "sweep", "--first", str(k * step), "--cases", str(step)]) for v in vs for k in range(8)])
    # 2. red zones and language-level checks
    if not (ck.violations and q):
        av = variants(ck, ["asan", "asan/sse41", "asan/portable"])
        env = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1")
        for v in av:
            ck.harness(v[1], v[2], ["run", "--prop", "C09", "--mode", "random", "--threads", str(NCPU), "--secs", "100", "--seed", seed, "--oracle", "off",
                                    "--cases", str(150_000 if q else 3_000_000), "--maxlen", "60000"] + v[3], label=v[0] + " AddressSanitizer", env=env, san=asan_report)
            ck.harness(v[1], v[2], ["mini", "--seed", seed] + v[3], label=v[0] + " AddressSanitizer small cases", env=env, san=asan_report)
        for v in variants(ck, ["checked", "checked/sse41", "checked/portable"]):
            ck.harness(v[1], v[2], ["run", "--prop", "C09", "--mode", "random", "--threads", str(NCPU), "--secs", "100", "--seed", seed,
                                    "--cases", str(100_000 if q else 2_000_000), "--maxlen", "60000"] + v[3], label=v[0] + " debug assertions")
    # 3. definedness of everything read, on machine code
    if not (ck.violations and q):
        def mc(v, k):
            return lambda: ck.harness(v[1], v[2], ["run", "--prop", "C09", "--mode", "random", "--threads", "1", "--secs", "600", "--seed", seed, "--hang", "100000",
                                                   "--first", str(k * 1000), "--cases", str(250 if q else 3000), "--maxlen", "8000"] + v[3],
                                      label=f"{v[0]} memcheck {k}", prefix=VALGRIND, san=memcheck_report, timeout=800)
        def mm(v):
            return lambda: ck.harness(v[1], v[2], ["mini", "--seed", seed] + v[3], label=v[0] + " memcheck small cases", prefix=VALGRIND, san=memcheck_report, timeout=800)
        ck.parallel([mm(v) for v in vs] + [mc(v, k) for v in vs for k in range(2 if q else 8)])
    # 4. the interpreter
    if not (ck.violations and q):
        ref = subprocess.run([exes["std"], "mini", "--seed", seed], stdout=subprocess.PIPE, text=True).stdout
        for tag, flags in MIRI_BACKENDS:
            if tag != "portable" or not q:   # (C17 interprets the portable code at length)
                mini_parallel(ck, f"Miri {tag}", 8, 30 if q else 100, tag, flags, seed=int(seed), miri=f"-Zmiri-seed={ck.seed} " + NOBORROW)
            mini_parallel(ck, f"Miri {tag} aliasing", 8, (16 if tag == "portable" else 10) if q else 120, tag, flags, seed=int(seed) + 1, miri=f"-Zmiri-seed={ck.seed} " + TREE)
            if ck.violations and q:
                break
    ck.assumptions += ["AddressSanitizer's red zones miss accesses that land in another live object; guard pages and Miri do not depend on red zones.",
                       "Miri interprets the compile-time-selected back ends with Tree Borrows as the aliasing model."]
    return ck.finish("exploration", "random workloads of C01-C06 and C11 plus objects and inputs placed flush against inaccessible read-only pages (every length 0..20 blocks in the sweep), under AddressSanitizer, under debug assertions, under memcheck, and a list of small cases touching every entry point under Miri; each with AVX2, SSE4.1 and portable back ends. A violation is a fault, a report, or a modified input. Non-trivial: as in the property the case comes from.")

# ------------------------------------------------------------------ C12

def c12(ck):
    q = ck.quick
    names = ["std", "std/sse41", "std/portable", "size", "debug"] + ([] if q else ["native", "sse41", "avx2", "portable", "uninline", "size/sse41", "size/portable", "debug/sse41", "debug/portable", "checked"])
    vs = variants(ck, names)
    armed = []
    def one(v, k):
        dbg = v[1] == "debug"
        n = (40 if dbg else 300) * (1 if q else 25)
        def f():
            rec, out, err = ck.harness(v[1], v[2], ["taint", "--seed", str(seed_for(ck, 12)), "--first", str(k * n), "--cases", str(n), "--cmp", "0" if dbg else "1"] + (["--part", str(k), "--parts", "8"] if not dbg or not q else []) + v[3],
                                       label=f"{v[0]} secrets undefined {k}", prefix=["valgrind", "-q", "--tool=memcheck", "--leak-check=no"], timeout=850)
            if "MONITOR-ARMED" not in out:
                raise HarnessError(f"{v[0]}: the taint monitor is not armed")
            armed.append(v[0])
        return f
    ck.parallel([one(v, k) for v in vs for k in range(8)])
    ck.extra["processes_with_armed_monitor"] = len(armed)
    ck.assumptions += ["memcheck's definedness tracking is bit-precise for the integer and SIMD operations used; an operation it over-approximates would raise an alarm, none does on this tree.",
                       "Secret-dependent timing of single instructions (none of the multiply or divide kind is used) is out of sight.",
                       "The outcome of a comparison and the lengths of keys, messages and digests are public."]
    return ck.finish("exploration", "random one-shot, incremental, batched and parallel hashing with key and message bytes marked undefined, and comparisons of equal-length values marked undefined, after a sweep of every buffer fill, every message length to 4 blocks, every key length and every batch size (not in the unoptimised build of the quick tier); memcheck reports every branch or address that depends on them. Each process first proves that a planted leak of either kind is reported, and digests are checked to be tainted. Distinct by (kind, lengths).")

# ------------------------------------------------------------------ C14

def tsan_report(out, err, rc):
    ls = err.splitlines()
    for i, l in enumerate(ls):
        if "WARNING: ThreadSanitizer: data race" in l or "ERROR: ThreadSanitizer: SEGV" in l:
            at = [x.strip() for x in ls[i + 1:i + 30] if x.strip().startswith("#")]
            return " ".join([l.strip()] + [x for x in at if "blake2" in x][:2])
    return None

def c14(ck):
    q = ck.quick
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(miri_setup)
        exes = build_all(["std", "checked", "portable", "tsan"] + ([] if q else ["debug", "uninline", "native"]))
        fm.result()
    validate_model(ck, exes["std"])
    # 1. Send and Sync
    r = subprocess.run([exes["std"], "conc", "--mode", "types"], stdout=subprocess.PIPE, text=True)
    types = [l.split() for l in r.stdout.splitlines() if l.startswith("TYPE")]
    if len(types) != 12:
        raise HarnessError("type probe: " + r.stdout[-500:])
    for f in types:
        if f[-2:] != ["true", "true"]:
            ck.violate(f"{f[1]}::{' '.join(f[2:-2])}: Send is {f[-2]}, Sync is {f[-1]}", dict(kind="types", config="std", args=["conc", "--mode", "types"]))
    ck.extra["types_probed"] = [" ".join(f[1:]) for f in types]
    # 2. ThreadSanitizer, which must first see a planted race
    env = dict(TSAN_OPTIONS="halt_on_error=0:exitcode=66:atexit_sleep_ms=0:report_signal_unsafe=0:detect_deadlocks=0:history_size=4")
    p = subprocess.run([exes["tsan"], "conc", "--mode", "plant"], env=dict(base_env(), **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if not tsan_report(p.stdout, p.stderr, p.returncode):
        raise HarnessError(f"ThreadSanitizer does not report a planted race: {p.returncode} {p.stderr[-800:]}")
    seed = seed_for(ck, 14)
    tv = variants(ck, ["tsan", "tsan/sse41", "tsan/portable"])
    def first(v, k, n, t, san=None, e=None):
        def f():
            for i in range(n):
                if ck.violations:
                    return
                ck.harness(v[1], v[2], ["conc", "--mode", "first", "--threads", str(t), "--seed", str(seed + 100_000 * k + i)] + v[3], label=f"{v[0]} first use", env=e, san=san, timeout=300)
        return f
    # (imitating a lesser CPU initialises the feature cache: first use is for the real one)
    ck.parallel([first(tv[0], k, 10 if q else 200, [4, 8, 16][k % 3], tsan_report, env) for k in range(8)])
    def rounds(v, k, t, n, ops, secs, san=None, e=None, maxlen=6000):
        return lambda: None if ck.violations and q else ck.harness(v[1], v[2], ["conc", "--threads", str(t), "--rounds", str(n), "--ops", str(ops), "--secs", str(secs), "--seed", str(seed + k), "--maxlen", str(maxlen)] + v[3],
                                                   label=f"{v[0]} {t} threads", env=e, san=san, timeout=860)
    for i, v in enumerate(tv):
        ck.parallel([rounds(v, 10 * i + k, t, 100_000, 60, 8 if q else 60, tsan_report, env) for k, t in enumerate((4, 16))])
    if not (ck.violations and q):
        for prop in ("C01", "C03", "C05", "C06", "C11"):
            ck.harness("tsan", exes["tsan"], ["run", "--prop", prop, "--mode", "random", "--threads", "16", "--cases", str(20_000 if q else 400_000), "--secs", "6" if q else "60", "--seed", str(seed), "--maxlen", "20000"],
                       label=f"tsan {prop}", env=env, san=tsan_report)
    # 3. speed, real cores, oversubscription
    nv = variants(ck, ["std", "std/sse41", "checked", "portable"] + ([] if q else ["std/portable", "debug", "uninline", "native"]))
    ck.parallel([first(v, 20 + k, 40 if q else 2000, [2, 8, 16, 32][k % 4]) for v in nv if not v[3] for k in range(4)])
    for i, v in enumerate(nv):
        for k, (t, ops, ml) in enumerate(((8, 400, 6000), (32, 150, 1500), (8, 1000, 400))):
            rounds(v, 100 + 10 * i + k, t, 100_000, ops, 4 if q else 60, maxlen=ml)()
    # short calls with different keys side by side, nothing in between
    def hammer(v, k, t, secs, iters, san=None, e=None):
        if not (ck.violations and q):
            ck.harness(v[1], v[2], ["conc", "--mode", "hammer", "--threads", str(t), "--rounds", "100000", "--ops", str(iters), "--secs", str(secs), "--seed", str(seed + k)] + v[3],
                       label=f"{v[0]} {t} threads, prepared calls", env=e, san=san, timeout=860)
    for i, v in enumerate(nv):
        hammer(v, 200 + i, 8, 5 if q else 60, 2000)
        hammer(v, 300 + i, 24, 2 if q else 30, 1000)
    hammer(tv[0], 400, 8, 5 if q else 60, 300, tsan_report, env)
    # 4. the interpreter: weak memory, arbitrary preemption
    if not (ck.violations and q):
        M = [("", "std", "")] + ([] if q else [("-C target-feature=+avx2", "", "avx2"), ("", "", "portable")])
        for flags, feat, tag in M:
            tag = "conc" + tag
            subprocess.run(miri_cmd(["selfnothing"], tag, None, feat), env=miri_env(flags, NOBORROW), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            n = 6 if q else 60
            def mf(k):
                return lambda: miri_run(ck, f"Miri {tag} first use {k}", ["conc", "--mode", "first", "--threads", str(2 + k % 3), "--len", "20", "--seed", str(seed + k)], tag, flags,
                                        f"-Zmiri-many-seeds={ck.seed * 1000}..{ck.seed * 1000 + n} -Zmiri-preemption-rate=0.05 " + NOBORROW, None, feat)
            def mr(k):
                return lambda: miri_run(ck, f"Miri {tag} rounds {k}", ["conc", "--threads", "3", "--rounds", str(1 if q else 8), "--ops", "5", "--maxlen", "130", "--objects", "2", "--seed", str(seed + k)], tag, flags,
                                        f"-Zmiri-seed={seed + k} -Zmiri-preemption-rate=0.05 " + NOBORROW, None, feat)
            ck.parallel([mf(k) for k in range(8 if q else 24)] + [mr(k) for k in range(8 if q else 24)])
    ck.assumptions += ["Threads and schedules are those the machine, injected yields and sleeps, and Miri's random preemption (with store buffering) produce; not all.",
                       "Deadlock: no call completes for 40 s while no thread is runnable and none uses the CPU."]
    return ck.finish("exploration", "2-32 threads performing 14 kinds of operation per crate on objects they share for reading (builders, hashers, hashes), own, or hand to one another (hashers outliving the threads that made them), on neighbouring elements of one array, amid refused parameters, every result compared with the model; first use of the library by all threads at once in fresh processes; under ThreadSanitizer (std instrumented too), natively, and under Miri with random preemption. Distinct: unordered pairs of operation kinds seen running at the same time, per configuration and thread count.")

# ------------------------------------------------------------------ C15 C16: the tool

def tool_parts(ck):
    with cf.ThreadPoolExecutor(2) as ex:
        ft = ex.submit(cli.build_bin)
        exe = build_all(["std"])["std"]
        tool = ft.result()
    validate_model(ck, exe)
    return tool, cli.build_shim(), exe

def c15(ck):
    tool, shim, exe = tool_parts(ck)
    q = ck.quick
    t32 = cf.ThreadPoolExecutor(1).submit(cli.build_bin32)
    ev = cli.campaign(ck, "C15", tool, shim, exe, 16_000 if q else 10_000_000, 40 if q else 600, "invocations")
    for k in ("read short", "read eintr", "mmap real", "write short"):
        if not ev.get(k) and not ck.violations:
            ck.notes.append(f"the shim delivered no '{k}' event: the tool no longer goes through the calls it watches")
    if not ck.violations:
        cli.many_files(ck, tool, shim, exe)
        cli.big_inputs(ck, tool, shim, exe, not q)
        if t32.result():
            cli.big32(ck, t32.result())
        else:
            ck.notes.append(f"no 32-bit build of the tool here ({lib32()})")
    ck.assumptions += ["Sequential digests are compared with CPython's hashlib, parallel ones (and max depth 0) with the reference model.",
                       "Disturbances are injected at libc's read, write, open, mmap and stat entry points."]
    return ck.finish("exploration", "invocations with random function, flags and values over standard input (file, file at an offset, pipe, socket, empty), fifos, /proc files and 1-12 named files, read or mapped, sizes at block and buffer edges, with random short and interrupted reads and writes; exit status and the exact bytes of standard output are checked. Plus 400 inputs under a descriptor limit of 40 and inputs of 2^32+70001 bytes. Distinct by (kind, sizes, parameters, disturbances).")

def c16(ck):
    tool, shim, exe = tool_parts(ck)
    q = ck.quick
    ev = cli.campaign(ck, "C16", tool, shim, exe, 60_000 if q else 10_000_000, 45 if q else 600, "failures")
    if not ck.violations:
        cli.many_failures(ck, tool, shim, exe)
    for k in ("read fault", "open fault", "mmap fault", "write fault", "stat fault"):
        if not ev.get(k) and not ck.violations:
            ck.notes.append(f"the shim delivered no '{k}' event: the tool no longer goes through the calls it watches")
    ck.assumptions += ["The three standard descriptors are open and standard error is writable (the Rust runtime replaces closed ones by /dev/null before the tool runs).",
                       "--mmap of an empty file may fail or give the digest of the empty message; a failing stat may or may not matter."]
    return ck.finish("exploration", "invocations over 1-9 inputs of which some are missing, directories, dangling or looping links, unopenable, or fail at the k-th read, at mmap or at stat (the shim's log tells what was really refused); invalid flags and values; unwritable, interrupted and closed standard output; failing, truncated and unsuitable standard input; up to 4096 failing inputs in one invocation. Checked: exit status, exactly the digests of the intact inputs in order, failing inputs named on standard error. Distinct by (kinds, sizes, parameters, faults).")

# ------------------------------------------------------------------ C18

def c18(ck):
    q = ck.quick
    vs = variants(ck, ["std", "std/sse41", "std/portable", "checked", "portable", "sse41"] + ([] if q else ["debug", "avx2", "uninline", "native"]))
    ft = cf.ThreadPoolExecutor(1).submit(cli.build_bin)
    for i, v in enumerate(vs):
        if ck.violations and q:
            break
        ck.harness(v[1], v[2], ["run", "--prop", "C18", "--mode", "random", "--threads", str(NCPU), "--secs", "5" if q else "60", "--cases", str(60_000 if q else 4_000_000),
                                "--seed", str(seed_for(ck, i)), "--maxlen", "300000"] + v[3], label=v[0] + " allocation counter")
        ck.harness(v[1], v[2], ["stack"] + v[3], label=v[0] + " stack depth", timeout=300)
    tool = ft.result()
    if not (ck.violations and q):
        cli.memory(ck, tool, 300 if q else 4000)
    ck.assumptions += ["The panic path, and strings or vectors the caller asks for, are not hashing.",
                       "The peak resident set of the tool stands for its memory use; --mmap maps the file by design and is left out."]
    return ck.finish("exploration", "every public operation between two readings of a counting global allocator (zero events allowed); stack depth, by painting, of 22 workloads at small and 100-1000 times larger scale (at most 16 KiB more); peak RSS of the tool over growing inputs, from a pipe and from a file, and over many inputs. Non-trivial: non-empty message.")

# ------------------------------------------------------------------ C17

def c17(ck):
    q = ck.quick
    T = [("s390x", "s390x-unknown-linux-gnu", "", ""), ("i686", "i686-unknown-linux-gnu", "", ""), ("i686-avx2", "i686-unknown-linux-gnu", "-C target-feature=+avx2", ""),
         ("powerpc", "powerpc-unknown-linux-gnu", "", ""), ("aarch64", "aarch64-unknown-linux-gnu", "", "")]
    if not q:
        T += [("i686-sse41", "i686-unknown-linux-gnu", "-C target-feature=+sse4.1", ""),
              ("armv7", "armv7-unknown-linux-gnueabihf", "", ""), ("s390x-std", "s390x-unknown-linux-gnu", "", "std"), ("i686-std", "i686-unknown-linux-gnu", "", "std"), ("s390x-uninline", "s390x-unknown-linux-gnu", "", "uninline"),
              ("powerpc64", "powerpc64-unknown-linux-gnu", "", ""), ("riscv64", "riscv64gc-unknown-linux-gnu", "", "")]
    n32 = ["i686", "i686-portable", "i686-sse41"] + ([] if q else ["i686-avx2", "i686-checked"])
    hn = ["i686-hook"] + ([] if q else ["i686-hook-portable"])
    with cf.ThreadPoolExecutor(2) as ex:
        fh = ex.submit(build_hooks, ck, hn)
        exes = build_all(["std"] + n32)
        exes.update(fh.result())
    exe = exes["std"]
    validate_model(ck, exe)
    # 1. 32-bit programs run natively: every property's workload under the model's eye
    for i, c in enumerate(n32 + hn):
        if c not in exes:
            if "hook" in c:
                continue
            ck.notes.append(f"{c}: not runnable here: {lib32()}")
            continue
        if "hook" in c:
            plans = [("C08", "random")]
        else:
            plans = [(p, "random") for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C10", "C11")] + [("C10", "sweep"), ("C03", "sweep"), ("C02", "sweep"), ("C05", "sweep"), ("C01", "big"), ("C02", "big"), ("C03", "big")]
        for p, mode in plans:
            if ck.violations and q:
                break
            ck.harness(c, exes[c], ["run", "--prop", p, "--mode", mode, "--threads", str(NCPU), "--secs", ("60" if mode == "sweep" else "2") if q else "40", "--seed", str(seed_for(ck, i))]
                       + (["--cases", str(30_000 if q else 2_000_000), "--maxlen", "200000"] if mode == "random" else ["--cases", str(60 if q else 1000), "--maxlen", str(1 << 25)] if mode == "big" else []), label=f"{c} (32-bit, native) {p} {mode}")
    seed = seed_for(ck, 17)
    ref = {}
    o = subprocess.run([exe, "mini", "--seed", str(seed)], stdout=subprocess.PIPE, text=True).stdout
    for l in o.splitlines():
        if l.startswith("MINI "):
            f = l.split(None, 2)
            ref[int(f[1])] = f[2]
    if len(ref) < 100:
        raise HarnessError("the native run of the small cases gave nothing: " + o[-500:])
    wrong = [k for k, v in ref.items() if v.startswith("failed")]
    if wrong:
        ck.notes.append(f"{len(wrong)} small cases fail the oracle natively (C01-C11 judge that); compared all the same")
    targets = list(dict.fromkeys(t for _, t, _, _ in T))
    ok = {}
    def prep(t):
        def f():
            try:
                miri_setup(t)
                ok[t] = True
            except HarnessError as e:
                ck.notes.append(f"{t}: no Miri sysroot here: {str(e)[-200:]}")
        return f
    for t in targets:     # (they share a directory and a lock)
        prep(t)()
    if not ok:
        raise HarnessError("no Miri target is available")
    compared = {}
    for tag, t, flags, feat in T:
        if t not in ok:
            continue
        if ck.violations and q:
            break
        got = mini_parallel(ck, f"Miri {tag}", 8, (45 if tag == "s390x" else 25 if tag in ("powerpc", "aarch64") else 15) if q else 200, "t-" + tag, flags, target=t, features=feat, seed=seed, miri=f"-Zmiri-seed={ck.seed} -Zmiri-symbolic-alignment-check " + NOBORROW)
        compared[tag] = len(got)
        bad = sorted(k for k, v in got.items() if v != ref.get(k))
        if bad and not ck.violations:
            k = bad[0]
            nat = subprocess.run([exe, "mini", "--seed", str(seed), "--only", str(k)], stdout=subprocess.PIPE, text=True).stdout
            ck.violate(f"{tag}: small case {k} returns something else than on x86-64 ({got[k]} here, {ref.get(k)} there; {len(bad)} of {len(got)} cases differ)",
                       dict(kind="miri", config="t-" + tag, args=["mini", "--seed", str(seed), "--only", str(k)], native=nat[-3000:], cases=bad[:50],
                            cmd=miri_cmd(["mini", "--oracle", "off", "--seed", str(seed), "--only", str(k)], "t-" + tag, t, feat), flags=flags))
    ck.extra["cases_compared"] = compared
    ck.extra["small_cases_in_total"] = len(ref)
    ck.assumptions += ["Architectures other than x86-64 and 32-bit x86 are interpreted by Miri, not run on hardware; small inputs (up to a few stripes) only.",
                       "Undefined behaviour other than aliasing is reported here; aliasing is C09's."]
    return ck.finish("exploration", "the workloads of C01-C06, C08 (hook), C10 and C11 with the model as oracle in native 32-bit x86 programs (run-time detection, portable, SSE4.1); and small cases touching every public operation of both crates (up to 40 block lengths, keys, batches, trees, hex, Debug), interpreted on big-endian 64-bit, little-endian 32-bit (portable and AVX2 intrinsics), big-endian 32-bit (PowerPC), AArch64 and, in the thorough tier, seven more targets and features; the hash of everything returned must equal the native x86-64 run of the same case. Distinct per target and case.")

def c19(ck):
    return cost.run(ck, variants, build_all)

CHECKS = dict(C19=c19, C14=c14, C20=sneves.run, C17=c17, C18=c18, C15=c15, C16=c16, C12=c12, C09=c09, C08=c08, C07=c07, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C10=c10, C11=c11, C13=c13)

def replay(o):
    """Re-executes what a replay file records; exit 1 when it fails again."""
    prop = o["property"]
    ck = Check(prop, o.get("tier", "quick"), o.get("seed", 1))
    rep = o.get("report")
    idx = [rep["index"]] if rep and "index" in rep else (o.get("active") or [])
    args = list(o.get("args") or [])
    if o.get("kind", "case") not in ("case", "hang", "crash") or not idx or not args or args[0] != "run":
        print(f"recorded: {o.get('detail')}")
        for k in ("cmd", "configs", "case", "first", "second"):
            if k in o:
                print(f"  {k}: {json.dumps(o[k])[:2000]}")
        print(f"this kind of finding is replayed by running the check again with seed {ck.seed}, tier {ck.tier}")
        return CHECKS[prop](ck)
    exe = build_all([o["config"]])[o["config"]]
    for i in idx:
        a = args + ["--first", str(i), "--cases", "1", "--threads", "1"]
        ck.harness(o["config"], exe, a, label=f"replay of case {i}")
    for d, p, ob in ck.violations:
        print(d)
        for s in (ob.get("report") or {}).get("steps", []):
            print("   ", s)
        print(f"VIOLATION property={prop} replay={p}")
    return 1 if ck.violations else 0

LEVELS = {}
