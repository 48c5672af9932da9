"""The benchmark's C implementation under sanitizers (C20). The oracle is CPython's hashlib (for the
parallel functions: its tree parameters), so nothing here depends on the code under test or on our model."""
import hashlib, os, random, signal, subprocess, time
import concurrent.futures as cf
from common import *

SRC = os.path.join(REPO, "benches", "blake2-avx2-sneves", "blake2-avx2")
FUNCS = ("blake2b", "blake2bp", "blake2sp")
# as build.rs compiles it; opt-level as cargo's release and dev profiles choose it
BASE = ["-mavx2", "-DPERMUTE_WITH_SHUFFLES=1", "-w", "-g"]
BUILDS = {
    "plain": ["-O3"],
    "debug": ["-O0"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "bounds": ["-O1", "-fsanitize=bounds,object-size,shift,integer-divide-by-zero", "-fno-sanitize-recover=all"],
    "msan": ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"],
}

def build_c(name):
    d = os.path.join(BUILD, "sneves")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name)
    if any(not os.path.exists(os.path.join(SRC, f + ".c")) for f in FUNCS):
        raise HarnessError("the C sources are not where build.rs finds them")
    cmd = ["clang"] + BASE + BUILDS[name] + [os.path.join(SRC, f + ".c") for f in FUNCS] + [os.path.join(VERIF, "lib", "sneves.c"), "-o", exe]
    t0 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError(f"{name}: {r.stdout[-1500:]}")
    BUILD_TIMES["C " + name] = round(time.time() - t0, 1)
    return exe

def build_wrapper():
    """the Rust wrapper crate with its own build script"""
    h = hashlib.sha256()
    for dp, ds, fs in sorted(os.walk(os.path.join(REPO, "benches", "blake2-avx2-sneves"))):
        ds[:] = sorted(d for d in ds if d != "target")
        for f in sorted(fs):
            h.update(open(os.path.join(dp, f), "rb").read())
    t = os.path.join(BUILD, "t", "sneves-" + h.hexdigest()[:8])     # (cargo does not notice changes of headers)
    t0 = time.time()
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--manifest-path", os.path.join(VERIF, "sneves", "Cargo.toml"), "--target-dir", t],
                       env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError("wrapper: " + r.stdout[-1500:])
    BUILD_TIMES["wrapper"] = round(time.time() - t0, 1)
    return os.path.join(t, "release", "sneves-driver")

def tree(cls, n, leaf_parts):
    block = cls().block_size
    out = cls().digest_size
    leaves = []
    for i, parts in enumerate(leaf_parts):
        l = cls(fanout=n, depth=2, leaf_size=0, node_offset=i, node_depth=0, inner_size=out, last_node=i == n - 1)
        for p in parts:
            l.update(p)
        leaves.append(l.digest())
    return cls(b"".join(leaves), fanout=n, depth=2, leaf_size=0, node_offset=0, node_depth=1, inner_size=out, last_node=True).hexdigest()

def lane(data, i, n, block):
    return b"".join(data[j:j + block] for j in range(i * block, len(data), n * block))

def want(f, data):
    if f == "blake2b":
        return hashlib.blake2b(data).hexdigest()
    cls, n, block = (hashlib.blake2b, 4, 128) if f == "blake2bp" else (hashlib.blake2s, 8, 64)
    return tree(cls, n, [[lane(data, i, n, block)] for i in range(n)])

def want_big(f, pat, sizes):
    """digests of the first n bytes of pat repeated, for each n of sizes; len(pat) is a multiple of every stripe"""
    cuts = {}
    for n in sizes:
        cuts.setdefault(n // len(pat), []).append(n)
    def stream(h, sub):
        got = {}
        p = sub(pat)
        for k in range(max(cuts) + 1):
            for n in cuts.get(k, ()):
                c = h.copy()
                c.update(sub(pat[:n % len(pat)]))
                got[n] = c
            h.update(p)
        return got
    if f == "blake2b":
        return {n: h.hexdigest() for n, h in stream(hashlib.blake2b(), lambda d: d).items()}
    cls, w, block = (hashlib.blake2b, 4, 128) if f == "blake2bp" else (hashlib.blake2s, 8, 64)
    out = cls().digest_size
    def leaf(i):
        l = cls(fanout=w, depth=2, leaf_size=0, node_offset=i, node_depth=0, inner_size=out, last_node=i == w - 1)
        return stream(l, lambda d: lane(d, i, w, block))
    with cf.ThreadPoolExecutor(w) as ex:      # (hashlib lets go of the interpreter lock)
        leaves = list(ex.map(leaf, range(w)))
    return {n: cls(b"".join(l[n].digest() for l in leaves), fanout=w, depth=2, leaf_size=0, node_offset=0, node_depth=1, inner_size=out, last_node=True).hexdigest() for n in sizes}

def contents(r, n):
    k = r.randrange(8)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes((i & 0xff) for i in range(n)) if n < 5000 else b"\xaa" * n
    return r.randbytes(n)

def case(seed, i, dense):
    """the i-th case: (function, place, offset, message)"""
    r = random.Random(f"C20 {seed} {i}")
    if i < dense * 3:
        f, n = FUNCS[i % 3], i // 3
        place = r.choice("mes")
    else:
        f = r.choice(FUNCS)
        s = 128 if f == "blake2b" else 512
        n = r.choice([lambda: r.randrange(0, 2 * s + 2), lambda: r.randrange(40) * s + r.choice([-1, 0, 1, 64, 128, 127, 129, 63, 65]),
                      lambda: r.randrange(20000), lambda: (1 << r.randrange(17)) + r.randrange(-2, 3), lambda: r.randrange(1 << r.randrange(8, 21))])()
        n = max(0, n)
        place = r.choice("mmmees")
    return f, place, r.choice([0, 0, 1, 3, 7, 8, 16, 31, r.randrange(64)]), contents(r, n)

REPORTS = ("ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "Sanitizer: SEGV", "runtime error:")

class Out:
    def __init__(self):
        self.violations = []
    def violate(self, detail, obj):
        self.violations.append((detail, obj))

def drive(label, exe, wrapper, seed, idx, dense, until, env=None, prefix=()):
    """runs the cases of `idx` through one server process (called in a process of its own);
    returns the number done, the (function, length) pairs, what was wrong"""
    ck = Out()
    e = base_env()
    e.update(env or {})
    p = subprocess.Popen(list(prefix) + [exe] + ([] if wrapper else ["serve"]), env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    done, lens = 0, set()
    bad = None
    try:
        for i in idx:
            if time.time() > until:
                break
            f, place, off, data = case(seed, i, dense)
            try:
                p.stdin.write((f"{f} {len(data)}\n" if wrapper else f"{f} {place} {off} {len(data)}\n").encode())
                p.stdin.write(data)
                p.stdin.flush()
            except BrokenPipeError:
                pass
            ans = p.stdout.readline().decode().split()
            if not ans:
                bad = (i, "no answer")
                break
            w = want(f, data)
            flags = ans[1:]
            if ans[0] != w:
                bad = (i, f"{f} of {len(data)} bytes (place {place}, offset {off}) is {ans[0]}, not {w}")
            elif wrapper and flags != ["1"] or not wrapper and flags[1] != "0":
                bad = (i, f"{f} of {len(data)} bytes changed its input")
            elif not wrapper and flags[2] != "0":
                bad = (i, f"{f} of {len(data)} bytes wrote outside the output buffer")
            if bad:
                break
            done += 1
            lens.add((f, len(data)))
    finally:
        try:
            p.stdin.close()
        except OSError:
            pass
        if not bad:
            p.stdout.read()
        err = p.stderr.read().decode(errors="replace")
        rc = p.wait()
    rep = next((l.strip() for l in err.splitlines() if any(x in l for x in REPORTS)), None) or memcheck_line(err)
    if rep and "out of memory" not in rep:
        i = bad[0] if bad else None
        where = next((l.strip() for l in err.splitlines() if l.strip().startswith("#") and ("blake2" in l)), "")
        ck.violate(f"{label}: {rep} {where}", dict(kind="sneves", build=label, case=i, dense=dense, cseed=seed, output=err[-4000:]))
    elif bad and bad[1] == "no answer":
        if rc < 0 and -rc in CRASH:
            f, place, off, data = case(seed, bad[0], dense)
            ck.violate(f"{label}: {signal.Signals(-rc).name} in {f} of {len(data)} bytes (place {place})", dict(kind="sneves", build=label, case=bad[0], dense=dense, cseed=seed, output=err[-2000:]))
        else:
            raise HarnessError(f"{label}: the driver ended with {rc}: {err[-800:]}")
    elif bad:
        ck.violate(f"{label}: {bad[1]}", dict(kind="sneves", build=label, case=bad[0], dense=dense, cseed=seed))
    return done, lens, ck.violations

def memcheck_line(err):
    for l in err.splitlines():
        if l.startswith("==") and any(w in l for w in ("Invalid read", "Invalid write", "uninitialised", "Source and destination overlap")):
            return l.strip()
    return None

def big(ck, exe, f, sizes, pat, path):
    t0 = time.time()
    def c(n):
        return subprocess.run([exe, "big", f, path, str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    with cf.ThreadPoolExecutor(4) as ex:
        fw = ex.submit(want_big, f, pat, sizes)
        rs = dict(zip(sizes, ex.map(c, sizes)))
        w = fw.result()
    for n, r in rs.items():
        if r.returncode < 0 and -r.returncode in CRASH:
            ck.violate(f"{f} of {n} bytes: {signal.Signals(-r.returncode).name}", dict(kind="sneves-big", f=f, n=n))
        elif r.returncode:
            raise HarnessError(f"big: {r.returncode} {r.stderr[-500:]}")
        elif r.stdout.split()[0] != w[n]:
            ck.violate(f"{f} of {n} bytes is {r.stdout.split()[0]}, not {w[n]}", dict(kind="sneves-big", f=f, n=n))
    ck.runs.append(dict(config="plain", label=f"{f} of {sizes} bytes", args=[], stats=dict(evaluations=len(sizes), distinct=len(sizes), complete=True, mode="big"), rc=0, wall=round(time.time() - t0, 2)))

def run(ck):
    q = ck.quick
    if "avx2" not in CPU:
        raise HarnessError("this CPU has no AVX2; the C implementation needs it")
    names = list(BUILDS)
    with cf.ThreadPoolExecutor(6) as ex:
        fw = ex.submit(build_wrapper)
        exes = dict(zip(names, ex.map(build_c, names)))
        wrapper = fw.result()
    seed = ck.seed
    dense = 4400
    env = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1", MSAN_OPTIONS="exitcode=78", UBSAN_OPTIONS="halt_on_error=1:exitcode=79:print_stacktrace=1")
    until = time.time() + (150 if q else 700)
    plan = [("wrapper", wrapper, True, dense * 3 + (6000 if q else 400_000), ())]
    plan += [(n, exes[n], False, dense * 3 + (6000 if q else 400_000), ()) for n in names]
    plan += [("memcheck", exes["plain"], False, dense * 3 if not q else 0, ("valgrind", "-q", "--error-exitcode=0"))]
    jobs = []
    lens = set()
    with cf.ProcessPoolExecutor(NCPU) as ex:
        for label, exe, w, n, prefix in plan:
            if not n:                        # memcheck, quick: some of the dense lengths only
                idxs = [range(k * 37, dense * 3, 37 * 40) for k in range(8)]
            else:
                idxs = [range(k, n, 8) for k in range(8)]
            jobs += [(label, x, ex.submit(drive, label, exe, w, seed, x, dense, until, env, prefix)) for x in idxs]
        for label, x, j in jobs:
            d, ls, bad = j.result()
            lens |= ls
            for detail, obj in bad:
                ck.violate(detail, obj)
            ck.runs.append(dict(config=label, label=label, args=[], stats=dict(evaluations=d, distinct=0, complete=d == len(x), mode="cases"), rc=0, wall=0))
    ck.extra["add_distinct"] = len(lens)
    if not (ck.violations and q):
        pat = random.Random(f"C20 big {seed}").randbytes(1 << 20)
        path = scratch("pattern")
        open(path, "wb").write(pat)
        try:
            G = 1 << 32
            r = random.Random(f"C20 lens {seed}")
            sizes = dict(blake2b=[G + 4096 * r.randrange(1, 200) + 5], blake2bp=[G + r.randrange(1, 5000)], blake2sp=[8 * G - 512 + 64 * 4 + 44, 8 * G + r.randrange(1, 600)])
            if not q:
                for f in FUNCS:
                    sizes[f] += [G + d for d in (-1, 0, 1, 511, 512, 513, 65536)]
                sizes["blake2bp"].append(4 * G + 300)
                sizes["blake2sp"] += [8 * G + d for d in (-512, -1, 0, 449, 512)]
            ck.parallel([lambda f=f: big(ck, exes["plain"], f, sizes[f], pat, path) for f in FUNCS], workers=3)
        finally:
            os.unlink(path)
    ck.extra["samples"] = ["%s %s+%d, %d bytes" % (c[0], c[1], c[2], len(c[3])) for c in (case(seed, i, dense) for i in (0, 1, 5000, dense * 3 + 1, dense * 3 + 2))]
    ck.assumptions += ["Compiled with clang and build.rs's flags; the sources' other permutation strategies, which the build does not use, are left out.",
                       "CPython's hashlib is the specification (for the parallel functions through its tree parameters)."]
    return ck.finish("exploration", "every length 0..4399 of each function and random longer ones up to 1 MiB, at random offsets in exact heap blocks and flush against inaccessible pages on either side, input read-only, output fenced and filled with a known byte; through the Rust wrapper, at -O3 and -O0, under AddressSanitizer, MemorySanitizer and UBSan's bounds checks, and a sample under memcheck; inputs around 2^32 bytes (2^35, where its leaves' counters carry, for blake2sp). Distinct by (function, length).")
