"""Shared machinery of the checks: build configurations, process running, verdicts, evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = os.cpu_count() or 8

class HarnessError(Exception):
    """The check cannot decide: neither held nor violated."""

class Violation(Exception):
    def __init__(self, detail, replay):
        super().__init__(detail)
        self.detail, self.replay = detail, replay

# name -> cargo profile dir, features, rustflags, toolchain, extra cargo args
def cfg(profile="release", features="std", flags="", toolchain=None, target=None, z=(), env=None):
    return dict(profile=profile, features=features, flags=flags, toolchain=toolchain, target=target, z=z, env=env or {})

CONFIGS = {
    "std": cfg(),                                            # run-time detection (AVX2 here)
    "checked": cfg("checked"),                               # + debug assertions, overflow checks
    "debug": cfg("dev"),                                     # unoptimised
    "portable": cfg(features=""),                            # no_std, no SIMD
    "sse41": cfg(features="", flags="-C target-feature=+sse4.1"),
    "avx2": cfg(features="", flags="-C target-feature=+avx2"),
    "uninline": cfg(features="uninline"),                    # no_std portable, uninline_portable
    "uninline-std": cfg(features="std,uninline"),
    "std-sse41": cfg(flags="-C target-feature=+sse4.1"),     # std built for CPUs that have SSE4.1 at least
    "native": cfg(flags="-C target-cpu=native"),
    "size": cfg(flags="-C opt-level=s"),
    "hook": cfg(flags="--cfg blake2_simd_verif"),
    "hook-checked": cfg("checked", flags="--cfg blake2_simd_verif"),
    "hook-sse41": cfg(features="", flags="--cfg blake2_simd_verif -C target-feature=+sse4.1"),
    "hook-portable": cfg(features="", flags="--cfg blake2_simd_verif"),
    "sse41-checked": cfg("checked", features="", flags="-C target-feature=+sse4.1"),
    "portable-checked": cfg("checked", features=""),
    "asan": cfg(flags="-Zsanitizer=address", toolchain="+nightly", target=TRIPLE),
    "asan-sse41": cfg(features="", flags="-Zsanitizer=address -C target-feature=+sse4.1", toolchain="+nightly", target=TRIPLE),
    "asan-portable": cfg(features="", flags="-Zsanitizer=address", toolchain="+nightly", target=TRIPLE),
    "tsan": cfg(flags="-Zsanitizer=thread", toolchain="+nightly", target=TRIPLE, z=("-Zbuild-std",)),
    "msan": cfg(flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins", toolchain="+nightly", target=TRIPLE, z=("-Zbuild-std",)),
}

# coverage-guided: edges, comparisons and their operands reported to libFuzzer, which clang brings
def fuzzer_lib():
    r = subprocess.run(["clang", "-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout.strip()
SANCOV = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters " \
         "-Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 --cfg verif_fuzz"
def _fuzz(features="", flags="", profile="release"):
    return cfg(profile, features, f"{SANCOV} {flags} -Clink-arg=@FUZZLIB@ -Clink-arg=-lstdc++", "+nightly", TRIPLE)
CONFIGS["fuzz"] = _fuzz("std")
CONFIGS["fuzz-checked"] = _fuzz("std", profile="checked")
CONFIGS["fuzz-sse41"] = _fuzz(flags="-C target-feature=+sse4.1")
CONFIGS["fuzz-portable"] = _fuzz()

_l = threading.RLock()
I686 = "i686-unknown-linux-gnu"
LIB32 = os.path.join(BUILD, "lib32")
def f32(extra=""):
    return f"-Clink-arg=-nostartfiles -Clink-arg={LIB32}/crt32.o -Clink-arg=-L{LIB32} {extra}".strip()
for _n, _f, _x in (("i686", "std", ""), ("i686-checked", "std", ""), ("i686-portable", "", ""), ("i686-sse41", "", "-C target-feature=+sse4.1"), ("i686-avx2", "", "-C target-feature=+avx2"),
                   ("i686-hook", "std", "--cfg blake2_simd_verif"), ("i686-hook-portable", "", "--cfg blake2_simd_verif")):
    CONFIGS[_n] = cfg("checked" if "checked" in _n else "release", _f, f32(_x), "+nightly", I686, ("-Zbuild-std",))

_lib32 = []
def lib32():
    """None when 32-bit x86 programs can be built and run natively here, otherwise the reason why not"""
    with _l:
        if not _lib32:
            _lib32.append(_mk_lib32())
        return _lib32[0]

def _mk_lib32():
    os.makedirs(LIB32, exist_ok=True)
    r = subprocess.run(["gcc", "-m32", "-fno-stack-protector", "-fPIC", "-O1", "-w", "-c", os.path.join(VERIF, "lib", "crt32.c"), "-o", os.path.join(LIB32, "crt32.o")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "gcc -m32: " + r.stdout[-200:]
    for n in ("c.so.6", "m.so.6", "dl.so.2", "pthread.so.0", "rt.so.1", "util.so.1", "gcc_s.so.1"):
        src = next((d + "/lib" + n for d in ("/usr/lib32", "/lib/i386-linux-gnu", "/usr/lib/i386-linux-gnu") if os.path.exists(d + "/lib" + n)), None)
        if src is None:
            return f"no 32-bit lib{n}"
        d = os.path.join(LIB32, "lib" + n.split(".so")[0] + ".so")
        if os.path.lexists(d):
            os.unlink(d)
        os.symlink(src, d)
    c = os.path.join(LIB32, "t.c")
    open(c, "w").write("#define NULL 0\nint puts(const char*); int main(void){puts(\"ok\");return 0;}")
    r = subprocess.run(["gcc", "-m32", "-fPIC", "-pie", "-nostdlib", "-w", c, os.path.join(LIB32, "crt32.o"), "-L" + LIB32, "-lc", "-o", os.path.join(LIB32, "t")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "linking: " + r.stdout[-300:]
    try:
        r = subprocess.run([os.path.join(LIB32, "t")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError as e:
        return f"32-bit programs do not run: {e}"
    return None if r.stdout == "ok\n" else f"32-bit programs do not run ({r.returncode})"

def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()
CPU = cpu_flags()

def runnable(name):
    c = CONFIGS[name]
    if "@FUZZLIB@" in c["flags"] and not os.path.exists(fuzzer_lib()):
        return False
    if c["target"] == I686 and lib32() is not None:
        return False
    if "+avx2" in c["flags"] and "avx2" not in CPU:
        return False
    if "+sse4.1" in c["flags"] and "sse4_1" not in CPU:
        return False
    return True

def log(*a):
    print(*a, flush=True)

def base_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "LD_PRELOAD", "MIRIFLAGS",
              "RUST_BACKTRACE", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

_locks = {}

def harness_dir():
    """The harness crate is built from a copy under .build, so that cargo never writes a Cargo.lock into /verif."""
    return os.path.join(VERIF, "harness")

def cargo_build(name, crate=None, bins=None, quiet=True, jobs=None):
    """Builds one configuration of the harness; returns the path of its binary."""
    c = CONFIGS[name]
    with _l:
        lk = _locks.setdefault(name, threading.Lock())
    with lk:
        t0 = time.time()
        tdir = os.path.join(BUILD, "t", name)
        os.makedirs(tdir, exist_ok=True)
        env = base_env()
        env["RUSTFLAGS"] = (c["flags"] + " -Awarnings").strip()
        if "@FUZZLIB@" in env["RUSTFLAGS"]:
            env["RUSTFLAGS"] = env["RUSTFLAGS"].replace("@FUZZLIB@", fuzzer_lib())
        env["CARGO_INCREMENTAL"] = "0"
        env.update(c["env"])
        cmd = ["cargo"]
        if c["toolchain"]:
            cmd.append(c["toolchain"])
        cmd += ["build", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
                "--target-dir", tdir, "--bin", "harness", "-q"]
        if jobs:
            cmd += ["-j", str(jobs)]
        if c["profile"] != "dev":
            cmd += ["--profile", c["profile"]]
        if c["features"]:
            cmd += ["--features", c["features"]]
        if c["target"]:
            cmd += ["--target", c["target"]]
        cmd += list(c["z"])
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=850)
        if r.returncode != 0:
            raise HarnessError(f"build of configuration {name} failed:\n{r.stderr[-3000:]}")
        d = "debug" if c["profile"] == "dev" else c["profile"]
        p = os.path.join(tdir, c["target"] or "", d, "harness")
        if not os.path.exists(p):
            raise HarnessError(f"{p} is missing after the build")
        BUILD_TIMES[name] = round(time.time() - t0, 1)
        return p

BUILD_TIMES = {}

def build_all(names):
    names = [n for n in dict.fromkeys(names) if runnable(n)]
    # one process at a time resolves Cargo.lock; afterwards builds run side by side
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    if not os.path.exists(lock):
        r = subprocess.run(["cargo", "generate-lockfile", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")],
                           env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise HarnessError("cargo generate-lockfile failed:\n" + r.stdout[-2000:])
    with cf.ThreadPoolExecutor(max_workers=6) as ex:
        paths = list(ex.map(cargo_build, names))
    return dict(zip(names, paths))

# ------------------------------------------------------------------ literals found in the sources

# ------------------------------------------------------------------ Miri

MIRI_FLAGS = "-Zmiri-disable-isolation"
TREE = "-Zmiri-tree-borrows"
NOBORROW = "-Zmiri-disable-stacked-borrows"   # everything but aliasing: more than twice as fast

def miri_env(flags="", miri="", target_tag="x"):
    e = base_env()
    e["XDG_CACHE_HOME"] = os.path.join(BUILD, "miri-cache")   # the sysroot goes here
    e["RUSTFLAGS"] = (flags + " -Awarnings").strip()
    e["MIRIFLAGS"] = (MIRI_FLAGS + " " + miri).strip()
    return e

def miri_setup(target=None):
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "miri-cache"), exist_ok=True)
    cmd = ["cargo", "+nightly", "miri", "setup"] + (["--target", target] if target else [])
    r = subprocess.run(cmd, env=miri_env(), cwd=os.path.join(VERIF, "harness"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise HarnessError("cargo miri setup failed: " + r.stdout[-1500:])
    BUILD_TIMES["miri sysroot " + (target or "x86_64")] = round(time.time() - t0, 1)

def miri_cmd(args, tag, target=None, features=""):
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"), "--bin", "harness",
            "--target-dir", os.path.join(BUILD, "t", "miri-" + tag)] + (["--target", target] if target else []) + \
           (["--features", features] if features else []) + ["--"] + args

def miri_run(ck, label, args, tag, flags="", miri="", target=None, features="", timeout=800):
    """One interpreted run. Undefined behaviour is a violation; an operation Miri does not support ends the run with a note."""
    cmd = miri_cmd(args, tag, target, features)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=miri_env(flags, miri), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        ck.notes.append(f"{label}: stopped after {timeout} s of wall time")
        return None
    out, err = p.stdout, p.stderr
    stats = None
    for l in out.splitlines():
        if l.startswith("STATS "):
            stats = json.loads(l[6:])
    lines = [l for l in out.splitlines() if l.startswith("MINI ")]
    started = [l for l in out.splitlines() if l.startswith("MINI-START ")]
    if stats is None and lines:
        stats = dict(evaluations=len(lines), distinct=len(lines), states=0, events={}, samples=[], complete=False, mode="mini")
    ck.runs.append(dict(config="miri " + tag, label=label, args=list(args), stats=stats, rc=p.returncode, wall=round(time.time() - t0, 2)))
    if "Undefined Behavior" in err or "Data race detected" in err:
        what = next((l for l in err.splitlines() if "Undefined Behavior" in l or "Data race" in l), "")
        where = next((l.strip() for l in err.splitlines() if "-->" in l), "")
        ck.violate(f"{label}: Miri: {what.strip()} {where} (in {started[-1] if started else 'the run'})",
                   dict(kind="miri", config=tag, args=list(args), cmd=cmd, flags=flags, miri=miri, output=err[-5000:]))
    elif "VIOLATION-REPORT" in out or "evaluated program deadlocked" in err:
        what = next((json.loads(l[17:])["detail"] for l in out.splitlines() if l.startswith("VIOLATION-REPORT ")), "deadlock")
        which = next((l.strip() for l in err.splitlines() if "FAILING SEED" in l), "")
        ck.violate(f"{label}: under Miri: {what} {which}", dict(kind="miri", config=tag, args=list(args), cmd=cmd, flags=flags, miri=miri, output=(out + err)[-5000:]))
    elif p.returncode != 0:
        if "unsupported operation" in err or "can't call foreign function" in err:
            ck.notes.append(f"{label}: Miri does not support something this tree does: " + next((l for l in err.splitlines() if "unsupported" in l), "")[:200])
        elif "could not compile" in err:
            raise HarnessError(f"{label}: build failed\n{err[-2000:]}")
        else:
            raise HarnessError(f"{label}: exit {p.returncode}\n{out[-800:]}\n{err[-2000:]}")
    return lines

def harvest_literals():
    """Numbers occurring in the code under test bias the workload's lengths and values (a fuzzing dictionary);
    they play no part in any verdict."""
    vals = set()
    roots = [os.path.join(REPO, d, "src") for d in ("blake2b", "blake2s", "blake2_bin")]
    consts = {"BLOCKBYTES": (64, 128), "OUTBYTES": (32, 64), "KEYBYTES": (32, 64), "DEGREE": (4, 8), "MAX_DEGREE": (4, 8)}
    num = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:_?(?:u|i)(?:8|16|32|64|128|size))?(?![\w.])")
    def parse(t):
        t = t.replace("_", "")
        return int(t, 0) if t.startswith("0x") or t.startswith("0b") else int(t)
    for root in roots:
        for dp, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                try:
                    text = open(os.path.join(dp, f), errors="replace").read()
                except OSError:
                    continue
                text = re.sub(r"//[^\n]*", "", text)
                for m in num.finditer(text):
                    try:
                        vals.add(parse(m.group(1)))
                    except ValueError:
                        pass
                for m in re.finditer(r"(\w+)\s*(<<|\*)\s*(\w+)", text):
                    sides = []
                    for s in (m.group(1), m.group(3)):
                        if s in consts:
                            sides.append(consts[s])
                        else:
                            try:
                                sides.append((parse(re.sub(r"_?(u|i)(8|16|32|64|128|size)$", "", s)),))
                            except ValueError:
                                sides.append(())
                    for a in sides[0]:
                        for b in sides[1]:
                            if m.group(2) == "*":
                                vals.add(a * b)
                            elif b < 64:
                                vals.add(a << b)
    vals = sorted(v for v in vals if 0 <= v < 1 << 64)
    os.makedirs(BUILD, exist_ok=True)
    p = os.path.join(BUILD, "literals.txt")
    tmp = p + f".{os.getpid()}"
    open(tmp, "w").write(" ".join(map(str, vals)))
    os.replace(tmp, p)
    return p, len(vals)

# ------------------------------------------------------------------ running

CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP, signal.SIGSYS}

def scratch(name):
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{name}.{os.getpid()}.{threading.get_ident()}")

def write_replay(prop, obj):
    os.makedirs(REPLAYS, exist_ok=True)
    obj = dict(property=prop, **obj)
    h = hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(REPLAYS, f"{prop}-{h}.json")
    json.dump(obj, open(p, "w"), indent=1)
    return p

CASE_PROPS = {f"C{i:02}" for i in range(1, 30)}

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.runs = []          # per process statistics
        self.violations = []    # (detail, replay path)
        self.assumptions = []
        self.notes = []
        self.extra = {}
        self.quick = tier == "quick"
        self.lits, self.nlits = harvest_literals()

    # -- one harness process
    def harness(self, cfgname, exe, args, timeout=600, env=None, prefix=(), label=None, replayable=True, san=None):
        crumbs = scratch("crumbs")
        cmd = list(prefix) + [exe] + list(args)
        if args and args[0] in ("run",):
            cmd += ["--lits", self.lits, "--crumbs", crumbs]
        e = base_env()
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise HarnessError(f"{label or cfgname}: no answer within {timeout} s of wall time: {' '.join(cmd)}")
        out, err, rc = p.stdout, p.stderr, p.returncode
        active = None
        if os.path.exists(crumbs):
            import struct
            raw = open(crumbs, "rb").read()
            w = struct.unpack("<512Q", raw)
            active = [w[2 * i + 1] for i in range(256) if w[2 * i] == 1]
            os.unlink(crumbs)
        stats = None
        report = None
        for l in out.splitlines():
            if l.startswith("STATS "):
                stats = json.loads(l[6:])
            elif l.startswith("VIOLATION-REPORT "):
                report = json.loads(l[17:])
        rec = dict(config=cfgname, label=label or cfgname, args=list(args), stats=stats, rc=rc, wall=round(time.time() - t0, 2))
        self.runs.append(rec)
        rerun = dict(config=cfgname, args=list(args))
        if san and san(out, err, rc):
            self.violate(f"{label or cfgname}: " + san(out, err, rc), dict(rerun, kind="sanitizer", active=active, output=(err + out)[-6000:]))
        elif rc == 10 and report:
            if "HARNESS-ERROR" in report["detail"]:
                raise HarnessError(report["detail"])
            self.violate(f"{label or cfgname}: {report['detail']}", dict(rerun, kind="case", report=report, prefix=list(prefix), stderr=err[-3000:]))
        elif rc == 12:
            self.violate(f"{label or cfgname}: a call does not return: {[l for l in out.splitlines() if l.startswith('HANG')]}", dict(rerun, kind="hang", active=active))
        elif rc < 0 and -rc in CRASH and "memory allocation of" not in err and "HARNESS-ERROR" not in err:
            self.violate(f"{label or cfgname}: the process died of signal {signal.Signals(-rc).name} in one of the cases {active}",
                         dict(rerun, kind="crash", signal=-rc, active=active, stderr=err[-3000:]))
        elif rc != 0:
            raise HarnessError(f"{label or cfgname}: exit {rc} of {' '.join(cmd)}\n{out[-1500:]}\n{err[-1500:]}")
        return rec, out, err

    def violate(self, detail, obj):
        path = write_replay(self.prop, dict(detail=detail, seed=self.seed, tier=self.tier, **obj))
        self.violations.append((detail, path, obj))
        log(f"  {detail}")

    def parallel(self, jobs, workers=NCPU):
        """runs thunks side by side; the first harness error is raised after all have ended"""
        with cf.ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(j) for j in jobs]
        for f in fs:
            f.result()

    # -- evidence and verdict
    def totals(self):
        ev = 0
        rnd = 0
        sweeps = {}
        states = {}
        events = {}
        samples = []
        for r in self.runs:
            s = r["stats"]
            if not s:
                continue
            ev += s.get("evaluations", 0)
            if s.get("mode") == "sweep":
                sweeps["sweep"] = max(sweeps.get("sweep", 0), s["distinct"])
            elif s.get("mode") in ("transcript", "tsweep"):      # every configuration runs the same cases: they count once
                k = " ".join([s["mode"]] + [a for a in r["args"] if a in CASE_PROPS])
                sweeps[k] = max(sweeps.get(k, 0), s["distinct"])
            else:
                rnd += s.get("distinct", 0)
            states[r["label"]] = s.get("states", 0)
            for k, v in s.get("events", {}).items():
                events[k] = events.get(k, 0) + v
            for x in s.get("samples", [])[:1]:
                if len(samples) < 8:
                    samples.append(f"[{r['label']}] {x}"[:900])
        return ev, rnd + sum(sweeps.values()), states, events, samples

    def finish(self, level, rule):
        ev, distinct, states, events, samples = self.totals()
        ev += self.extra.pop("add_evaluations", 0)
        distinct += self.extra.pop("add_distinct", 0)
        samples = self.extra.pop("samples", []) + samples
        cov = dict(evaluations=ev, distinct_nontrivial=distinct, rule=rule, samples=samples or ["(none)"],
                   events=events, states_seen=states,
                   runs=[dict(config=r["config"], label=r["label"], evaluations=(r["stats"] or {}).get("evaluations"),
                              complete=(r["stats"] or {}).get("complete"), wall_s=r["wall"]) for r in self.runs],
                   build_s=BUILD_TIMES, literals_used=self.nlits)
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        known = load_known(self.prop)
        new = []
        for d, p, o in self.violations:
            k = next((k for k in known if k["signature"] == signature(o, d)), None)
            if k:
                log(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            else:
                new.append((d, p))
        if not self.violations and ev == 0:
            raise HarnessError("nothing was observed")
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, f"{self.prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.replace(p + ".tmp", p)
        if new:
            for d, rp in new[:5]:
                log(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        log(f"OK property={self.prop} tier={self.tier} seed={self.seed} evaluations={ev} distinct={distinct} wall={e['wall_s']}s")
        return 0

def signature(obj, detail):
    r = obj.get("report") or {}
    return f"{obj.get('config')}|{obj.get('kind')}|{r.get('mode')}|{r.get('seed')}|{r.get('index')}|{detail}"

def load_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == prop and k.get("status") == "open"]
