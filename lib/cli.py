"""C15, C16 and the memory part of C18: the real `blake2` binary under a shim that disturbs its system calls.

Every case is a pure function of (property, seed, index). Its outcome is judged from the outside: exit status,
standard output, standard error and the shim's event log (what was really delivered or refused)."""
import fcntl, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
import multiprocessing as mp
from common import *

def build_bin32():
    """the tool as a 32-bit program; None where that cannot be built or run"""
    if lib32() is not None:
        return None
    tdir = os.path.join(BUILD, "t", "bin32")
    env = base_env()
    env["RUSTFLAGS"] = "-Awarnings " + f32()
    t0 = time.time()
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(REPO, "blake2_bin", "Cargo.toml"), "--target-dir", tdir, "-q", "--release", "--target", I686, "-Zbuild-std"],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=850)
    BUILD_TIMES["blake2 tool 32-bit"] = round(time.time() - t0, 1)
    p = os.path.join(tdir, I686, "release", "blake2")
    return p if r.returncode == 0 and os.path.exists(p) else None

def big32(ck, tool):
    """a 32-bit tool cannot map such files: it must say so or be right, and reading must work"""
    d = tempfile.mkdtemp(prefix="big.", dir=os.path.join(BUILD, "run"))
    try:
        jobs = []
        for n in ((1 << 32) + 4096 * 3 + 5, (1 << 31) + 77, 3 << 30):
            p = os.path.join(d, str(n))
            with open(p, "wb") as f:
                f.write(b"head")
                f.truncate(n)
            jobs.append((p, n, ["-b", "--mmap", p]))
        jobs.append((jobs[0][0], jobs[0][1], ["-b", jobs[0][0]]))
        small = os.path.join(d, "small")
        write(small, b"abc" * 33333)
        jobs.append((small, 99999, ["-b", "--mmap", small]))
        def want(p):
            h = hashlib.blake2b()
            with open(p, "rb") as f:
                while True:
                    x = f.read(1 << 20)
                    if not x: return h.hexdigest().encode() + b"\n"
                    h.update(x)
        with cf.ThreadPoolExecutor(8) as ex:
            ws = {p: ex.submit(want, p) for p, _, _ in jobs}
            rs = [(p, n, a, ex.submit(subprocess.run, [tool] + a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)) for p, n, a in jobs]
            for p, n, a, r in rs:
                r = r.result()
                right = r.returncode == 0 and r.stdout == ws[p].result()
                refused = r.returncode != 0 and not r.stdout and os.fsencode(p) in r.stderr and "--mmap" in a and n > 1 << 30
                if not right and not refused:
                    ck.violate(f"32-bit blake2 {' '.join(a)} on {n} bytes: status {r.returncode}, printed {r.stdout[:200]!r}; {r.stderr[:200]!r}", dict(kind="cli-big32", config="std", args=a))
        ck.runs.append(dict(config="blake2 tool 32-bit", label="32-bit tool, big inputs", args=[], rc=0, wall=0,
                            stats=dict(evaluations=len(jobs), distinct=len(jobs), states=0, events={}, samples=[], complete=True, mode="cli")))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def build_bin(profile="release"):
    tdir = os.path.join(BUILD, "t", "bin")
    env = base_env()
    env["RUSTFLAGS"] = "-Awarnings"
    env["CARGO_INCREMENTAL"] = "0"
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "blake2_bin", "Cargo.toml"), "--target-dir", tdir, "-q"]
    if profile == "release":
        cmd.append("--release")
    t0 = time.time()
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=850)
    if r.returncode:
        raise HarnessError("the blake2 tool does not build:\n" + r.stderr[-3000:])
    BUILD_TIMES["blake2 tool " + profile] = round(time.time() - t0, 1)
    return os.path.join(tdir, "debug" if profile == "dev" else profile, "blake2")

def build_shim():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "shim.so")
    tmp = out + f".{os.getpid()}"
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", tmp, os.path.join(VERIF, "lib", "shim.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise HarnessError("the shim does not build: " + r.stdout[-1000:])
    os.replace(tmp, out)
    return out

# ------------------------------------------------------------------ oracle for digests

class Model:
    """digests by the reference model (a child process), sequential ones by hashlib"""
    def __init__(self, exe):
        self.exe, self.p = exe, None
        self.memo = {}
    def digest(self, P, path, data):
        k = (json.dumps(P, sort_keys=True), data)
        if len(data) < 1000 and k in self.memo:
            return self.memo[k]
        if not P["par"] and P["depth"] >= 1:
            f = hashlib.blake2s if P["fam"] == "s" else hashlib.blake2b
            r = f(data, digest_size=P["length"], key=bytes.fromhex(P["key"]), salt=bytes.fromhex(P["salt"]), person=bytes.fromhex(P["personal"]),
                  fanout=P["fanout"], depth=P["depth"], leaf_size=P["leaf"], node_offset=P["offset"], node_depth=P["ndepth"],
                  inner_size=P["inner"], last_node=P["last"]).hexdigest()
        else:
            if self.p is None:
                self.p = subprocess.Popen([self.exe, "modeld"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            tmp = path + b".model"
            with open(tmp, "wb") as f:
                f.write(data)
            self.p.stdin.write(" ".join([P["fam"], "1" if P["par"] else "0", str(P["length"]), P["key"] or "-", P["salt"] or "-", P["personal"] or "-",
                               str(P["fanout"]), str(P["depth"]), str(P["leaf"]), str(P["offset"]), str(P["ndepth"]), str(P["inner"]), "1" if P["last"] else "0", tmp.hex()]) + "\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline().strip()
            os.unlink(tmp)
            if not r:
                raise HarnessError("the model process died")
        self.memo[k] = r
        return r

# ------------------------------------------------------------------ generating

def rnd_hex(r, n):
    h = r.randbytes(n).hex()
    return h.upper() if r.random() < .2 else h

def gen_params(r):
    """-> (flags, P) of a valid invocation"""
    fam, par = r.choice([("b", 0), ("b", 0), ("s", 0), ("s", 0), ("b", 1), ("s", 1)])
    OUT = 64 if fam == "b" else 32
    P = dict(fam=fam, par=bool(par), length=OUT, key="", salt="", personal="", fanout=1, depth=1, leaf=0, offset=0, ndepth=0, inner=0, last=False)
    fl = []
    if fam == "s" and par:
        fl += r.choice([["-sp"], ["-s", "-p"], ["-ps"]])
    elif fam == "s":
        fl += ["-s"]
    elif par:
        fl += r.choice([["-p"], ["-bp"], ["-b", "-p"]])
    else:
        fl += r.choice([[], [], ["-b"]])
    def opt(n, v):
        if isinstance(v, int) and r.random() < .1:
            v = r.choice(["0", "00", "000"]) + str(v)      # decimal all the same
        fl.append(r.choice([f"--{n}={v}", f"--{n}={v}", (f"--{n}", str(v))]))
    heavy = r.random()
    p = .08 if heavy < .5 else .6
    if r.random() < max(p, .3):
        P["length"] = r.choice([1, OUT, OUT - 1, OUT // 2, r.randint(1, OUT)])
        opt("length", P["length"])
    if r.random() < max(p, .2):
        P["key"] = rnd_hex(r, r.choice([1, OUT, OUT - 1, r.randint(0, OUT)]))
        opt("key", P["key"])
    if not par:
        S = OUT // 4
        W = lambda b: r.choice([0, 1, (1 << b) - 1, (1 << b) - 2, r.getrandbits(b), 1 << r.randrange(b)])
        for n, f, v in [("salt", "salt", rnd_hex(r, r.choice([S, 1, r.randint(0, S)]))), ("personal", "personal", rnd_hex(r, r.choice([S, 1, r.randint(0, S)]))),
                        ("fanout", "fanout", W(8)), ("max-depth", "depth", W(8)), ("max-leaf-length", "leaf", W(32)),
                        ("node-offset", "offset", W(64 if fam == "b" else 48)), ("node-depth", "ndepth", W(8)), ("inner-hash-length", "inner", r.choice([0, 1, OUT, r.randint(0, OUT)]))]:
            if r.random() < p:
                P[f] = v
                opt(n, v)
        if r.random() < p:
            P["last"] = True
            fl.append("--last-node")
    return fl, P

SIZES = [0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193,
         32767, 32768, 32769, 65535, 65536, 65537, 98304, 131072, 131073]
def gen_size(r, lits):
    k = r.randrange(10)
    if k < 5:
        return r.choice(SIZES)
    if k == 5 and lits:
        return min(max(0, r.choice(lits) + r.randint(-1, 1)), 200_000)
    if k == 6:
        return r.randrange(300_000)
    return r.randrange(5000)

def gen_name(r, i, plain):
    if plain or r.random() < .6:
        return b"in%d" % i
    return r.choice([b"in %d with  spaces", b"in-\xc3\xa9\xe2\x82\xac-%d", b"in%d\ttab", b"in%d'q\"$(x)*?", b"in\xff\xfe%d", b"in%d\\n", b"-in%d", b"in%d=", b"0x%d", b"in%d.b2", b" in%d ", b"in%d\nline", b"in%d%%s%%n", b"./in%d", b"in%d: ", b"x" * 240 + b"%d"]) % i

def flatten(r, fl, mmap):
    fl = list(fl) + (["--mmap"] if mmap else [])
    r.shuffle(fl)
    out = []
    for f in fl:
        out += list(f) if isinstance(f, tuple) else [f]
    return [os.fsencode(x) for x in out]

def rand_plan(r):
    """disturbances that must not change anything: short transfers, interruptions"""
    k = r.randrange(10)
    s = r.getrandbits(30)
    w = ";write * 0 99999 R%d" % (s // 7 + 1) if r.random() < .4 else ""
    if k < 2:
        return None
    if k < 6:
        return "read * 0 999999 R%d" % s + w
    if k == 6:
        return "read * 0 0 E4;read * 2 2 E4;read * 3 9 E4" + w
    if k == 7:
        return "read * 0 999999 S%d" % r.choice([1, 7, 63, 64, 127, 128, 4096, 8191, 32767]) + w
    if k == 8:
        return "read * 1 1 S1;read * 3 999999 R%d" % s + w
    return "read * %d %d E4" % (r.randrange(3), r.randrange(40)) + w

# ------------------------------------------------------------------ running the tool

def setsig():
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)

class Env:
    """per worker"""
    def __init__(self, tool, shim, harness, lits):
        self.tool, self.shim = tool, shim
        self.model = Model(harness)
        self.lits = lits
        self.dir = tempfile.mkdtemp(prefix="cli.", dir=os.path.join(BUILD, "run"))
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.model.p:
            self.model.p.kill()
            self.model.p.wait()

def run_tool(E, args, cwd, plan=None, stdin=None, stdout=subprocess.PIPE, feeder=None, timeout=120, nofile=None):
    """-> (exit status, stdout, stderr, events)"""
    log_ = os.path.join(os.fsencode(E.dir), b"log")
    if os.path.exists(log_):
        os.unlink(log_)
    env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "RUST_BACKTRACE": "0"}
    if plan is not None:
        env.update(LD_PRELOAD=E.shim, SHIM_DIR=os.fsdecode(cwd), SHIM_LOG=os.fsdecode(log_), SHIM_PLAN=plan)
    p = subprocess.Popen([os.fsencode(E.tool)] + args, cwd=cwd, env=env, stdin=stdin if stdin is not None else subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE)
    if nofile:
        resource.prlimit(p.pid, resource.RLIMIT_NOFILE, (nofile, nofile))
    th = None
    if feeder:
        th = threading.Thread(target=feeder, args=(p,), daemon=True)
        th.start()
    got = {}
    def rd(k, f):
        got[k] = f.read()
    ts = [threading.Thread(target=rd, args=(k, f), daemon=True) for k, f in (("e", p.stderr), ("o", p.stdout)) if f]
    if plan is None and not feeder and len(ts) == 2:
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o, e, []
        except subprocess.TimeoutExpired:
            p.kill()
            return None, b"", b"", []
    for t in ts:
        t.start()
    try:
        p.wait(timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = None
    for t in ts:
        t.join(20)
    if th:
        th.join(20)
    for f in (p.stdin, p.stdout, p.stderr):
        try:
            f and f.close()
        except OSError:
            pass
    ev = []
    if plan is not None and os.path.exists(log_):
        for l in open(log_, "rb").read().split(b"\n"):
            f = l.split(b" ", 5)
            if len(f) == 6:
                ev.append((f[0].decode(), int(f[1]), int(f[2]), int(f[3]), f[4].decode(), f[5]))
    return rc, got.get("o", b""), got.get("e", b""), ev

class Result(dict):
    pass

def show(args, ins):
    return "blake2 " + " ".join(repr(os.fsdecode(a)) if re.search(rb"[^\w=/.-]", a) else os.fsdecode(a) for a in args) + "; " + ins

def line(P, E, path, data, label):
    h = E.model.digest(P, path, data).encode()
    return h + (b"  " + label if label is not None else b"") + b"\n"

def labels(name):
    """how a path may be printed"""
    return {name, name.decode("utf8", "replace").encode()}

def write(path, data):
    with open(path, "wb") as f:
        f.write(data)

HEX = re.compile(rb"[0-9a-fA-F]{16,}")

def c15_case(E, r, i):
    work = os.path.join(os.fsencode(E.dir), b"d")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    fl, P = gen_params(r)
    st = Result(kind=None, ev={}, distinct=None)
    k = r.random()
    plan = rand_plan(r)
    data = r.randbytes(gen_size(r, E.lits))
    if k < .35:
        # standard input in some form
        how = r.choice(["file", "file at an offset", "pipe", "pipe in pieces", "socket", "empty"])
        args = flatten(r, fl, False)
        feeder, stdin, off = None, None, 0
        f = None
        pieces = []
        if how.startswith("file"):
            write(work + b"/stdin", data)
            f = open(work + b"/stdin", "rb", buffering=0)
            if how != "file":
                off = r.randint(0, len(data))
                f.seek(off)
            stdin = f
        elif how == "empty":
            data = b""
        else:
            s = max(1, len(data) // r.choice([1, 2, 5, 20]))
            at = 0
            while at < len(data):
                n = min(len(data) - at, r.choice([s, 1, s + 1, r.randint(1, s + 1)]))
                pieces.append(data[at:at + n])
                at += n
            pieces = pieces[:40] + ([b"".join(pieces[40:])] if len(pieces) > 40 else [])
            pause = r.choice([0, 0, .0002, .001]) if how == "pipe in pieces" or how == "socket" else 0
            if how == "socket":
                import socket
                a, b = socket.socketpair()
                stdin = b
                def feeder(p):
                    b.close()
                    try:
                        for x in pieces:
                            a.sendall(x)
                            if pause: time.sleep(pause)
                    except OSError:
                        pass
                    a.close()
            else:
                stdin = subprocess.PIPE
                def feeder(p):
                    try:
                        for x in pieces:
                            p.stdin.write(x)
                            p.stdin.flush()
                            if pause: time.sleep(pause)
                        p.stdin.close()
                    except OSError:
                        pass
        rc, o, e, ev = run_tool(E, args, work, plan, stdin, feeder=feeder)
        if f: f.close()
        what = show(args, f"{len(data)} bytes on standard input ({how}, offset {off}, {len(pieces)} pieces), disturbances {plan}")
        want = [line(P, E, work + b"/m", data[off:], None)]
        alts = [want]
        sizes = [len(data)]
    elif k < .42:
        # inputs whose length no metadata tells: a fifo, a /proc file
        args = flatten(r, fl, False)
        if r.random() < .3:
            name = b"/proc/version"
            data = open(name, "rb").read()
            feeder = None
        else:
            name = b"fifo"
            os.mkfifo(work + b"/fifo")
            def feeder(p):
                try:
                    with open(work + b"/fifo", "wb") as f:
                        f.write(data)
                except OSError:
                    pass
        full = name if name[:1] == b"/" else work + b"/" + name
        rc, o, e, ev = run_tool(E, args + [full], work, plan, feeder=feeder, timeout=60)
        if feeder:
            try:
                fd = os.open(full, os.O_RDONLY | os.O_NONBLOCK)   # releases a feeder nobody read from
                time.sleep(.01)
                os.close(fd)
            except OSError:
                pass
        what = show(args + [full], f"{len(data)} bytes, disturbances {plan}")
        alts = [[line(P, E, work + b"/m", data, None)]]
        how, sizes = "fifo" if feeder else "proc", [len(data)]
    else:
        mmap = r.random() < .4
        how = "mmap" if mmap else "files"
        n = r.choice([1, 1, 1, 2, 3, 5, r.randint(1, 12)])
        names, datas = [], []
        for j in range(n):
            d = data if j == 0 else r.randbytes(gen_size(r, E.lits) % 40_000)
            if mmap and not d:
                d = b"x"
            if j and r.random() < .1:
                names.append(names[0]); datas.append(datas[0])
                continue
            nm = gen_name(r, j, False)
            if r.random() < .06 and not {b"-", b"stdin"} & set(names):
                nm = r.choice([b"-", b"stdin"])
            write(work + b"/" + nm, d)
            names.append(nm); datas.append(d)
        absolute = r.random() < .5 or plan is not None
        paths = [(work + b"/" + x) if absolute else (b"./" + x if x[:1] == b"-" and len(x) > 1 else x) for x in names]
        fa = flatten(r, fl, mmap)
        mix = r.random()
        args = fa + paths if mix < .6 else fa + [b"--"] + paths if mix < .8 else paths + fa
        rc, o, e, ev = run_tool(E, args, work, plan)
        what = show(args, f"sizes {[len(d) for d in datas]}, disturbances {plan}")
        # (a name that is not UTF-8 may be printed raw or with replacement characters)
        alts = [[line(P, E, work + b"/m", d, None if n == 1 else f(p)) for p, d in zip(paths, datas)] for f in (lambda p: p, lambda p: p.decode("utf8", "replace").encode())]
        sizes = [len(d) for d in datas]
    st["distinct"] = hash((how, tuple(sizes), json.dumps(P, sort_keys=True), plan)) & ((1 << 62) - 1)
    count(st, ev)
    st["ev"][how] = 1
    st["ev"]["digest lines compared"] = len(alts[0])
    st["what"] = what
    if rc is None:
        st["bad"] = f"the tool does not end: {what}"
    elif o not in [b"".join(a) for a in alts]:
        st["bad"] = f"{what}: printed {o[:600]!r} (status {rc}, {e[:200]!r}), expected {b''.join(alts[0])[:600]!r}"
    elif rc != 0:
        st["bad"] = f"{what}: exit status {rc} although every digest was printed"
    return st

def count(st, ev):
    for op, k, want, got, act, t in ev:
        n = f"{op} {act}"
        st["ev"][n] = st["ev"].get(n, 0) + 1

BAD = [  # (flags, which functions it is bad for: b s bp sp)
    ("--length=0", "b s bp sp"), ("--length=65", "b bp s sp"), ("--length=33", "s sp"), ("--length=-1", "b s bp sp"), ("--length=x", "b s bp sp"), ("--length=", "b s bp sp"),
    ("--length=256", "b s bp sp"), ("--length=320", "b s bp sp"), ("--length=4294967328", "b s bp sp"), ("--length=18446744073709551616", "b s bp sp"), ("--length=1.5", "b s bp sp"),
    ("--length=64x", "b bp"), ("--length=18446744073709551615", "b s bp sp"), ("--length=257", "b s bp sp"), ("--length=100", "b s bp sp"),
    ("--key=0", "b s bp sp"), ("--key=zz", "b s bp sp"), ("--key=0g", "b s bp sp"), ("--key=abc", "b s bp sp"), ("--key=" + "00" * 65, "b s bp sp"), ("--key=" + "11" * 33, "s sp"), ("--key=0x11", "b s bp sp"),
    ("--key=" + "00" * 256, "b s bp sp"), ("--key=" + "00" * 257, "b s bp sp"), ("--key=11 22", "b s bp sp"), ("--key=11\n", "b s bp sp"), ("--key= 11", "b s bp sp"),
    ("--salt=" + "00" * 17, "b s bp sp"), ("--salt=" + "00" * 9, "s sp"), ("--salt=1", "b s bp sp"), ("--salt=xy", "b s bp sp"), ("--salt=00", "bp sp"), ("--salt=", "bp sp"),
    ("--personal=" + "00" * 17, "b s bp sp"), ("--personal=" + "00" * 9, "s sp"), ("--personal=1", "b s bp sp"), ("--personal=xy", "b s bp sp"), ("--personal=00", "bp sp"), ("--personal=", "bp sp"),
    ("--salt=" + "aa" * 32, "b s bp sp"), ("--personal=" + "aa" * 32, "b s bp sp"),
    ("--fanout=256", "b s bp sp"), ("--fanout=-1", "b s bp sp"), ("--fanout=x", "b s bp sp"), ("--fanout=1", "bp sp"), ("--fanout=4", "bp"), ("--fanout=8", "sp"), ("--fanout=0", "bp sp"),
    ("--max-depth=256", "b s bp sp"), ("--max-depth=x", "b s bp sp"), ("--max-depth=1", "bp sp"), ("--max-depth=2", "bp sp"), ("--max-depth=-1", "b s bp sp"),
    ("--max-leaf-length=4294967296", "b s bp sp"), ("--max-leaf-length=x", "b s bp sp"), ("--max-leaf-length=0", "bp sp"), ("--max-leaf-length=-1", "b s bp sp"),
    ("--node-offset=18446744073709551616", "b s bp sp"), ("--node-offset=281474976710656", "s sp"), ("--node-offset=18446744073709551615", "s sp"), ("--node-offset=281474976710657", "s sp"),
    ("--node-offset=0", "bp sp"), ("--node-offset=1", "bp sp"), ("--node-offset=-1", "b s bp sp"), ("--node-offset=281474976710656000", "s sp"),
    ("--node-depth=256", "b s bp sp"), ("--node-depth=0", "bp sp"), ("--node-depth=x", "b s bp sp"), ("--node-depth=-1", "b s bp sp"),
    ("--inner-hash-length=65", "b s bp sp"), ("--inner-hash-length=33", "s sp"), ("--inner-hash-length=0", "bp sp"), ("--inner-hash-length=-1", "b s bp sp"), ("--inner-hash-length=256", "b s bp sp"),
    ("--inner-hash-length=64", "bp sp"), ("--inner-hash-length=257", "b s bp sp"), ("--last-node", "bp sp"), ("-bs", "b s bp sp"), ("--nope", "b s bp sp"), ("-x", "b s bp sp"),
    ("--length", "b s bp sp"), ("-q", "b s bp sp"), ("--lengthh=3", "b s bp sp"), ("--key", "b s bp sp"),
]
ERRNO = dict(EIO=5, ENOMEM=12, EACCES=13, ENODEV=19, EISDIR=21, EINVAL=22, EMFILE=24, ENFILE=23, EPERM=1, EBADF=9, ENXIO=6, ESTALE=116, EOVERFLOW=75, ELOOP=40, ETIMEDOUT=110, ENETDOWN=100,
             EAGAIN=11, ENOENT=2, ENOTDIR=20, EBUSY=16, EFBIG=27, ENOSPC=28, ESPIPE=29, EPIPE=32, ENODATA=61, EPROTO=71, ECONNRESET=104, EUCLEAN=117, EREMOTEIO=121, EDQUOT=122, ECANCELED=125)

def c16_case(E, r, i):
    work = os.path.join(os.fsencode(E.dir), b"d")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    st = Result(kind=None, ev={}, distinct=None)
    k = r.random()
    if k < .3:
        return c16_flags(E, r, i, st, work)
    if k < .42:
        return c16_output(E, r, i, st, work)
    if k < .52:
        return c16_stdin(E, r, i, st, work)
    # several inputs, some of which fail
    fl, P = gen_params(r)
    mmap = r.random() < .35
    n = r.choice([1, 1, 2, 3, 4, r.randint(2, 9)])
    names, datas, kinds, rules = [], [], [], []
    for j in range(n):
        nm = b"in%d" % j
        d = r.randbytes(gen_size(r, E.lits) % 150_000)
        kd = "good"
        if r.random() < (.5 if n < 3 else .35):
            kd = r.choice(["missing", "directory", "dangling", "loop", "notdir", "toolong", "open", "read", "read", "read", "read", "stat", "mmap", "emptyname"] + (["mmap"] * 4 + ["empty"] * 2 if mmap else []))
        if kd == "directory":
            os.mkdir(work + b"/" + nm)
        elif kd == "dangling":
            os.symlink(b"nowhere", work + b"/" + nm)
        elif kd == "loop":
            os.symlink(nm, work + b"/" + nm)
        elif kd == "notdir":
            write(work + b"/f%d" % j, b"x")
            nm = b"f%d/" % j + nm
        elif kd == "toolong":
            nm = nm + b"y" * 300
        elif kd == "missing" or kd == "emptyname":
            if kd == "missing" and r.random() < .1 and not {b"-", b"stdin"} & set(names):
                nm = r.choice([b"-", b"stdin"])
        else:
            if kd == "empty":
                d = b""
            elif mmap and not d:
                d = b"z"
            write(work + b"/" + nm, d)
            er = r.choice(list(ERRNO.values()))
            if kd == "open":
                rules.append("open %s 0 9999 E%d" % (nm.decode(), er))
            elif kd == "read":
                at = r.choice([0, 0, 1, 2, r.randrange(8)])
                rules.append("read %s %d %d E%d" % (nm.decode(), at, r.choice([at, 999999]), er))
                if r.random() < .5:
                    rules.append("read %s 0 999999 %s" % (nm.decode(), r.choice(["S1000", "S4096", "R77", "S20000"])))
            elif kd == "stat":
                rules.append("stat %s 0 9999 E%d" % (nm.decode(), er))
            elif kd == "mmap":
                rules.append("mmap %s 0 9999 E%d" % (nm.decode(), er))
        names.append(nm); datas.append(d); kinds.append(kd)
    if r.random() < .3:
        rules.append("read * 0 999999 R%d" % r.getrandbits(20))
    plan = ";".join(rules)
    paths = [b"" if kd == "emptyname" else nm if nm in (b"-", b"stdin") else work + b"/" + nm for kd, nm in zip(kinds, names)]
    args = flatten(r, fl, mmap) + paths
    rc, o, e, ev = run_tool(E, args, work, plan)
    what = show(args, f"inputs {kinds} of sizes {[len(d) for d in datas]}, plan {plan!r}")
    st["what"] = what
    st["distinct"] = hash((mmap, tuple(kinds), tuple(map(len, datas)), json.dumps(P, sort_keys=True), plan)) & ((1 << 62) - 1)
    count(st, ev)
    for kd in kinds:
        st["ev"]["input " + kd] = st["ev"].get("input " + kd, 0) + 1
    if rc is None:
        st["bad"] = f"the tool does not end: {what}"
        return st
    # what the shim really did to each input decides what must have happened
    hit = {}
    for op, kk, want, got, act, t in ev:
        if act == "fault" and got != -4:
            hit.setdefault(t, set()).add(op)
    lines = o.split(b"\n")
    if lines[-1] != b"":
        st["bad"] = f"{what}: output ends in the middle of a line: {o[-200:]!r}"
        return st
    lines = lines[:-1]
    pos = 0
    failures = 0
    for j in range(n):
        h = hit.get(names[j], set())
        real = kinds[j] in ("missing", "directory", "dangling", "loop", "notdir", "toolong", "emptyname")
        must_fail = real or "open" in h or "read" in h or (mmap and "mmap" in h)
        may_fail = must_fail or "stat" in h or "mmap" in h or (mmap and kinds[j] == "empty")
        good = line(P, E, work + b"/m", datas[j], paths[j] if n > 1 else None)[:-1]
        printed = pos < len(lines) and lines[pos] == good and not must_fail
        if printed:
            pos += 1
            continue
        if not may_fail:
            st["bad"] = f"{what}: input {j} ({kinds[j]}) is readable but its digest is not the next line; status {rc}, stdout {o[:500]!r}, stderr {e[:300]!r}"
            return st
        failures += 1
        if paths[j] and paths[j] not in e:
            st["bad"] = f"{what}: input {j} ({kinds[j]}) failed and is not named on standard error: {e[:500]!r}"
            return st
    if pos != len(lines):
        st["bad"] = f"{what}: unexpected output line {lines[pos][:200]!r} (status {rc}, stderr {e[:300]!r})"
    elif failures and rc == 0:
        st["bad"] = f"{what}: {failures} input(s) failed but the exit status is 0; stderr {e[:300]!r}"
    elif not failures and rc != 0:
        st["bad"] = f"{what}: every digest was printed but the exit status is {rc}; stderr {e[:300]!r}"
    st["ev"]["failed inputs reported"] = failures
    return st

def gen_bad(r):
    """an option value close to a valid one, which the documented grammar does not allow -> (option, function)"""
    fn = r.choice(["b", "b", "s", "s", "bp", "sp"])
    out = 64 if fn[0] == "b" else 32
    while True:
        opt = r.choice(["key", "length"] if len(fn) == 2 else ["key", "salt", "personal", "length", "fanout", "max-depth", "max-leaf-length", "node-offset", "node-depth", "inner-hash-length"])
        if opt in ("key", "salt", "personal"):
            lim = out if opt == "key" else out // 4
            v = rnd_hex(r, r.choice([0, 1, lim - 1, lim, lim, r.randint(0, lim)]))
        else:
            lo, hi = {"length": (1, out), "fanout": (0, 255), "max-depth": (0, 255), "max-leaf-length": (0, 2**32 - 1), "node-offset": (0, 2**(64 if fn == "b" else 48) - 1), "node-depth": (0, 255), "inner-hash-length": (0, out)}[opt]
            v = str(r.choice([lo, hi, hi + 1, r.randint(lo, hi), hi + r.randint(1, 300), r.randint(lo, hi) + (1 << r.choice([8, 16, 32, 48, 64, 128])), -r.randint(1, 300)]))
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            k = r.randrange(5)
            at = r.randint(0, len(v))
            if k == 0:
                v = r.choice(["0x", "0X", "#", "\\x", "$", "x", " ", "\t", "0b", "0o", "+", "-", "--", "h'", "\ufeff"]) + v
            elif k == 1:
                v += r.choice(["h", "\n", " ", "\r\n", "u8", "k", "K", "M", "b", "%", ".", ".0", "e0", "e1", "0", "_", ";", ","])
            elif k == 2:
                v = v[:at] + r.choice(" \t\n_:-,.gGhxXzZ'\u00e9\uff11\u0661") + v[at:]
            elif k == 3 and v:
                at = r.randrange(len(v))
                v = v[:at] + r.choice("gGzZ/:@`oOlI -+") + v[at + 1:]
            elif k == 4 and len(v) > 1:
                v = v[:-1]
        if v == "":
            continue
        if opt in ("key", "salt", "personal"):
            ok = re.fullmatch(r"(?:[0-9a-fA-F]{2})*", v, re.A) and len(v) <= 2 * lim
        else:
            ok = re.fullmatch(r"\+?[0-9]+", v, re.A) and lo <= int(v) <= hi
        if not ok:
            return f"--{opt}={v}", fn

def c16_flags(E, r, i, st, work):
    if r.random() < .5:
        f, fn = gen_bad(r)
        st["ev"]["malformed values"] = 1
    else:
        f, where = BAD[i % len(BAD)] if r.random() < .7 else r.choice(BAD)
        fn = r.choice(where.split())
    args = {"b": [], "s": ["-s"], "bp": ["-p"], "sp": ["-sp"]}[fn]
    # valid flags around it
    extra = []
    if r.random() < .4:
        extra += ["--length=%d" % r.randint(1, 32)] if not f.startswith("--length") else ["--key=0011"]
    use_stdin = r.random() < .4
    if not use_stdin and r.random() < .4:
        extra.append("--mmap")
    if f in ("--length", "--key"):
        allf = args + extra + [f]     # a value is missing at the end
        files = []
        use_stdin = True
    else:
        allf = args + extra + [f]
        r.shuffle(allf)
    files = []
    if not use_stdin and not (f in ("--length", "--key")):
        for j in range(r.choice([1, 1, 3])):
            write(work + b"/in%d" % j, r.randbytes(r.randrange(1, 3000)))
            files.append(work + b"/in%d" % j)
    if f == "-bs" and "-s" in allf:
        allf.remove("-s")
    if f.startswith("--mmap=") and "--mmap" in allf:
        allf.remove("--mmap")
    args = [os.fsencode(x) for x in allf] + files
    write(work + b"/stdin", b"abc")
    with open(work + b"/stdin", "rb") as si:
        rc, o, e, ev = run_tool(E, args, work, None, stdin=si)
    what = show(args, f"{len(files)} files ({fn})")
    st["what"] = what
    st["distinct"] = hash((tuple(allf), len(files))) & ((1 << 62) - 1)
    st["ev"]["invalid invocations"] = 1
    if rc is None:
        st["bad"] = f"the tool does not end: {what}"
    elif rc == 0:
        st["bad"] = f"{what}: invalid, but the exit status is 0; stdout {o[:300]!r}"
    elif HEX.search(o) or re.search(rb"^[0-9a-f]{2,}(  |$)", o, re.M):
        st["bad"] = f"{what}: invalid, but a digest is printed: {o[:300]!r}"
    elif not e:
        st["bad"] = f"{what}: invalid, but nothing is reported on standard error"
    return st

def c16_output(E, r, i, st, work):
    """the result cannot be written, or only with interruptions"""
    fl, P = gen_params(r)
    n = r.choice([0, 0, 1, 2, 4])
    paths, datas = [], []
    for j in range(n):
        d = r.randbytes(r.randrange(1, 5000))
        write(work + b"/in%d" % j, d)
        paths.append(work + b"/in%d" % j); datas.append(d)
    mode = r.choice(["full", "closed", "error", "error", "flaky"])
    args = flatten(r, fl, n > 0 and r.random() < .3) + paths
    want = b"".join(line(P, E, work + b"/m", d, p if n > 1 else None) for p, d in zip(paths, datas))
    si = None
    if n == 0:
        d = r.randbytes(r.randrange(0, 5000))
        write(work + b"/stdin", d)
        si = open(work + b"/stdin", "rb")
        want = line(P, E, work + b"/m", d, None)
    plan, stdout = None, subprocess.PIPE
    if mode == "full":
        stdout = open("/dev/full", "wb")
    elif mode == "closed":
        a, b = os.pipe()
        os.close(a)
        stdout = os.fdopen(b, "wb")
    elif mode == "error":
        at = r.randrange(4)
        plan = "write stdout %d %d E%d" % (at, r.choice([at, 9999]), r.choice([28, 5, 122, 27, 32]))
        if r.random() < .4:
            plan += ";write stdout 0 9999 S%d" % r.choice([1, 10, 40])
    else:
        plan = "write stdout 0 9999 R%d" % r.getrandbits(20)
    rc, o, e, ev = run_tool(E, args, work, plan, stdin=si, stdout=stdout)
    if si:
        si.close()
    if stdout is not subprocess.PIPE:
        try:
            stdout.close()
        except OSError:
            pass
    what = show(args, f"standard output {mode} {plan}")
    st["what"] = what
    if n == 0:
        st["ev"]["one digest of standard input, standard output " + mode] = 1
    st["distinct"] = hash((mode, plan, n, json.dumps(P, sort_keys=True))) & ((1 << 62) - 1)
    count(st, ev)
    st["ev"]["standard output " + mode] = 1
    failed = mode in ("full", "closed") or any(op == "write" and act == "fault" for op, k, w, g, act, t in ev)
    if rc is None:
        st["bad"] = f"the tool does not end: {what}"
    elif failed and rc == 0:
        st["bad"] = f"{what}: the result could not be written but the exit status is 0"
    elif not failed and (rc != 0 or o != want):
        st["bad"] = f"{what}: status {rc}, printed {o[:400]!r}, expected {want[:400]!r}"
    elif failed and mode == "error" and not want.startswith(o) and not all(x in want.split(b"\n") for x in o.split(b"\n")[:-1]):
        st["bad"] = f"{what}: printed {o[:400]!r}, which is not part of {want[:400]!r}"
    return st

def c16_stdin(E, r, i, st, work):
    fl, P = gen_params(r)
    how = r.choice(["mmap", "error", "error", "error", "directory", "eof"])
    args = flatten(r, fl, how == "mmap")
    d = r.randbytes(gen_size(r, E.lits))
    write(work + b"/stdin", d)
    plan = ""
    if how == "error":
        at = r.choice([0, 0, 1, 2, r.randrange(6)])
        plan = "read stdin %d %d E%d" % (at, r.choice([at, 99999]), r.choice([5, 21, 22, 12, 104, 9, 11, 11, 61, 116, 121, 71, 125]))
        if plan.endswith("E9"):
            plan = plan[:-1] + "5"    # (the standard library treats a closed standard input as empty)
        if r.random() < .5:
            plan += ";read stdin 0 999999 " + r.choice(["S999", "R5", "S20000"])
    elif how == "eof":
        at = r.randrange(5)
        plan = "read stdin %d 999999 Z;read stdin 0 99999 %s" % (at, r.choice(["S999", "R%d" % r.getrandbits(16), "S20000", "F0"]))
    si = os.open(work if how == "directory" else work + b"/stdin", os.O_RDONLY)
    rc, o, e, ev = run_tool(E, args, work, plan, stdin=si)
    os.close(si)
    what = show(args, f"standard input: {how}, {len(d)} bytes, plan {plan!r}")
    st["what"] = what
    st["distinct"] = hash((how, plan, len(d), json.dumps(P, sort_keys=True))) & ((1 << 62) - 1)
    count(st, ev)
    st["ev"]["standard input " + how] = 1
    fault = any(op == "read" and act == "fault" and got != -4 and t == b"stdin" for op, k, w, got, act, t in ev)
    if rc is None:
        st["bad"] = f"the tool does not end: {what}"
    elif how in ("mmap", "directory") or fault:
        if rc == 0 or o:
            st["bad"] = f"{what}: must fail; status {rc}, stdout {o[:200]!r}"
        elif not e:
            st["bad"] = f"{what}: nothing on standard error"
    else:
        got = sum(g for op, k, w, g, act, t in ev if op == "read" and t == b"stdin" and g > 0)
        want = line(P, E, work + b"/m", d[:got], None)
        if o != want or rc != 0:
            st["bad"] = f"{what}: {got} bytes were read; status {rc}, printed {o[:300]!r}, expected {want!r}"
    return st

# ------------------------------------------------------------------ driving

def worker(fn, tool, shim, harness, lits, seed, prop, idx, secs, q):
    try:
        E = Env(tool, shim, harness, lits)
        t0 = time.time()
        n, ev, distinct, samples = 0, {}, set(), []
        bad = None
        for i in idx:
            if time.time() - t0 > secs:
                break
            r = random.Random(f"{prop}/{seed}/{i}")
            st = fn(E, r, i)
            n += 1
            distinct.add(st["distinct"])
            for k, v in st["ev"].items():
                ev[k] = ev.get(k, 0) + v
            if len(samples) < 1 and n == 5:
                samples.append(f"case {i}: {st['what']}"[:700])
            if st.get("bad"):
                bad = (i, st["bad"])
                break
        E.close()
        q.put(("ok", n, ev, list(distinct), samples, bad))
    except HarnessError as e:
        q.put(("err", str(e)))
    except Exception:
        import traceback
        q.put(("err", traceback.format_exc()))

FNS = dict(C15=c15_case, C16=c16_case)

def campaign(ck, prop, tool, shim, harness, cases, secs, label):
    lits = [int(x) for x in open(ck.lits).read().split() if int(x) < 1 << 20]
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    q = mp.Queue()
    W = NCPU
    t0 = time.time()
    ps = [mp.Process(target=worker, args=(FNS[prop], tool, shim, harness, lits, ck.seed, prop, range(w, cases, W), secs, q)) for w in range(W)]
    for p in ps:
        p.start()
    n, ev, distinct, samples, bads, errs = 0, {}, set(), [], [], []
    for _ in ps:
        m = q.get()
        if m[0] == "err":
            errs.append(m[1])
            continue
        n += m[1]
        for k, v in m[2].items():
            ev[k] = ev.get(k, 0) + v
        distinct |= set(m[3])
        samples += m[4]
        if m[5]:
            bads.append(m[5])
    for p in ps:
        p.join()
    if errs:
        raise HarnessError(f"{label}: {errs[0]}")
    ck.runs.append(dict(config="blake2 tool", label=label, args=[], rc=0, wall=round(time.time() - t0, 2),
                        stats=dict(evaluations=n, distinct=len(distinct), states=0, events=ev, samples=samples[:2], complete=n == cases, mode="cli")))
    for i, b in sorted(bads)[:1]:
        ck.violate(f"{label}: case {i}: {b}", dict(kind="cli", config="std", cli=prop, index=i))
    return ev

def big_inputs(ck, tool, shim, harness, thorough):
    """regular files beyond 2^32 bytes (sparse, apart from marks), read and mapped"""
    d = tempfile.mkdtemp(prefix="big.", dir=os.path.join(BUILD, "run"))
    try:
        p = os.path.join(d, "big")
        n = (1 << 32) + 70001
        with open(p, "wb") as f:
            f.truncate(n)
            for at in (0, (1 << 31) - 3, (1 << 32) - 5, n - 9):
                f.seek(at)
                f.write(b"mark at %d" % (at % 97))
            f.truncate(n)
        hs = {"b": hashlib.blake2b(), "s": hashlib.blake2s()}
        def feed(h):
            with open(p, "rb") as f:
                while True:
                    x = f.read(1 << 20)
                    if not x: break
                    h.update(x)
        ts = [threading.Thread(target=feed, args=(h,)) for h in hs.values()]
        jobs = [("b", ["-b", p], None), ("b", ["-b", "--mmap", p], None), ("b", ["-b"], p), ("s", ["-s", "--mmap", p], None), ("s", ["-s", p], None)]
        res = []
        def run(fam, args, si):
            f = open(si, "rb") if si else subprocess.DEVNULL
            r = subprocess.run([tool] + args, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
            res.append((fam, args, r.returncode, r.stdout, r.stderr))
        ts += [threading.Thread(target=run, args=j) for j in jobs]
        for t in ts: t.start()
        for t in ts: t.join()
        if len(res) != len(jobs):
            raise HarnessError("a run over the 4 GiB input did not end")
        for fam, args, rc, o, e in res:
            if rc != 0 or o != hs[fam].hexdigest().encode() + b"\n":
                ck.violate(f"blake2 {' '.join(args)} on {n} bytes: status {rc}, printed {o[:200]!r}, expected {hs[fam].hexdigest()}; {e[:200]!r}", dict(kind="cli-big", config="std", args=args))
        ck.runs.append(dict(config="blake2 tool", label="inputs beyond 2^32 bytes", args=[], rc=0, wall=0,
                            stats=dict(evaluations=len(jobs), distinct=len(jobs), states=0, events={"digests of inputs beyond 2^32 bytes": len(jobs)}, samples=[], complete=True, mode="cli")))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def many_files(ck, tool, shim, harness):
    """hundreds of inputs under a small descriptor limit"""
    lits = []
    E = Env(tool, shim, harness, lits)
    try:
        d = os.path.join(os.fsencode(E.dir), b"d")
        os.makedirs(d)
        P = dict(fam="b", par=False, length=64, key="", salt="", personal="", fanout=1, depth=1, leaf=0, offset=0, ndepth=0, inner=0, last=False)
        names = []
        want = b""
        for i in range(400):
            data = b"%d" % i * (i % 50 + 1)
            nm = d + b"/%d" % i
            write(nm, data)
            names.append(nm)
            want += line(P, E, d + b"/m", data, nm)
        for fl in ([], [b"--mmap"]):
            p = subprocess.Popen(["/bin/sh", "-c", 'ulimit -n 40; exec "$0" "$@"', E.tool] + fl + names, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            o, e = p.communicate(timeout=120)
            if o != want or p.returncode:
                ck.violate(f"400 inputs with at most 40 descriptors, {fl}: status {p.returncode}, {e[:300]!r}", dict(kind="cli-many", config="std", args=[x.decode() for x in fl]))
        ck.runs.append(dict(config="blake2 tool", label="many inputs", args=[], rc=0, wall=0,
                            stats=dict(evaluations=2, distinct=2, states=0, events={"digest lines compared": 800}, samples=[], complete=True, mode="cli")))
    finally:
        E.close()

def many_failures(ck, tool, shim, harness):
    """the exit status when very many inputs fail"""
    E = Env(tool, shim, harness, [])
    try:
        d = os.path.join(os.fsencode(E.dir), b"d")
        os.makedirs(d)
        P = dict(fam="b", par=False, length=64, key="", salt="", personal="", fanout=1, depth=1, leaf=0, offset=0, ndepth=0, inner=0, last=False)
        write(d + b"/good", b"good")
        good = line(P, E, d + b"/m", b"good", d + b"/good")
        jobs = []
        for n in (1, 2, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 768, 1024, 4096):
            for k in (0, 1, n // 2, n) if n < 1024 else (0,):       # how many of them before the good one
                for fl in ([], [b"--mmap"]):
                    bad = [d + b"/missing%d" % i for i in range(n)]
                    jobs.append((n, fl, bad, fl + bad[:k] + [d + b"/good"] + bad[k:], good))
            jobs.append((n, [], bad, bad, b""))
        def one(j):
            p = subprocess.run([E.tool] + j[3], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            return p
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        for (n, fl, bad, args, want), p in zip(jobs, res):
            msg = None
            if p.stdout != want:
                msg = f"printed {p.stdout[:200]!r}, expected {want[:200]!r}"
            elif p.returncode == 0:
                msg = "the exit status is 0"
            else:
                told = set(re.findall(rb"missing(\d+)", p.stderr))
                msg = next((f"{b!r} is not named on standard error" for b in bad if b.rpartition(b"missing")[2] not in told), None)
            if msg:
                ck.violate(f"{n} missing inputs{' and a good one' if want else ''}, {fl}: {msg}", dict(kind="cli-many", config="std", args=[x.decode() for x in args[:40]]))
        ck.runs.append(dict(config="blake2 tool", label="very many failing inputs", args=[], rc=0, wall=0,
                            stats=dict(evaluations=len(jobs), distinct=len(jobs), states=0, events={"failing inputs": sum(j[0] for j in jobs)}, samples=[], complete=True, mode="cli")))
    finally:
        E.close()

def memory(ck, tool, mb):
    """peak resident set while streaming must not depend on how much is streamed"""
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="mem.", dir=os.path.join(BUILD, "run"))
    seen = {}
    try:
        paths = {}
        for n in (1, mb):
            paths[n] = os.path.join(d, f"{n}")
            with open(paths[n], "wb") as f:
                f.truncate(n << 20)
        launcher = os.path.join(d, "peak")
        r = subprocess.run(["gcc", "-O1", "-w", "-o", launcher, os.path.join(VERIF, "lib", "peak.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise HarnessError("peak.c: " + r.stdout[-500:])
        shim = build_shim()
        def peak(args, fd, **env):
            out = os.path.join(d, f"out.{threading.get_ident()}")
            p = subprocess.run(["/bin/sh", "-c", 'exec 9>"$0"; exec "$@"', out, launcher] + args, stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**os.environ, **env})
            return int(open(out).read()) if p.returncode == 0 and p.stdout else None
        jobs = []
        for fl in ([], ["-s"], ["-bp"], ["-sp"]):
            jobs += [(fl, "file"), (fl, "standard input"), (fl, "pipe")]
        jobs += [([], "many files"), ([], "small pieces"), (["-sp"], "small pieces"), ([], "small reads"), (["-s", "--key=00ff"], "small reads")]
        def one(fl, how):
            v = {}
            for n, p in paths.items():
                best = None
                for _ in range(2):
                    if how == "file":
                        r = peak([tool] + fl + [p], subprocess.DEVNULL)
                    elif how == "small reads":      # short and interrupted
                        r = peak([tool] + fl + [p], subprocess.DEVNULL, LD_PRELOAD=shim, SHIM_DIR=d, SHIM_PLAN=f"read {n} 0 4000000000 R77")
                    elif how == "many files":
                        r = peak([tool] + [paths[1]] * (2 if n == 1 else 100), subprocess.DEVNULL)
                    elif how in ("pipe", "small pieces"):
                        rd, wr = os.pipe()
                        if how == "small pieces":       # a pipe that never holds more than a page: every read is short
                            fcntl.fcntl(wr, 1031, 4096)
                        c = subprocess.Popen(["cat", p], stdout=wr)
                        os.close(wr)
                        r = peak([tool] + fl, rd)
                        os.close(rd)
                        c.wait()
                    else:
                        with open(p, "rb") as f:
                            r = peak([tool] + fl, f)
                    if r is None:
                        return (fl, how, None)
                    best = r if best is None else min(best, r)
                v[n] = best
            return (fl, how, v)
        with cf.ThreadPoolExecutor(6) as ex:
            res = list(ex.map(lambda j: one(*j), jobs))
        for fl, how, v in res:
            if v is None:
                ck.notes.append(f"the tool failed in the memory workload ({fl}, {how}); C15 judges that")
                continue
            seen[" ".join(fl + [how])] = v
            if v[mb] > v[1] + 16 * 1024:
                ck.violate(f"blake2 {' '.join(fl)} ({how}): peak resident set {v[1]} KiB for 1 MiB, {v[mb]} KiB for {mb} MiB", dict(kind="cli-memory", config="std", how=how, args=fl))
        ck.extra["tool_peak_rss_kib"] = seen
        ck.runs.append(dict(config="blake2 tool", label="peak memory", args=[], rc=0, wall=0,
                            stats=dict(evaluations=4 * len(res), distinct=2 * len(res), states=0, events={}, samples=[], complete=True, mode="cli")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
