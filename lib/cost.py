"""C19: instructions executed by named workloads, counted by callgrind."""
import os, subprocess, time
import concurrent.futures as cf
from common import *

def measure(ck, v, fam, seed, mixtures):
    """{workload: instructions}, degree"""
    label, c, exe, extra, _ = v
    out = scratch(f"cg-{c}-{label.replace('/', '-')}-{fam}")
    t0 = time.time()
    try:
        r = subprocess.run(["valgrind", "-q", "--tool=callgrind", "--callgrind-out-file=" + out, "--combine-dumps=yes", "--dump-line=no", "--compress-strings=no",
                            exe, "cost", "--family", fam, "--seed", str(seed), "--mixtures", str(mixtures)] + extra,
                           env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=800)
        if r.returncode < 0 or "COST-DONE" not in r.stdout:
            raise HarnessError(f"{label} {fam}: {r.returncode} {r.stdout[-300:]} {r.stderr[-500:]}")
        d, n = {}, None
        for l in open(out, errors="replace"):
            if l.startswith("desc: Trigger: Client Request: "):
                n = l[31:].strip()
            elif l.startswith("summary: ") and n:
                d[n] = int(l.split()[1])
                n = None
    finally:
        for f in os.listdir(os.path.dirname(out)):
            if f.startswith(os.path.basename(out)):
                os.unlink(os.path.join(os.path.dirname(out), f))
    if d.get("nothing", 10**9) > 100:
        raise HarnessError(f"{label}: an empty window counts {d.get('nothing')} instructions")
    deg = [l for l in r.stdout.splitlines() if l.startswith("DEGREE")][0].split()
    ck.runs.append(dict(config=c, label=f"{label} {fam}", args=["cost", "--family", fam, "--seed", str(seed)] + extra, rc=0, wall=round(time.time() - t0, 2),
                        stats=dict(evaluations=len(d), distinct=len(d), complete=True, mode="cost", states=0, events={})))
    return d, int(deg[1 if fam == "b" else 2])

def slope(R, w, m):
    return (R[f"{w} {m} 24"] - R[f"{w} {m} 8"]) / 16

def predict(R, w, deg, block, lens):
    """what a batch of these lengths costs when the lanes are kept full for as long as there are inputs to fill them"""
    c = {m: slope(R, w, m) for m in range(1, deg + 1)}
    per_job = max(0, R[f"{w} {deg} 8"] - 8 * c[deg]) / deg
    q = [max(1, -(-n // block)) for n in lens]
    lanes, total, segs = [], 0.0, 0
    while q or lanes:
        while q and len(lanes) < deg:
            lanes.append(q.pop(0))
        n = min(lanes)
        total += n * c[len(lanes)]
        segs += 1
        lanes = [x - n for x in lanes if x > n]
    return total, per_job * len(lens) + 1.2 * c[deg] * segs

# batch cost per block over one-at-a-time cost per block, by (family, lanes). On the unchanged tree 0.79 (b, 4),
# 0.37 (s, 8), 0.77 (b, 2), 0.83 (s, 4); with rolled-up round loops 0.90 (b, 4). One at a time is exactly 1, and
# four lanes of a machine with eight are 0.83.
LIMIT = {("b", 4): 0.97, ("s", 8): 0.70, ("b", 2): 0.97, ("s", 4): 0.97}

def judge(fam, deg, R):
    """[(what, instructions, limit)] for everything that costs too much; number of comparisons"""
    bad, n = [], 0
    def need(what, got, limit):
        nonlocal n
        n += 1
        if got > limit:
            bad.append((what, got, limit))
    B = 128 if fam == "b" else 64
    S = B * (4 if fam == "b" else 8)
    MAXD = 4 if fam == "b" else 8
    one = slope(R, "each", 1)
    # lanes are used
    if (fam, deg) in LIMIT:
        lim = LIMIT[fam, deg]
        for k in (1, 2, 3):
            if k * deg <= 3 * MAXD:
                need(f"hash_many, {k * deg} inputs, per block of input", slope(R, "batch", k * deg) / (k * deg), lim * one)
                need(f"hash_many, {k * deg} inputs of 24 blocks, over hashing each alone", R[f"batch {k * deg} 24"], (lim + 0.03) * R[f"each {k * deg} 24"])
            if k * deg <= 2 * MAXD:
                need(f"update_many, {k * deg} inputs, per block of input", slope(R, "upd", k * deg) / (k * deg), lim * slope(R, "updeach", 1))
                need(f"hash_many, {k * deg} inputs under different parameters, per block of input", slope(R, "vbatch", k * deg) / (k * deg), lim * one)
                need(f"update_many, {k * deg} hashers of different histories, per block of input", slope(R, "vupd", k * deg) / (k * deg), lim * slope(R, "updeach", 1))
        for w in ("par hash", "par keyed", "par state"):
            need(f"{w}, per block of input", (R[f"{w} {60 * S}"] - R[f"{w} {8 * S}"]) / (52 * S / B), lim * one)
    # groups
    for w, top in (("batch", 3 * MAXD + 1), ("upd", 2 * MAXD + 1)):
        for m in range(deg, top + 1):
            for blocks in (1, 8, 24):
                k, r = divmod(m, deg)
                need(f"{w}, {m} inputs of {blocks} blocks, over {k} full groups and {r} more", R[f"{w} {m} {blocks}"],
                     1.06 * (k * R[f"{w} {deg} {blocks}"] + (R[f"{w} {r} {blocks}"] if r else 0)) + 400)
    # different lengths
    for k, v in R.items():
        if k.startswith(("mix", "vmix")):
            w = "batch" if "upd" not in k else "upd"
            lens = [int(x) for x in k.split()[2].split(",")]
            t, o = predict(R, w, deg, B, lens)
            if k[0] == "v":     # each has a key or a buffer of its own to compress alone
                o += len(lens) * (1.3 * one + 600)
            need(f"{'hash_many' if w == 'batch' else 'update_many'} of lengths {k.split()[2]}{', all different otherwise,' if k[0] == 'v' else ''} over full lanes", v, 1.08 * t + o + 2000)
    # linear in the number of inputs and in their length
    for w in ("small", "updsmall"):
        need(f"{w}: 256 inputs over 64", R[f"{w} 256"], 4.4 * R[f"{w} 64"])
        need(f"{w}: 1024 inputs over 256", R[f"{w} 1024"], 4.4 * R[f"{w} 256"])
    for w, u in (("hash", B), ("state", B), ("par hash", S), ("par keyed", S), ("par state", S)):
        hi, lo = (80, 8) if u == B else (60, 8)
        need(f"{w}: {hi} units over {lo}", R[f"{w} {hi * u}"], 1.05 * hi / lo * R[f"{w} {lo * u}"])
        need(f"{w}: the last unit of many over the ninth", R[f"{w} {(hi + 1) * u}"] - R[f"{w} {hi * u}"], 1.15 * (R[f"{w} {9 * u}"] - R[f"{w} {8 * u}"]) + 100)
    for k in (8, 60):
        need(f"keyed parallel hash of {k} stripes over unkeyed", R[f"par keyed {k * S}"], 1.15 * R[f"par hash {k * S}"] + 3 * R["par hash 0"])
        need(f"parallel hasher, {k} stripes, over parallel hash", R[f"par state {k * S}"], 1.15 * R[f"par hash {k * S}"] + 3 * R["par hash 0"])
    need("hasher, 80 blocks, over hash", R[f"state {80 * B}"], 1.05 * R[f"hash {80 * B}"] + 3000)
    # however split
    for k, v in R.items():
        f = k.split()
        if "split" in f:
            piece, total = int(f[-2]), int(f[-1])
            calls = -(-total // piece)
            w = k[:k.index("split")]
            if w in ("", "par "):
                need(f"{w or 'hasher '}fed {total} bytes in pieces of {piece}, over one piece", v, 1.5 * R[f"{w}split {total} {total}"] + 400 * calls)
            elif w == "many ":
                need(f"update_many in pieces of {piece}, over single updates", v, 1.25 * R[f"each split {piece} {total}"] + 200 * calls * 2 * MAXD)
    for w in ("finalize", "par finalize", "clone", "par clone"):
        a, b = R[f"{w} after {B + 1}"], R[f"{w} after {2000 * B + 1}"]
        need(f"{w} after much input over after little", b, 1.4 * a + 600)
    return bad, n

def calls_of(k):
    """how many calls into the library a workload makes, at most"""
    f = k.split()
    if "split" in f:
        n = -(-int(f[-1]) // int(f[-2])) + 1
        return n * 16 if f[0] in ("many", "each") else n
    if f[0] in ("small", "updsmall", "batch", "each", "upd", "updeach"):
        return int(f[1]) + 1
    if f[0] in ("vbatch", "vupd"):
        return 3 * int(f[1]) + 1
    if f[0] in ("mix", "mixupd"):
        return f[2].count(",") + 2
    if f[0] in ("vmix", "vmixupd"):
        return 3 * f[2].count(",") + 4
    return 2

def versus(R, P):
    """workloads that cost more with the selected back end than with portable code, a constant per call aside"""
    return [(k, R[k], P[k]) for k in R if k in P and R[k] > 1.08 * P[k] + 300 * calls_of(k)], len(R)

def run(ck, variants, build_all):
    q = ck.quick
    vs = variants(ck, ["std", "std/sse41", "std/portable", "sse41", "avx2", "portable"] + ([] if q else ["checked", "size"]))
    seed = ck.seed * 1000 + 19
    mixtures = 60 if q else 2500
    jobs = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for v in vs:
            for f in "bs":
                jobs[v[0], f] = ex.submit(measure, ck, v, f, seed, mixtures)
    res = {k: j.result() for k, j in jobs.items()}
    compared = 0
    for (label, f), (R, deg) in res.items():
        if label in ("checked", "size"):       # only the relative demands: their kernels are not the optimised ones
            bad, n = [], 0
        else:
            bad, n = judge(f, deg, R)
        compared += n
        v = next(v for v in vs if v[0] == label)
        for what, got, limit in bad[:3]:
            ck.violate(f"{label}: blake2{f} {what}: {got:.0f} instructions, at most {limit:.0f} expected", dict(kind="cost", config=v[1], args=["cost", "--family", f, "--seed", str(seed), "--mixtures", str(mixtures)] + v[3]))
    for a, b in (("std", "std/portable"), ("std/sse41", "std/portable"), ("sse41", "portable"), ("avx2", "portable"), ("std", "portable")):
        for f in "bs":
            if (a, f) in res and (b, f) in res:
                bad, n = versus(res[a, f][0], res[b, f][0])
                compared += n
                for k, x, y in bad[:3]:
                    ck.violate(f"{a} costs more than {b}: blake2{f} workload {k}: {x} instructions, {y} with portable code", dict(kind="cost", config=a.split("/")[0], args=["cost", "--family", f]))
    ck.extra["cost_demands_checked"] = compared
    ck.extra["per_block"] = {f"{l} {f}": dict(degree=d, alone=round(slope(R, "each", 1), 1), batched=round(slope(R, "batch", d) / d, 1), updated=round(slope(R, "upd", d) / d, 1)) for (l, f), (R, d) in res.items()}
    ck.extra["samples"] = [f"std b {k}: {v}" for k, v in list(res["std", "b"][0].items())[5:400:90]]
    ck.assumptions += ["Instructions executed (counted by callgrind, exactly reproducible) stand for work; time is not measured.",
                       "Fewer inputs than lanes are compressed as the library sees fit (on AVX2, two BLAKE2b inputs cost more instructions together than apart), only never more than with portable code."]
    return ck.finish("exploration", "named workloads (batches of 1..3 degrees + 1 inputs x 1, 8, 24 blocks, random mixtures of lengths, the same under different keys, parameters and half-filled buffers, 64-1024 small inputs, trees, every API fed in pieces of 14 sizes, reading after little and much) whose instructions callgrind counts between client requests, with AVX2, SSE4.1 and portable back ends; compared with one-at-a-time cost, with the cost of full groups, with a simulation of lanes kept full, with proportionality, and with the portable back end. Distinct: workload x configuration.")
