#!/usr/bin/env python3
"""Generates /verif/harness/vectors.txt: BLAKE2 test vectors computed by CPython's hashlib (the BLAKE2
authors' C code), which the Rust reference model has to reproduce before any check trusts it.
BLAKE2bp/sp are composed from hashlib's tree parameters and checked here against the official KATs.
Usage: gen_vectors.py [path to blake2-kat.json]"""
import hashlib, random, json, sys, os

def msg(n, seed):
    return bytes(((i * i + seed * i * 7 + (i >> 8) * 13 + (i >> 3) * seed + seed) & 0xff) for i in range(n))

def par(kind, data, out, key):
    H, B, D, O = (hashlib.blake2b, 128, 4, 64) if kind == "bp" else (hashlib.blake2s, 64, 8, 32)
    # leaf digests are untruncated though the parameter block carries the final length: hashlib ties the
    # two together, so only full-length digests (out == O) can be composed this way
    assert out == O
    leaves = []
    for i in range(D):
        part = b"".join(data[j:j + B] for j in range(i * B, len(data), D * B))
        leaves.append(H(part, digest_size=O, key=key, fanout=D, depth=2, leaf_size=0, node_offset=i,
                        node_depth=0, inner_size=O, last_node=(i == D - 1)).digest())
    if key:
        return None, leaves   # the root carries the key length but no key block: not expressible
    return H(b"".join(leaves), digest_size=O, fanout=D, depth=2, leaf_size=0, node_offset=0, node_depth=1,
             inner_size=O, last_node=True).digest(), leaves

rng = random.Random(20240229)
out = []
kat = None
if len(sys.argv) > 1:
    kat = json.load(open(sys.argv[1]))
for kind in "bs":
    H, B, O, S = (hashlib.blake2b, 128, 64, 16) if kind == "b" else (hashlib.blake2s, 64, 32, 8)
    offbits = 64 if kind == "b" else 48
    cases = []
    for n in list(range(0, 2 * B + 3)) + [3 * B - 1, 3 * B, 3 * B + 1, 1000, 4096, 4097, 9999]:
        cases.append((n, {}))
    for _ in range(900):
        n = rng.choice([0, 1, B - 1, B, B + 1, 2 * B, rng.randrange(0, 4 * B), rng.randrange(0, 1500)])
        p = {}
        if rng.random() < .6: p["digest_size"] = rng.randint(1, O)
        if rng.random() < .6: p["key"] = rng.randbytes(rng.choice([1, O, rng.randint(0, O)]))
        if rng.random() < .6: p["salt"] = rng.randbytes(rng.randint(0, S))
        if rng.random() < .6: p["person"] = rng.randbytes(rng.randint(0, S))
        if rng.random() < .5: p["fanout"] = rng.randint(0, 255)
        if rng.random() < .5: p["depth"] = rng.randint(1, 255)
        if rng.random() < .5: p["leaf_size"] = rng.getrandbits(rng.choice([8, 16, 32]))
        if rng.random() < .5: p["node_offset"] = rng.getrandbits(rng.choice([8, 16, 32, 40, offbits]))
        if rng.random() < .5: p["node_depth"] = rng.randint(0, 255)
        if rng.random() < .5: p["inner_size"] = rng.randint(0, O)
        if rng.random() < .5: p["last_node"] = True
        cases.append((n, p))
    for n, p in cases:
        seed = rng.randrange(256)
        d = H(msg(n, seed), **p).digest()
        g = p.get
        out.append(" ".join(map(str, [kind, n, seed, g("digest_size", O), g("key", b"").hex() or "-",
            g("salt", b"").hex() or "-", g("person", b"").hex() or "-", g("fanout", 1), g("depth", 1),
            g("leaf_size", 0), g("node_offset", 0), g("node_depth", 0), g("inner_size", 0),
            int(g("last_node", False)), d.hex()])))
for kind in ("bp", "sp"):
    B, D, O = (128, 4, 64) if kind == "bp" else (64, 8, 32)
    for n in list(range(0, 2 * B)) + [k * B + d for k in range(2, 4 * D + 2) for d in (-1, 0, 1)] + [5000, 9999]:
        seed = rng.randrange(256)
        d, _ = par(kind, msg(n, seed), O, b"")
        out.append(f"{kind} {n} {seed} {O} - {d.hex()}")
    if kat:
        k = 0
        for e in kat:
            if e["hash"] != "blake2" + kind: continue
            data, key, want = bytes.fromhex(e["in"]), bytes.fromhex(e["key"]), e["out"]
            if not key:
                assert par(kind, data, O, b"")[0].hex() == want, e
            # the official vectors' input is 00 01 02 ...: recorded as "kat"
            assert data == bytes(range(len(data)))
            out.append(f"{kind} {len(data)} kat {O} {key.hex() or '-'} {want}")
            k += 1
        print(kind, "official KATs:", k)
open(os.path.join(os.path.dirname(__file__), "..", "harness", "vectors.txt"), "w").write("\n".join(out) + "\n")
print(len(out), "vectors")
