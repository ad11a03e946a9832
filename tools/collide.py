"""Finds pairs of inequivalent colorings / configurations with equal 32-bit hashes (development; writes harness/collisions.json).
Run with a python that has numpy and xxhash."""
import json, random, struct, sys, zlib
import numpy as np
import xxhash
rng = random.Random(7)
H = {"xxh32": lambda b: xxhash.xxh32(b).intdigest(), "crc32": lambda b: zlib.crc32(b) & 0xffffffff, "adler32": lambda b: zlib.adler32(b) & 0xffffffff,
     "xxh64lo": lambda b: xxhash.xxh64(b).intdigest() & 0xffffffff, "xxh64hi": lambda b: xxhash.xxh64(b).intdigest() >> 32}
W = {"i8": np.int64, "i4": np.int32, "i1": np.int8}
out = {"bucky": [], "pairs": [], "mothers": []}
def combos(): return [(h, w) for h in H for w in W]
# buckyball: sparse colorings of 60 sites with 5 species-5 atoms and distinct numbers of 7s
import itertools
for h, w in combos() if 'mothers' not in sys.argv else []:
    seen = {}
    got = 0
    for _ in range(400000):
        k1 = rng.randint(2, 6)
        k2 = rng.randint(0, 6)
        pos = rng.sample(range(60), k1 + k2)
        a = [6]*60
        for p in pos[:k1]: a[p] = 5
        for p in pos[k1:]: a[p] = 7
        v = H[h](np.array(a, dtype=W[w]).tobytes())
        if v in seen and (seen[v][0] != (k1, k2)):
            out["bucky"].append([[[i+1, z] for i, z in enumerate(b) if z != 6] for b in (seen[v][1], a)])
            got += 1
            if got == 3: break
        else:
            seen[v] = ((k1, k2), a)
    print(h, w, got, file=sys.stderr)
# same-site sequences for cells (12..20 sites, species of the usual kinds)
KINDS = [5, 6, 13, 16, 22, 30, 31, 47, 56, 74]
for h, w in combos() if 'mothers' not in sys.argv else []:
    seen, got, n = {}, 0, 18
    for _ in range(400000):
        a = [rng.choice(KINDS) for _ in range(n)]
        v = H[h](np.array(a, dtype=W[w]).tobytes())
        if v in seen and seen[v] != a:
            out["pairs"].append([seen[v], a]); got += 1
            if got == 3: break
        seen[v] = a
    print(h, w, got, file=sys.stderr)
# mothers: 3 of n sites replaced by one species gives two configurations of equal hash
for h, w in combos():
    if w == "i1":
        continue
    got, t = 0, 0
    n = 24
    while got < 2 and t < 12000:
        t += 1
        a = np.array([rng.choice(KINDS[:4]) for _ in range(n)], dtype=W[w])
        z = 47
        seen = set()
        b = a.copy()
        for c in itertools.combinations(range(n), 3):
            for i in c: b[i] = z
            v = H[h](b.tobytes())
            for i in c: b[i] = a[i]
            if v in seen:
                out["mothers"].append({"nums": a.tolist(), "z": z, "n": 3, "hash": h + w}); got += 1; break
            seen.add(v)
    print(h, w, got, t, file=sys.stderr)
if "mothers" in sys.argv:          # only those anew
    out = dict(json.load(open("/verif/harness/collisions.json")), mothers=out["mothers"])
json.dump(out, open("/verif/harness/collisions.json", "w"))
