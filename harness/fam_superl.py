# C04: superlattice enumeration
import numpy as np

from common import (Malformed, almost, build_cell, crystal, listing, precise_opt, prototype, random_crystal, snapshot,
                    to_int, vary)


def unit(rng):
    if rng.random() < 0.7:
        c = prototype(rng)
    else:
        c = random_crystal(rng, 6)
    c.pop("name", None)
    return c


def gen(rng, i, tier):
    top = 5 if tier == "quick" else 8
    cr = listing(rng, vary(rng, almost(rng, unit(rng))))
    flat = rng.random() < 0.4
    n = rng.randint(1, 3 * top if flat else top)
    if flat and rng.random() < 0.3:
        n = rng.randint(3 * top + 1, 36)
    if not flat and rng.random() < 0.2:
        n = rng.randint(top + 1, top + 4)
    return {"cr": cr, "opt": precise_opt(rng, cr, rng.choice([0, 0, 0, 1])), "n": n, "flat": flat,
            "pairs": [[rng.randrange(10**6), rng.randrange(10**6)] for _ in range(12)],
            "other": rng.randint(1, 3)}


def mat(h):
    a = np.asarray(h)
    if a.shape != (3, 3):
        raise Malformed("superlattice matrix of shape %r" % (a.shape,))
    return [[to_int(x) for x in r] for r in a.tolist()]


def run(inp):
    from ababe.stru.grid import SuperLatticeGenerator, SuperLatticeGenerator2D
    cell = build_cell(inp["cr"], inp["opt"])
    before = snapshot(cell)
    gen_ = SuperLatticeGenerator2D if inp["flat"] else SuperLatticeGenerator
    dups = list(gen_.hnfs_from_n_dups(cell, inp["n"]))
    red = list(gen_.hnfs_from_n(cell, inp["n"]))
    others = list(SuperLatticeGenerator.hnfs_from_n_dups(cell, inp["other"]))
    pairs = []
    for k, (x, y) in enumerate(inp["pairs"]):
        a = dups[x % len(dups)]
        pool = dups if k % 4 else others
        b = pool[y % len(pool)]
        pairs.append([mat(a.lat_coeff), mat(b.lat_coeff), bool(a == b), bool(b == a)])
    return {"dups": [mat(h.lat_coeff) for h in dups], "red": [mat(h.lat_coeff) for h in red],
            "pairs": pairs, "intact": snapshot(cell) == before}
