# C03: site permutations, symmetry operations, equivalence
import numpy as np

from common import (Malformed, almost, build_cell, crystal, grid, intlist, listing, precise_opt, read_cell,
                    snapshot, to_int, vary)


def gen(rng, i, tier):
    big = 16 if tier == "quick" else 27
    cr = crystal(rng, maxsites=40, minsites=17) if rng.random() < 0.06 else crystal(rng, maxsites=rng.choice([4, 8, 12, big]))
    cr = listing(rng, vary(rng, almost(rng, cr, 0.25)))
    n = len(cr["sites"])
    opt = precise_opt(rng, cr, rng.choice([0, 0, 0, 1]))
    pairs = []
    kinds = sorted(set(cr["nums"])) + [0]
    for _ in range(6):
        a = [rng.choice(kinds) for _ in range(n)]
        b = list(a)
        r = rng.random()
        if r < 0.3:
            rng.shuffle(b)
        elif r < 0.5:
            i1, i2 = rng.randrange(n), rng.randrange(n)
            b[i1], b[i2] = b[i2], b[i1]
        pairs.append([a, b, rng.randrange(1000) if r > 0.5 else -1])
    return {"cr": cr, "opt": opt, "pairs": pairs}


def perm_rows(ps, n):
    rows = []
    for p in ps:
        r = intlist(p, "permutation")
        if len(r) != n or min(r) < 0 or max(r) >= n:
            raise Malformed("permutation %r" % (r,))
        rows.append([x + 1 for x in r])
    return rows


def run(inp):
    from ababe.stru.scaffold import GeneralCell
    from ababe.stru.sogen import OccupyGenerator, get_permutation_cell
    cr = inp["cr"]
    n = len(cr["sites"])
    cell = build_cell(cr, inp["opt"])
    before = snapshot(cell)
    perms = perm_rows(cell.get_symmetry_permutation(), n)
    # this function takes a bare tuple and no tolerance: it is asked about numbers good enough for its own
    exact = cell if inp["opt"].get("tol", 0) < 1e-3 else build_cell(cr, dict(inp["opt"], rnd=0))
    perms2 = perm_rows(get_permutation_cell(exact.spg_cell), n)
    sym = cell.get_symmetry()
    ops = []
    for r, t in zip(sym["rotations"], sym["translations"]):
        ops.append([[[to_int(x) for x in row] for row in np.asarray(r).tolist()],
                    grid(np.asarray(t, dtype=float).reshape(1, 3), cr["N"], "translation",
                         5e-3 if inp["opt"].get("tol", 0) > 1e-3 else 2e-3)[0]])
    ogg = OccupyGenerator(cell)
    pairs = []
    for a, b, k in inp["pairs"]:
        if k >= 0:                      # make b equivalent to a by some listed permutation
            p = perms[k % len(perms)]
            b = [a[x - 1] for x in p]
        ca = GeneralCell(cell.lattice, cell.positions, np.array(a))
        cb = GeneralCell(cell.lattice, cell.positions, np.array(b))
        pairs.append([intlist(ca.numbers), intlist(cb.numbers), bool(ogg.is_equivalent(ca, cb)),
                      bool(ogg.is_equivalent(cb, ca))])
    return {"mother": read_cell(cell, cr["N"]), "perms": perms, "perms2": perms2, "ops": ops,
            "wyck": [ord(str(w)) for w in ogg.wyckoffs], "pairs": pairs,
            "intact": snapshot(cell) == before}
