# C21: a cell does not depend on how its atoms are listed
import json
import os
import re

import numpy as np

from common import (KINDS, Malformed, build_arrays, crystal, grid, intlist, listing, precise_opt, random_crystal, vary)

FORMS = ["i8", "i4", "i2", "i1", "u1", "rev"]


def as_form(nums, form):
    """The same species as a user might hold them: other integer types, other memory layouts."""
    if form == "rev":
        return np.array(nums[::-1])[::-1]
    return np.array(nums, dtype=np.dtype(form))


def far_listing(rng, cr):
    c = listing(rng, cr)
    r = rng.choice([0, 1, 3])
    c["sites"] = [[x + cr["N"] * rng.randint(-r, r) for x in s] for s in c["sites"]]
    return c


def grid_crystal(rng, tier):
    """Sites that share coordinates, on grids where rounding to decimals has ties; or clusters of sites in a large cell."""
    if rng.random() < 0.15:
        N = rng.choice([250, 400, 500])
        o = [rng.randrange(N) for _ in range(3)]
        cand = sorted({tuple((x + rng.randint(-2, 2)) % N for x in o) for _ in range(rng.randint(2, 6))})
        return {"N": N, "G": [[900, 0, 0], [0, 1225, 10], [0, 10, 1600]], "sites": [list(s) for s in cand], "nums": [rng.choice(KINDS) for _ in cand]}
    if rng.random() < 0.03:      # a hundred atoms of one element
        N = rng.choice([12, 14])
        cand = rng.sample([(a, b, c) for a in range(N) for b in range(N) for c in range(N)], rng.choice([99, 100, 101, 130]))
        z, y = rng.sample(KINDS, 2)
        return {"N": N, "G": [[900, 0, 0], [0, 1225, 10], [0, 10, 1600]], "sites": [list(s) for s in cand],
                "nums": [z if rng.random() < rng.choice([0.98, 1]) else y for _ in cand]}
    N = rng.choice([16, 16, 32, 48, 80, 80, 160] if rng.random() < 0.7 else [3, 7, 9, 12, 24, 40])
    xs = [rng.randrange(N) for _ in range(rng.randint(1, 3))] + rng.sample([1, 3, 49, 51, 0, N - 1], 2)
    cand = sorted({(rng.choice(xs) % N, rng.choice(xs) % N, rng.choice(xs) % N) for _ in range(rng.randint(2, 12))})
    c = random_crystal(rng, 4)
    zs = rng.sample(KINDS + [0], 3)
    return {"N": N, "G": c["G"], "sites": [list(s) for s in cand], "nums": [rng.choice(zs) for _ in cand]}


def plain(cr):
    return {k: cr[k] for k in ("N", "G", "sites", "nums")}


def pairs():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "collisions.json")
    return json.load(open(p))["pairs"]


def scramble(rng, nums):
    b = list(nums)
    r = rng.random()
    if r < 0.3 and len(b) > 1:
        i, j = rng.sample(range(len(b)), 2)
        b[i], b[j] = b[j], b[i]
    elif r < 0.5:
        b[rng.randrange(len(b))] = rng.choice(KINDS + [0])
    elif r < 0.6:
        b = b[::-1]
    elif r < 0.7:
        b = b[1:] + b[:1]
    elif r < 0.8:
        b = sorted(b)
    return b


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.5:
        cr = plain(grid_crystal(rng, tier) if rng.random() < 0.6 else crystal(rng, maxsites=rng.choice([16, 16, 40])))
        if rng.random() < 0.3:
            cr["nums"] = [rng.choice([z, 0]) for z in cr["nums"]]
        if cr["N"] > 48:
            opt = {"rnd": 0, "rot": rng.choice([0, rng.randrange(1, 10**6)]), "left": rng.choice([0, 1])}
        else:
            opt = precise_opt(rng, cr, rng.choice([0, 0, 1]))
            if cr["N"] not in (1, 2, 4, 8, 5, 10, 20, 25, 50) and opt["rnd"]:
                opt["rnd"] = 0
        return {"what": "listings", "opt": opt, "cr": cr, "lists": [plain(far_listing(rng, cr)) for _ in range(rng.randint(2, 4))],
                "forms": [rng.choice(FORMS) for _ in range(4)]}
    if r < 0.72:
        if rng.random() < 0.6:
            cr = {"N": 18, "G": [[10, 1, 2], [1, 12, 3], [2, 3, 16]], "sites": [[k, (5 * k) % 18, (7 * k) % 18] for k in range(18)], "nums": [5] * 18}
            seqs = [s for p in rng.sample(pairs(), 6) for s in p]
        else:
            cr = plain(crystal(rng, maxsites=10))
            seqs = [cr["nums"]]
        while len(seqs) < 14:
            seqs.append(scramble(rng, rng.choice(seqs)))
        return {"what": "ids", "cr": dict(cr, sites=[list(s) for s in cr["sites"]]), "opt": precise_opt(rng, cr), "seqs": seqs,
                "forms": [rng.choice(FORMS) for _ in seqs]}
    cr = plain(listing(rng, vary(rng, crystal(rng, maxsites=9))))
    seqs = [scramble(rng, cr["nums"]) for _ in range(rng.randint(1, 3))]
    return {"what": "assign", "cr": cr, "opt": precise_opt(rng, cr), "seqs": seqs, "forms": [rng.choice(FORMS) for _ in seqs],
            "ask": rng.choice([[], ["sym"], ["wyckoffs", "comment"], ["prim", "id"]])}


def formula(text):
    if not re.match(r"^([A-Z][a-z]?\d+)*$", text):
        raise Malformed("formula %r" % text)
    return [[a, int(b)] for a, b in re.findall(r"([A-Z][a-z]?)(\d+)", text)]


def view(cell, cr, L):
    from ababe.stru.element import Specie
    N = cr["N"]
    inv = np.linalg.inv(L)

    def sites_of(cart):
        return grid(np.matmul(np.asarray(cart, float).reshape(-1, 3), inv), N)
    kinds = sorted(set(intlist(cell.numbers)) | {0, 5, 88})
    return {"sites": grid(cell.positions, N), "nums": intlist(cell.numbers), "id": str(int(cell.id)),
            "formula": formula(cell.comment), "count": int(cell.num_count),
            "spg": {"sites": grid(cell.spg_cell[1], N), "nums": intlist(cell.spg_cell[2]),
                    "same": bool(np.allclose(cell.spg_cell[0], L, atol=1e-9) and np.allclose(cell.lattice, L, atol=1e-9))},
            "cart": sites_of(cell.get_cartesian()),
            "of": [{"z": z, "n": int(cell.get_speckle_num(Specie.from_num(z))),
                    "cart": sites_of(cell.get_cartesian(Specie.from_num(z)))} for z in kinds]}


def run(inp):
    from ababe.stru.scaffold import GeneralCell
    w, opt = inp["what"], inp["opt"]
    if w == "listings":
        out = []
        for c, f in zip(inp["lists"], inp["forms"]):
            L, P, _ = build_arrays(c, opt)
            nums = as_form(c["nums"], f)
            keep = (P.copy(), nums.copy())
            out.append(view(GeneralCell(L, P, nums), c, L))
            if not (np.array_equal(P, keep[0]) and np.array_equal(nums, keep[1])):
                raise Malformed("the arrays handed over were changed")
        return {"views": out}
    cr = inp["cr"]
    L, P, n0 = build_arrays(cr, opt)
    if w == "ids":
        ids, nums = [], []
        for s, f in zip(inp["seqs"], inp["forms"]):
            c = GeneralCell(L, P, as_form(s, f))
            ids.append(str(int(c.id)))
            nums.append(intlist(c.numbers))
        return {"ids": ids, "nums": nums}
    tol = {"symprec": opt["tol"]} if "tol" in opt else {}
    cell = GeneralCell(L, P, n0, **tol)
    ask = {"sym": cell.get_symmetry_permutation, "wyckoffs": cell.get_wyckoffs, "comment": lambda: cell.comment,
           "prim": cell.is_primitive, "id": lambda: cell.id}
    out = []
    for s, f in zip(inp["seqs"], inp["forms"]):
        for a in inp["ask"]:
            ask[a]()
        cell.numbers = as_form(s, f)
        fresh = GeneralCell(L, np.array(cell.positions), np.array(s), **tol)
        out.append(dict(view(cell, cr, L), perms=[[int(x) + 1 for x in p] for p in cell.get_symmetry_permutation()],
                        prim=bool(cell.is_primitive()), fresh=str(int(fresh.id)),
                        wyck=[ord(str(x)) for x in cell.get_wyckoffs()], fwyck=[ord(str(x)) for x in fresh.get_wyckoffs()]))
    return {"views": out}
