# C08: distance and space group restrictions
import numpy as np

import isometry
from common import (KINDS, almost, build_cell, crystal, decoys, hnf, image2s, just_above, listing, precise_opt, prototype, quietly, random_crystal, skew,
                    snapshot, tile)


def gen(rng, i, tier):
    inp = gen_case(rng, i, tier)
    inp["edge"] = rng.choice([0, 0, 1, 2])
    inp["warm"] = rng.choice([0, 1, 1])      # other structures are asked about first and in between
    return inp


def gen_case(rng, i, tier):
    inp = gen_dist(rng, i, tier)
    if inp["what"] == "dist" and rng.random() < 0.06:      # two atoms on one spot
        cr = dict(inp["cr"])
        j = rng.randrange(len(cr["sites"]))
        same = [x + cr["N"] * rng.choice([0, 0, 0, 1, -1]) for x in cr["sites"][j]]
        cr["sites"] = [list(s) for s in cr["sites"]] + [same]
        cr["nums"] = list(cr["nums"]) + [rng.choice([cr["nums"][j], cr["nums"][j], rng.choice(KINDS)])]
        if rng.random() < 0.6:
            inp["z"], inp["k"] = cr["nums"][j], rng.choice([0, inp["k"]])
        inp["cr"] = {k: cr[k] for k in ("N", "G", "sites", "nums")}
        if inp["exact"]:
            inp["exact"], inp["k"] = 0, max(0, inp["k"] - 1)
    return inp


def gen_dist(rng, i, tier):
    if rng.random() < 0.25:
        return gen_spg(rng)
    if rng.random() < 0.15:
        return gen_exact(rng)
    if rng.random() < 0.04:
        return gen_close(rng)
    if rng.random() < 0.1:
        return gen_many(rng)
    cr = crystal(rng, maxsites=rng.choice([2, 4, 8, 12, 24]))
    if cr["N"] > 24:
        cr = random_crystal(rng, 8)
    cr.pop("name", None)
    if rng.random() < 0.4:
        cr = dict(cr, nums=[0 if rng.random() < 0.3 else z for z in cr["nums"]])
    z = rng.choice(cr["nums"] + [rng.choice(KINDS)])
    I = [s for s, y in zip(cr["sites"], cr["nums"]) if y == z]
    ds = set()
    for a in I[:4]:
        for b in I:
            ds.update(image2s(cr["G"], cr["N"], [a[k] - b[k] for k in range(3)])[:3])
    ds = sorted(ds) or [rng.randint(1, 400)]
    if rng.random() < 0.5:
        c2 = skew(rng, cr, rng.choice([1, 2]), rng.choice([2, 2, 6]))
        if max(c2["G"][k][k] for k in range(3)) < 700:
            cr = c2
    cr = listing(rng, cr)
    k = rng.choice([ds[0], ds[0] - 1, ds[0] - 1, ds[0], rng.choice(ds[:6]), rng.choice(ds) - 1, rng.randint(0, ds[0] * 2)])
    return {"what": "dist", "cr": cr, "opt": {"rnd": 0, "rot": rng.choice([0, rng.randrange(1, 10**6)]), "left": rng.choice([0, 0, 1])},
            "z": z, "k": max(0, k), "exact": 0}


def gen_many(rng):
    """Many atoms of one element, of which only one pair is close."""
    N, G = rng.choice([12, 16, 20]), rng.choice([[[30, 0, 0], [0, 41, 3], [0, 3, 52]], [[40, 6, 0], [6, 40, 5], [0, 5, 40]]])
    z = rng.choice(KINDS)
    sites = {tuple(rng.randrange(N) for _ in range(3)) for _ in range(rng.randint(9, 26))}
    sites = sorted(list(s) for s in sites)
    rng.shuffle(sites)
    ds = sorted({q for i, a in enumerate(sites) for b in sites[:i] for q in image2s(G, N, [a[k] - b[k] for k in range(3)])[:1]})
    return {"what": "dist", "cr": {"N": N, "G": G, "sites": sites, "nums": [z] * len(sites)}, "opt": {"rnd": 0, "rot": 0, "left": rng.choice([0, 1])},
            "z": z, "k": rng.choice([ds[0], ds[0], ds[0] - 1, ds[1] - 1 if len(ds) > 1 else ds[0]]), "exact": 0}


def gen_close(rng):
    """Two atoms almost on one spot."""
    N = rng.choice([500, 1000])
    a = rng.choice([[4, 0, 0], [2, 1, 0], [3, -1, 0]])
    G = [[4, 0, 0], [0, 5, 0], [0, 0, 6]]
    z, y = rng.sample(KINDS, 2)
    s = [rng.randrange(N) for _ in range(3)]
    sites = [s, [(s[k] + a[k]) % N for k in range(3)], [(c + N // 2) % N for c in s]]
    nums = [z, rng.choice([z, z, y]), rng.choice([z, y])]
    q = sum(a[k] * a[k] * G[k][k] for k in range(3))
    return {"what": "dist", "cr": listing(rng, {"N": N, "G": G, "sites": sites, "nums": nums}), "opt": {"rnd": 0, "rot": 0, "left": 0},
            "z": z, "k": rng.choice([q, q, q - 1, q + 1, 4 * q]), "exact": 0}


def gen_exact(rng):
    """A distance that is met exactly: floats are exact here."""
    d = [rng.choice([2, 3, 4, 5, 6]) for _ in range(3)]
    N = rng.choice([1, 2, 4, 8])
    G = [[d[0]**2, 0, 0], [0, d[1]**2, 0], [0, 0, d[2]**2]]
    z, y = rng.sample(KINDS, 2)
    ax = rng.randrange(3)
    s = [[0, 0, 0]]
    if N > 1:
        t = [0, 0, 0]
        t[ax] = rng.randrange(1, N)
        s.append(t)
        far = min(t[ax], N - t[ax]) * d[ax]
        nums = [z, z]
    else:
        nums = [z]
    k = min([x * N for x in d] + ([far] if N > 1 else []))
    if N > 1 and rng.random() < 0.5:
        o = [rng.randrange(N) for _ in range(3)]
        if o not in s:
            s.append(o)
            nums.append(y)
    return {"what": "dist", "cr": {"N": N, "G": G, "sites": s, "nums": nums}, "opt": {"rnd": 0, "rot": 0, "left": 0},
            "z": z, "k": k * k + rng.choice([0, 0, 0, -1]), "exact": 1}


RANGES = [(1, 1), (2, 2), (3, 5), (6, 9), (10, 15), (16, 24), (25, 46), (47, 74), (75, 80), (81, 82), (83, 88), (89, 98),
          (99, 110), (111, 122), (123, 142), (143, 146), (147, 148), (149, 155), (156, 161), (162, 167), (168, 173), (174, 174),
          (175, 176), (177, 182), (183, 186), (187, 190), (191, 194), (195, 199), (200, 206), (207, 214), (215, 220), (221, 230)]


def gen_spg(rng):
    while True:
        cr = prototype(rng) if rng.random() < 0.5 else random_crystal(rng, 6)
        name = cr.pop("name", "")
        if rng.random() < 0.2:
            cr, name = almost(rng, cr, 1, 480), ""
        if name == "" and len(isometry.translations(cr)) != 1:
            continue
        break
    big = tile(cr, hnf(rng, rng.choice([1, 1, 2, 3])))
    if big["N"] > (48 if cr["N"] <= 48 else 1500):
        big = cr
    full = listing(rng, big)
    l = []
    for a, b in rng.sample(RANGES, rng.choice([4, 8, 16, 28])):
        l += list(range(a, b + 1))
    if rng.random() < 0.5:
        l = rng.sample(range(1, 231), rng.choice([5, 60, 115, 200]))
    return {"what": "spg", "name": name, "prim": cr, "cr": full, "opt": precise_opt(rng, full), "list": sorted(l)}


def before_arrays(cell):
    return np.array(cell.lattice, float), np.array(cell.positions, float), np.array(cell.numbers)


def run(inp):
    from ababe.stru.element import Specie
    from ababe.stru.scaffold import GeneralCell
    from ababe.stru.restriction import MinDistanceRestriction, SpaceGroupRestriction
    cr = inp["cr"]
    cell = build_cell(cr, inp["opt"])
    before = snapshot(cell)
    if inp["what"] == "spg":
        R = SpaceGroupRestriction(inp["list"])
    else:
        k = inp["k"]
        dist = np.sqrt(k) / cr["N"] if inp["exact"] and int(np.sqrt(k))**2 == k else just_above(k, inp.get("edge", 0), cr["N"]) / cr["N"]
        R = MinDistanceRestriction((Specie.from_num(inp["z"]), float(dist)))
    others = [GeneralCell(*d) for d in decoys(*before_arrays(cell))] if inp.get("warm") else []
    for o in others:
        quietly(R.is_satisfied, o)
    r = R.is_satisfied(cell)
    for o in others[:2]:
        quietly(R.is_satisfied, o)
    return {"res": bool(r), "again": bool(R.is_satisfied(cell)), "intact": snapshot(cell) == before}
