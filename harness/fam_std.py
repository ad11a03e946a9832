# C06: standardised cells
import numpy as np

import isometry
from common import (KINDS, almost, build_cell, crystal, decoys, intlist, listing, precise_opt, quietly, snapshot, vary)


def crowd(rng):
    """More atoms than fit in a byte, and no symmetry to speak of."""
    N = 12
    sites = rng.sample([[a, b, c] for a in range(N) for b in range(N) for c in range(N)], rng.choice([128, 131, 140]))
    kinds = rng.sample(KINDS, 3)
    return {"cr": {"N": N, "G": [[900, 0, 30], [0, 1025, 10], [30, 10, 1100]], "sites": sites, "nums": [rng.choice(kinds) for _ in sites]},
            "opt": {"rnd": 0, "rot": 0, "left": 0}, "order": ["conv", "pcell", "shaped"], "warm": 0}


def gen(rng, i, tier):
    if rng.random() < 0.006:
        return crowd(rng)
    while True:
        large = rng.random() < 0.06
        cr = crystal(rng, maxsites=rng.choice([30] if large else [4, 8, 12] if tier == "quick" else [8, 12, 16]), minsites=17 if large else 1)
        if cr["N"] <= 24 and max(cr["G"][k][k] for k in range(3)) <= 1200:
            break
    cr = listing(rng, vary(rng, almost(rng, cr, 0.15, 200)))
    order = ["conv", "pcell", "shaped"]
    rng.shuffle(order)
    return {"cr": cr, "opt": precise_opt(rng, cr, rng.choice([0, 0, 1])), "order": order, "warm": rng.choice([0, 1])}


def describe(cr, cell, left):
    cert = isometry.find(cr, cell.lattice, cell.positions, cell.numbers, sign=-1 if left else 1)
    r = {"n": len(intlist(cell.numbers)), "nums": intlist(cell.numbers), "count": int(cell.num_count),
         "prim": bool(cell.is_primitive()), "found": cert is not None}
    if cert:
        r["cert"] = cert
    return r


def run(inp):
    cr = inp["cr"]
    cell = build_cell(cr, inp["opt"])
    before = snapshot(cell)
    out = {"prim": bool(cell.is_primitive())}
    get = {"conv": "get_refined_cell", "pcell": "get_refined_pcell", "shaped": "get_shaped_cell"}
    if inp.get("warm"):
        for d in decoys(np.array(cell.lattice, float), np.array(cell.positions, float), np.array(cell.numbers)):
            for name in inp["order"]:
                quietly(getattr(type(cell)(*d), get[name]))
    for name in inp.get("order") or sorted(get):
        out[name] = describe(cr, getattr(cell, get[name])(), inp["opt"]["left"])
    out["intact"] = snapshot(cell) == before
    return out
