# C01: non-duplicate substitution enumeration
import json
import os
from math import comb

import numpy as np

from common import (KINDS, almost, build_cell, crystal, intlist, listing, precise_opt, read_cell, snapshot,
                    sym_perms, take, vary)


def mothers():
    """Requests among whose configurations two have the same 32-bit digest (a digest is not an identity)."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "collisions.json")) as f:
        return json.load(f)["mothers"]


def collision(rng, m):
    """Such a request on a crystal without symmetry, so that every configuration must come out."""
    n = len(m["nums"])
    while True:
        N = 12
        sites = rng.sample([[x, y, z] for x in range(N) for y in range(N) for z in range(N)], n)
        sites.sort()                               # the order in which the cell keeps them
        cr = {"N": N, "G": [[10, 1, 2], [1, 12, 3], [2, 3, 16]], "sites": sites, "nums": list(m["nums"]), "name": "p1"}
        if len(sym_perms(cr)) == 1:
            return {"cr": cr, "opt": {"rnd": 0, "rot": 0, "left": 0},
                    "op": {"mode": "any", "z": m["z"], "ele": m["nums"][0], "w": 0, "z2": 0, "n2": 0, "n": m["n"]}}


def gen(rng, i, tier):
    M = mothers()
    if i % 25 == 7 and i // 25 < len(M):
        return collision(rng, M[i // 25])
    cap = 1000 if tier == "quick" else 3500
    big = 12 if tier == "quick" else 16
    while True:
        large = rng.random() < 0.12
        cr = crystal(rng, maxsites=rng.choice([24, 40, 48]), minsites=17) if large else crystal(rng, maxsites=rng.choice([4, 6, 8, 9, big]))
        if large and rng.random() < 0.35:           # no symmetry
            N, n = rng.choice([20, 24]), rng.choice([20, 32, 40])
            cr = {"N": N, "G": [[30, 1, 2], [1, 32, 3], [2, 3, 36]], "name": "p1", "nums": [rng.choice(KINDS)] * n,
                  "sites": [list(s) for s in {tuple(rng.randrange(N) for _ in range(3)) for _ in range(n)}]}
            cr["nums"] = cr["nums"][:len(cr["sites"])]
        elif large and rng.random() < 0.4:          # nearly all atoms of one element, without much symmetry
            z, n = rng.choice(KINDS), len(cr["nums"])
            odd = rng.sample(range(n), rng.randint(0, 3))
            cr = dict(cr, nums=[y if i in odd else z for i, y in enumerate(cr["nums"])])
        cr = listing(rng, vary(rng, almost(rng, cr)))
        n = len(cr["sites"])
        kinds = sorted(set(cr["nums"]))
        mode = rng.choice(["any", "any", "ele", "ele", "ele", "wy", "tri", "tri_ele", "dup", "dup_ele"])
        if large:
            mode = rng.choice(["any", "ele", "wy", "wy", "tri", "tri_ele", "dup", "dup_ele"])
        z = rng.choice([0, 0, kinds[-1]] + KINDS)
        ele = rng.choice(kinds)
        A = n if mode in ("any", "dup", "tri", "wy") else cr["nums"].count(ele)
        op = {"mode": mode, "z": z, "ele": ele, "w": rng.randrange(n), "z2": 0, "n2": 0}
        if mode in ("tri", "tri_ele"):
            op["z2"] = rng.choice([k for k in [0] + KINDS if k != z])
            op["n"] = rng.randint(0, min(A, 2) if large else A)
            op["n2"] = rng.randint(0, min(A - op["n"], 1) if large else A - op["n"])
            size = comb(A, op["n"]) * comb(A - op["n"], op["n2"])
        else:
            op["n"] = rng.randint(1, min(A, 3)) if large and A else rng.randint(0, A)
            if rng.random() < 0.04:
                op["n"] = A + 1
            size = comb(A, op["n"])
        if size <= cap:
            break
    return {"cr": cr, "opt": precise_opt(rng, cr, rng.choice([0, 0, 0, 1])), "op": op}


def run(inp):
    from ababe.stru.element import Specie
    from ababe.stru.sogen import OccupyGenerator
    cr, op = inp["cr"], inp["op"]
    cell = build_cell(cr, inp["opt"])
    before = snapshot(cell)
    ogg = OccupyGenerator(cell)
    sp, sp2, ele = Specie.from_num(op["z"]), Specie.from_num(op["z2"]), Specie.from_num(op["ele"])
    wyck = [ord(str(w)) for w in ogg.wyckoffs]
    m = op["mode"]
    if m == "any":
        g = ogg.gen_nodup_unitary(op["n"], sp)
    elif m == "ele":
        g = ogg.gen_nodup_of_ele(ele, op["n"], sp)
    elif m == "wy":
        g = ogg.gen_nodup(chr(wyck[op["w"]]), op["n"], sp)
    elif m == "tri":
        g = ogg.gen_nodup_trinary_alloy(sp, op["n"], sp2, op["n2"])
    elif m == "tri_ele":
        g = ogg.gen_nodup_trinary_alloy(sp, op["n"], sp2, op["n2"], ele)
    elif m == "dup":
        g = ogg.gen_dup_unitary(op["n"], sp)
    else:
        g = ogg.gen_dup_of_ele(ele, op["n"], sp)
    cells = take(g, 8000)
    L, P = np.array(before[0]), np.array(before[1])
    geom = all(c.positions.shape == P.shape and np.allclose(c.lattice, L, atol=1e-9)
               and np.allclose(c.positions, P, atol=1e-9) for c in cells)
    return {"mother": read_cell(cell, cr["N"]), "wyck": wyck,
            "cells": [intlist(c.numbers) for c in cells],
            "geom": bool(geom), "intact": snapshot(cell) == before}
