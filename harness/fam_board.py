# C18: site grids (three and two dimensional)
from math import comb

import numpy as np

from common import HELD, KINDS, Malformed, held, take


def gen(rng, i, tier):
    dim = rng.choice([3, 3, 3, 2])
    def shape():
        s = [rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)]
        if dim == 2:
            s[0] = 1
        return s
    K = [0] + rng.sample(KINDS, 2)
    r = rng.random()
    if dim == 3 and r < 0.2:
        while True:
            sh = shape()
            n = sh[0] * sh[1] * sh[2]
            k = rng.randint(0, n)
            if comb(n, k) <= 500:
                break
        return {"what": "place", "shape": sh, "y": K[rng.randrange(3)], "z": K[rng.randrange(3)], "k": k, "dim": 3}
    if dim == 3 and r < 0.25:
        return {"what": "fill", "shape": shape(), "y": K[rng.randrange(3)], "z": K[rng.randrange(3)], "dim": 3}
    boards = []
    for _ in range(rng.choice([1, 1, 2])):
        sh = shape() if not boards or rng.random() < 0.3 else boards[0]["shape"]
        n = sh[0] * sh[1] * sh[2]
        boards.append({"shape": sh, "cells": [rng.choice(K) for _ in range(n)]})
    shapes = [b["shape"] for b in boards]
    ops = []
    names = ["set"] * 6 + ["copy", "copy", "eq", "eq", "eq", "get", "get", "through_array", "sea", "scribble"] if dim == 3 else \
        ["eq", "eq", "through_array", "sea", "scribble"]
    for _ in range(rng.choice([5, 10, 20] if tier == "quick" else [10, 30, 60])):
        k = rng.choice(names)
        if k in ("copy", "through_array", "sea") and len(shapes) >= 5:
            k = names[0]
        h = rng.randint(1, len(shapes))
        sh = shapes[h - 1]
        o = {"op": k, "h": h, "h2": rng.randint(1, len(shapes)), "p": [rng.randrange(s) for s in sh], "z": rng.choice(K)}
        if k == "through_array":
            o["form"] = rng.choice(HELD)
        if k == "sea":
            o["p"] = shape() if rng.random() < 0.5 else list(sh)
            shapes.append(o["p"])
        elif k in ("copy", "through_array"):
            shapes.append(sh)
        ops.append(o)
    return {"what": "history", "dim": dim, "boards": boards, "ops": ops}


def run(inp):
    from ababe.stru.element import GhostSpecie, Specie
    from ababe.stru.scaffold import SitesGrid
    from ababe.stru.scaffold2d import SitesGrid2d
    three = inp["dim"] == 3
    cls = SitesGrid if three else SitesGrid2d

    def sp(z):
        return GhostSpecie() if z == 0 else Specie.from_num(z)

    def arr(b):
        a = b.to_array() if three else b.get_array()
        a = np.asarray(a)
        return a if three else a.reshape((1,) + a.shape)

    def read(b):
        a = arr(b)
        if a.ndim != 3:
            raise Malformed("array of shape %r" % (a.shape,))
        return {"shape": [int(x) for x in a.shape], "cells": [int(x) for x in a.flatten().tolist()]}

    def views(b):
        a = arr(b)
        if not three:
            return (b.width, b.length) == a.shape[1:]
        ok = (b.depth, b.width, b.length) == a.shape
        return ok and all(b[p].Z == a[p] for p in np.ndindex(*a.shape))

    if inp["what"] == "place":
        g = SitesGrid.gen_speckle(sp(inp["y"]), tuple(inp["shape"]), sp(inp["z"]), inp["k"])
        rs = [read(b) for b in take(g, 2000)]
        return {"all": [r["cells"] for r in rs], "shapes": [r["shape"] for r in rs]}
    if inp["what"] == "fill":
        rs = [read(SitesGrid.random_fill(sp(inp["y"]), tuple(inp["shape"]), sp(inp["z"]))) for _ in range(160)]
        return {"all": [r["cells"] for r in rs], "shapes": [r["shape"] for r in rs]}

    def build(b):
        a = np.array(b["cells"]).reshape(b["shape"])
        if not three:
            a = a[0]
        L = np.vectorize(sp, otypes=[object])(a).tolist()
        return cls(L)
    bs = [build(b) for b in inp["boards"]]
    steps = []
    for o in inp["ops"]:
        b = bs[o["h"] - 1]
        k, ret = o["op"], []
        if k == "set":
            b[tuple(o["p"])] = sp(o["z"])
        elif k == "get":
            ret = [int(b[tuple(o["p"])].Z)]
        elif k == "copy":
            bs.append(b.deepCopy())
        elif k == "through_array":
            a = b.to_array() if three else b.get_array()
            bs.append(cls.from_array(held(a, o["form"])))
            a[...] = 7
        elif k == "scribble":
            a = b.to_array() if three else b.get_array()
            a[...] = 9
        elif k == "eq":
            r = bool(b == bs[o["h2"] - 1])
            ret = [1 if r else 0]
            if bool(b == None):            # noqa: E711
                ret = [2]
        elif k == "sea":
            size = tuple(o["p"]) if three else tuple(o["p"][1:])
            bs.append(cls.sea(*size, sp(o["z"])) if o["z"] else cls.sea(*size))
        steps.append({"op": o, "obs": {"boards": [read(x) for x in bs], "ret": ret, "views": bool(all(views(x) for x in bs))}})
    return {"steps": steps}
