# C09: the editable cell
import itertools

import numpy as np

from common import GRAMS, KINDS, grid, intlist, lattice_from_gram, micro

NAMES = ["append", "append_site", "extend", "append_sites", "iadd", "insert", "insert", "pop", "pop", "pop_last", "del", "del",
         "remove_site", "remove_last", "remove_sites", "set", "set", "get", "reverse", "clear", "remove", "translate", "translate",
         "copy", "copy", "eq", "eq", "eq", "len", "to_fixed", "through_fixed",
         "extend_cell", "append_sites_cell", "iadd_cell", "append_from", "append_from", "del_slice", "set_slice", "get_slice"]


def gen(rng, i, tier, suite):
    gram = GRAMS[rng.choice(sorted(GRAMS))]
    N = rng.choice([4, 4, 5, 6, 8, 12, 100])
    if i < len(suite):
        return {"what": "edit", "N": 4, "G": gram, "rot": rng.choice([0, 7]), "cells": [{"lat": 1, "sites": []}],
                "ops": suite[i], "src": "model"}

    def site():
        return [rng.choice(KINDS[:3] + [0]), rng.randrange(N), rng.randrange(N), rng.randrange(N)]
    pool = [site() for _ in range(5)]

    def some():
        if rng.random() < 0.15:         # differs from another in one respect only
            s = list(rng.choice(pool))
            k = rng.randrange(4)
            s[k] = rng.choice(KINDS[:3] + [0]) if k == 0 else rng.randrange(N)
            return s
        return list(rng.choice(pool)) if rng.random() < 0.6 else site()
    if rng.random() < 0.12:
        return {"what": "perturb", "N": N, "G": gram, "rot": 3, "seed": rng.randrange(10**6),
                "cells": [{"lat": 1, "sites": [site() for _ in range(rng.choice([1, 2, 4, 8, 12, 20]))]}],
                "dist": rng.choice([0, 10**5, 2 * 10**7, 10**7, 5 * 10**7, 10**8])}
    cells = [{"lat": rng.choice([1, 1, 2]), "sites": [some() for _ in range(rng.choice([1, 1, 2, 3, 5]))]}
             for _ in range(rng.choice([1, 2, 2]))]
    nh = len(cells)
    ops = []
    size = [len(c["sites"]) for c in cells]
    for _ in range(rng.choice([4, 8, 16, 30] if tier == "quick" else [8, 20, 40, 80])):
        o = {"op": rng.choice(NAMES), "h": rng.randint(1, nh), "h2": rng.randint(1, nh), "i": 0, "is": [], "sites": [], "v": [0, 0, 0]}
        n = size[o["h"] - 1]
        k = o["op"]
        if k == "copy" and nh >= 5 or k == "clear" and rng.random() < 0.7:
            o["op"] = k = "append"
        if k in ("to_fixed", "through_fixed") and n == 0:
            o["op"] = k = "append"
        o["i"] = rng.randint(-n, n - 1) if n and rng.random() < 0.9 else rng.randint(-n - 2, n + 2)
        if k in ("append", "append_site", "insert", "set"):
            o["sites"] = [some()]
        elif k in ("extend", "append_sites", "iadd"):
            o["sites"] = [some() for _ in range(rng.randint(0, 3))]
        elif k == "remove_sites":
            o["is"] = [rng.randrange(n) for _ in range(rng.randint(0, 3))] if n else []
        elif k in ("del_slice", "set_slice", "get_slice"):
            o["is"] = [rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1)]
            if k == "set_slice":
                o["sites"] = [some() for _ in range(rng.randint(0, 3))]
        elif k == "append_from":
            m = size[o["h2"] - 1]
            o["i"] = rng.randint(-m, m - 1) if m else 0
        elif k == "translate":
            o["v"] = [rng.randint(-N, N) for _ in range(3)] if rng.random() < 0.5 else [rng.randint(-1, 1) for _ in range(3)]
        valid = -n <= o["i"] < n
        if k in ("append", "append_site", "insert"):
            size[o["h"] - 1] += 1
        elif k in ("extend", "append_sites", "iadd"):
            size[o["h"] - 1] += len(o["sites"])
        elif (k in ("pop", "del", "remove_site", "remove") and valid) or (k in ("pop_last", "remove_last") and n):
            size[o["h"] - 1] -= 1
        elif k == "remove_sites":
            size[o["h"] - 1] -= len(set(o["is"]))
        elif k == "clear":
            size[o["h"] - 1] = 0
        elif k in ("extend_cell", "append_sites_cell", "iadd_cell"):
            if n + size[o["h2"] - 1] > 24:
                continue
            size[o["h"] - 1] += size[o["h2"] - 1]
        elif k == "append_from":
            size[o["h"] - 1] += 1 if size[o["h2"] - 1] else 0
        elif k in ("del_slice", "set_slice"):
            x = list(range(n))
            x[o["is"][0]:o["is"][1]] = o["sites"]
            size[o["h"] - 1] = len(x)
        elif k == "copy":
            nh += 1
            size.append(n)
        ops.append(o)
        if k == "copy" and size[o["h"] - 1] and rng.random() < 0.7:
            a, b = rng.choice([(o["h"], nh), (nh, o["h"])])
            ops.append({"op": "translate", "h": a, "h2": b, "i": rng.randrange(size[a - 1]), "is": [], "sites": [],
                        "v": rng.choice([[0, 0, 1], [0, -1, 0], [1, 0, 0], [0, 0, 0]])})
            ops.append({"op": "eq", "h": a, "h2": b, "i": 0, "is": [], "sites": [], "v": [0, 0, 0]})
    return {"what": "edit", "N": N, "G": gram, "rot": rng.choice([0, 7]), "cells": cells, "ops": ops, "src": "random"}


def run(inp):
    import random
    from ababe.stru.scaffold import ModifiedCell
    from ababe.stru.element import Specie
    from ababe.stru.site import Site
    N = inp["N"]
    L1 = lattice_from_gram(inp["G"], random.Random(inp["rot"]), bool(inp["rot"]))
    L2 = L1.copy()
    L2[0] = L2[0] * 1.25
    lats = {1: L1, 2: L2}

    def mk(s):
        z = int(s[0])
        how = (z + sum(s[1:])) % 3
        return Site([x / N for x in s[1:]], z if how == 0 else Specie.from_num(z) if how == 1 else Specie.to_name(z))

    def build(c):
        S = c["sites"]
        if S:
            return ModifiedCell(lats[c["lat"]].copy(), np.array([[x / N for x in s[1:]] for s in S]), np.array([s[0] for s in S]))
        m = ModifiedCell(lats[c["lat"]].copy())
        m.clear()
        return m

    def site_of(s):
        return [int(s.element.Z)] + grid([s.position], N, tol=1e-3)[0]

    def read(m):
        lat = [k for k in (1, 2) if np.allclose(m.lattice, lats[k], atol=1e-9)]
        return {"lat": lat[0] if lat else 0, "sites": [site_of(s) for s in m]}

    def views(m):
        n = len(m)
        a = [site_of(s) for s in m]
        if n == 0:
            return a == [] and len(list(iter(m))) == 0
        b = [[z] + p for z, p in zip(intlist(m.numbers), grid(m.positions, N, tol=1e-3))]
        c = [site_of(m[j]) for j in range(n)]
        return a == b and a == c and len(a) == n

    def independent(m):
        """Whatever is done to a copy, or to what was copied, cannot be seen in the other."""
        def spoil(x):
            for s in x:
                s.position = (0.111, 0.222, 0.333)
                s.element = Specie("Xe")
            np.asarray(x.lattice)[:] = 17.0
            x.append(mk([1, 0, 0, 0]))
        was = read(m)
        spoil(m.copy())
        if read(m) != was:
            return False
        a = m.copy()
        b = a.copy()
        spoil(a)
        return read(b) == was

    cells = [build(c) for c in inp["cells"]]
    if inp["what"] == "perturb":
        np.random.seed(inp["seed"])
        m = cells[0]
        keep = m.copy()
        p0 = np.array(m.positions, float)
        z0 = m.numbers.tolist()
        m.perturb(inp["dist"] / 10**8)
        d = np.array(m.positions, float) - p0
        d -= np.rint(d)
        T = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
        mv = [np.sqrt((np.matmul(x + T, L1)**2).sum(axis=1)).min() for x in d]
        return {"moved": [micro(x, 10**8) for x in mv], "same_species": m.numbers.tolist() == z0,
                "copy_intact": bool(np.allclose(keep.positions, p0, atol=1e-12))}
    start = [read(m) for m in cells]
    fixed = []                     # fixed cells handed out, with their contents at that time
    steps = []
    for o in inp["ops"]:
        m = cells[o["h"] - 1]
        k, i = o["op"], o["i"]
        err, ret, fx, apart = False, [], [], True
        try:
            if k == "append":
                m.append(mk(o["sites"][0]))
            elif k == "append_site":
                m.append_site(mk(o["sites"][0]))
            elif k == "extend":
                m.extend([mk(s) for s in o["sites"]])
            elif k == "append_sites":
                m.append_sites([mk(s) for s in o["sites"]])
            elif k == "iadd":
                m += [mk(s) for s in o["sites"]]
                cells[o["h"] - 1] = m
            elif k == "extend_cell":
                m.extend(cells[o["h2"] - 1])
            elif k == "append_sites_cell":
                m.append_sites(cells[o["h2"] - 1])
            elif k == "iadd_cell":
                m += cells[o["h2"] - 1]
                cells[o["h"] - 1] = m
            elif k == "append_from":
                m.append(cells[o["h2"] - 1][i])
            elif k == "del_slice":
                del m[o["is"][0]:o["is"][1]]
            elif k == "set_slice":
                m[o["is"][0]:o["is"][1]] = [mk(s) for s in o["sites"]]
            elif k == "get_slice":
                ret = [site_of(s) for s in m[o["is"][0]:o["is"][1]]]
            elif k == "insert":
                m.insert(i, mk(o["sites"][0]))
            elif k == "pop":
                ret = site_of(m.pop(i))
            elif k == "pop_last":
                ret = site_of(m.pop())
            elif k == "del":
                del m[i]
            elif k == "remove_site":
                m.remove_site(i)
            elif k == "remove_last":
                m.remove_site()
            elif k == "remove_sites":
                m.remove_sites(list(o["is"]))
            elif k == "set":
                m[i] = mk(o["sites"][0])
            elif k == "get":
                ret = site_of(m[i])
            elif k == "reverse":
                m.reverse()
            elif k == "clear":
                m.clear()
            elif k == "remove":
                m.remove(m[i])
            elif k == "translate":
                m.translate_sites(i, np.matmul(np.array(o["v"], float) / N, np.array(m.lattice)))
            elif k == "copy":
                cells.append(m.copy())
                apart = apart and independent(m)
            elif k == "eq":
                r = m == cells[o["h2"] - 1]
                ret = [1 if r else 0]
                if (not (m != cells[o["h2"] - 1])) != bool(r):
                    ret = [2]
            elif k == "len":
                ret = [len(m)]
            elif k in ("to_fixed", "through_fixed"):
                g = m.to_gcell()
                fx = [[z] + p for z, p in zip(intlist(g.numbers), grid(g.positions, N, tol=1e-3))]
                if k == "to_fixed":
                    fixed.append((g, fx))
                else:
                    cells[o["h"] - 1] = ModifiedCell.from_gcell(g)
        except (IndexError, ValueError, TypeError, KeyError):
            err = True
        obs = {"cells": [read(c) for c in cells], "err": err, "ret": ret, "fixed": fx,
               "apart": apart, "views": all(views(c) for c in cells),
               "fixed_intact": all([[z] + p for z, p in zip(intlist(g.numbers), grid(g.positions, N, tol=1e-3))] == f for g, f in fixed)}
        steps.append({"op": o, "obs": obs})
    return {"start": start, "steps": steps}
