# C13: the buckyball
import json
import os

import numpy as np

from common import Malformed, intlist, take

SPS = [5, 7, 8, 16, 1, 11, 56, 55]
_geo = {}


def geometry():
    """Bonds and automorphisms of the cage, from the positions the code reports."""
    if "edges" not in _geo:
        from ababe.stru.buckyball import Structure
        L, pos, _ = Structure([6] * 60).spg_cell
        c = np.matmul(np.asarray(pos, float), np.asarray(L, float))
        d = np.linalg.norm(c[:, None] - c[None], axis=2)
        _geo["edges"] = [[i + 1, j + 1] for i in range(60) for j in range(i + 1, 60) if d[i, j] < 2.0]
    return _geo["edges"]


def own_perms():
    """Symmetries found from the bonds by our own search; used only to choose inputs."""
    if "perms" not in _geo:
        nb = {i: set() for i in range(60)}
        for a, b in geometry():
            nb[a - 1].add(b - 1)
            nb[b - 1].add(a - 1)
        out = []
        order, par = [0], {}
        for v in order:
            for w in sorted(nb[v]):
                if w not in par and w != 0:
                    par[w] = v
                    order.append(w)

        def ext(k, m, used):
            if k == len(order):
                out.append([m[v] for v in range(60)])
                return
            v = order[k]
            for w in nb[m[par[v]]]:
                if w not in used and all((x in m) <= (m.get(x) in nb[w]) for x in nb[v]):
                    m[v] = w
                    used.add(w)
                    ext(k + 1, m, used)
                    used.discard(w)
                    del m[v]
        if all(len(x) == 3 for x in nb.values()):
            for s in range(60):
                ext(1, {0: s}, {s})
        _geo["perms"] = out or [list(range(60))]
    return _geo["perms"]


def sparse(a):
    a = intlist(a)
    if len(a) != 60:
        raise Malformed("%d sites" % len(a))
    return [[i + 1, z] for i, z in enumerate(a) if z != 6]


def dense(c):
    a = [6] * 60
    for i, z in c:
        a[i - 1] = z
    return np.array(a)


FORMS = ["i8", "i4", "i2", "u1", "rev", "step"]


def as_form(a, form):
    """The same coloring as a user might hold it: other integer types, other memory layouts."""
    if form == "rev":
        return np.array(a[::-1])[::-1]
    if form == "step":
        return np.repeat(a, 2)[::2]
    return a.astype(np.dtype(form))


def random_coloring(rng, k=None, zs=None):
    zs = zs or rng.sample(SPS + [0], rng.choice([1, 1, 2]))
    k = rng.choice([0, 1, 2, 2, 3, 3, 4, 6, 30, 60]) if k is None else k
    return sorted([i + 1, rng.choice(zs)] for i in rng.sample(range(60), k))


def collisions():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "collisions.json")
    return json.load(open(p))["bucky"]


def gen(rng, i, tier):
    if i < 2:
        return {"what": "table"}
    if i in (2, 3) or (tier != "quick" and i % 400 == 4):
        return {"what": "mass", "seed": rng.randrange(10**6), "n": 9000 if tier == "quick" else 11000}
    r = rng.random()
    if r < 0.5:
        zs = rng.sample(SPS + [0], rng.choice([1, 1, 2]))
        base = [random_coloring(rng, rng.choice([0, 1, 2, 2, 3, 3, 4, 5]), zs) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.3:
            for p in rng.sample(collisions(), 3):
                base += p
        if rng.random() < 0.2:
            base.append(random_coloring(rng))
        stream = []
        P = own_perms()
        for _ in range(rng.randint(1, 14) if len(base) < 8 else 10):
            c = rng.choice(base)
            q = rng.random()
            if q < 0.5:
                p = rng.choice(P)
                c = sorted([p[x - 1] + 1, z] for x, z in c)
            elif q < 0.65 and c:      # nearly the same
                c = [list(x) for x in c]
                x = rng.choice(c)
                y = rng.randint(1, 60)
                if y not in [a for a, _ in c]:
                    x[0] = y
                c = sorted(c)
            stream.append(c)
        stream += base if rng.random() < 0.3 else []
        forms = [rng.choice(FORMS) for _ in stream] if rng.random() < 0.5 else ["i8"] * len(stream)
        return {"what": "stream", "stream": stream, "forms": forms}
    if r < 0.8:
        sp = rng.choice(SPS)
        if rng.random() < 0.4:
            init, nmax = [], rng.choice([1, 2, 2, 3] if tier == "quick" else [2, 3, 3])
        else:
            init = random_coloring(rng, rng.choice([1, 2, 3]), [sp] if rng.random() < 0.5 else SPS[:2])
            nmax = sum(1 for _, z in init if z == sp) + rng.choice([-1, 0, 1, 2])
            nmax = max(0, nmax)
        lv = max(0, nmax - sum(1 for _, z in init if z == sp)) + 1
        if init == [] and nmax == 3 and rng.random() < (0.5 if tier == "quick" else 0):
            nmax, lv = 2, 3
        plan = []
        for _ in range(rng.choice([0, 0, 2, 5])):
            plan.append([rng.randrange(lv), rng.randint(1, 4)])
        order = list(range(lv))
        if rng.random() < 0.6:
            rng.shuffle(order)
        drain = order if rng.random() < 0.75 else order[:rng.randint(0, lv)]
        return {"what": "levels", "init": init, "sp": sp, "nmax": nmax, "plan": plan, "drain": drain}
    if r < 0.88:
        return {"what": "all", "sp": rng.choice(SPS), "n": rng.choice([0, 1, 2, 59, 60])}
    zs = rng.sample(SPS, 2)
    return {"what": "onemore", "sp": rng.choice(zs), "stream": [random_coloring(rng, rng.choice([0, 1, 2, 2, 5]), zs)
                                                              for _ in range(rng.randint(1, 5))]}


def mass(inp):
    """Colorings no two of which hold the same numbers of atoms, so no two are equivalent."""
    import random
    rng = random.Random(inp["seed"])
    out, seen = [], set()
    while len(out) < inp["n"]:
        cut = sorted(rng.sample(range(61), 4))
        k = (cut[0], cut[1] - cut[0], cut[2] - cut[1], cut[3] - cut[2])
        if k in seen:
            continue
        seen.add(k)
        a = [5] * k[0] + [7] * k[1] + [8] * k[2] + [9] * k[3]
        a += [6] * (60 - len(a))
        rng.shuffle(a)
        out.append(a)
    return out


def run(inp):
    from ababe.stru.buckyball import Structure
    from ababe.stru.element import Specie
    w = inp["what"]
    _geo.pop("edges", None)
    edges = geometry()
    res = {"edges": edges}
    s = Structure([6] * 60)
    if w == "table":
        perms = [intlist(p) for p in s.get_symmetry_permutation()]
        list(s.to_nodup_generator(iter([dense([[1, 5]]), dense([[2, 5]])])))
        again = [intlist(p) for p in Structure(np.array([5] * 60)).get_symmetry_permutation()]
        return dict(res, perms=[[x + 1 for x in p] for p in perms], again=again == perms)
    if w == "stream":
        arrs = [as_form(dense(c), f) for c, f in zip(inp["stream"], inp["forms"])]
        left = list(range(len(arrs)))
        kept = []
        def feed():
            for a in arrs:
                yield a
        for a in take(s.to_nodup_generator(feed()), len(arrs) + 1):
            # in order of appearance: the next place in the stream with these contents
            c = sparse(a)
            while left and inp["stream"][left[0]] != c:
                left.pop(0)
            kept.append(left.pop(0) + 1 if left else -1)
        return dict(res, kept=kept, intact=[sparse(a) for a in arrs] == inp["stream"])
    if w == "mass":
        cols = mass(inp)
        n = 0
        for a in s.to_nodup_generator(np.array(c) for c in cols):
            n += 1
            if n > len(cols):
                break
        return dict(res, seen=cols, count=n)
    if w == "levels":
        st = Structure(dense(inp["init"]))
        sp = Specie.from_num(inp["sp"])
        gens = []
        for g in Structure.all_speckle_gen(st, inp["nmax"], sp):
            gens.append(g)
            if len(gens) > 12:
                break
        lv = [{"cells": [], "drained": False} for _ in gens]

        def pull(k, n):
            if k >= len(gens):
                return
            while n:
                try:
                    lv[k]["cells"].append(sparse(next(gens[k])))
                except StopIteration:
                    lv[k]["drained"] = True
                    return
                if len(lv[k]["cells"]) > 6000:
                    raise Malformed("level does not end")
                n -= 1
        for k, n in inp["plan"]:
            pull(k, n)
        for k in inp["drain"]:
            pull(k, -1)
        return dict(res, nlevels=len(gens), levels=lv, n0=int(st.get_speckle_num(sp)))
    sp = Specie.from_num(inp["sp"])
    if w == "all":
        return dict(res, cells=[sparse(a) for a in take(Structure.gen_speckle(sp, inp["n"]), 2000)])
    arrs = [dense(c) for c in inp["stream"]]
    cells = [sparse(a) for a in take(s.add_one_speckle_generator(iter(arrs), sp), 2000)]
    one = [sparse(a) for a in take(Structure.help_add_one_speckle(list(dense(inp["stream"][0])), sp), 100)]
    return dict(res, cells=cells, one=one, intact=[sparse(a) for a in arrs] == inp["stream"])
