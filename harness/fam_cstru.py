# C12: grid structures: enumeration, placement, equality, separation
import itertools
import random

import numpy as np

from common import GRAMS, HELD, KINDS, Malformed, gram_of, grid, held, intlist, lattice_from_gram, micro, rotations, take, to_int

# four times the Gram matrices of the named lattices
NAMED = {"scc": [[4, 0, 0], [0, 4, 0], [0, 0, 4]],
         "fcc": [[2, 1, 1], [1, 2, 1], [1, 1, 2]],
         "bcc": [[3, -1, -1], [-1, 3, -1], [-1, -1, 3]],
         "triflat": [[1600, 0, 0], [0, 4, 2], [0, 2, 4]]}


def lat(inp):
    if inp["lat"] in NAMED:
        from ababe.stru.sogen import lat_dict
        return lat_dict(inp["lat"])
    L = lattice_from_gram(inp["G"], random.Random(inp["rot"]), bool(inp["rot"]))
    return L.tolist()


def size_of(rng, top):
    while True:
        s = [rng.choice([1, 1, 2, 2, 3, 4, 5, 6]) for _ in range(3)]
        if 1 <= s[0] * s[1] * s[2] <= top:
            return s


def pick_lattice(rng, named=0.5):
    if rng.random() < named:
        k = rng.choice(sorted(NAMED))
        return k, NAMED[k], 0
    k = rng.choice(sorted(GRAMS))
    return "own", GRAMS[k], rng.choice([0, rng.randrange(1, 10**6)])


def lcm3(s):
    from math import gcd
    n = 1
    for x in s:
        n = n * x // gcd(n, x)
    return n


def gen(rng, i, tier):
    what = rng.choice(["enum", "enum", "enum", "dup", "cell", "equal", "equal", "sep", "sep"])
    z, y = rng.sample([0] + KINDS, 2)
    if rng.random() < 0.08 and what in ("enum", "dup"):
        y = z
    name, G, rot = pick_lattice(rng)
    if what == "sep":
        name = rng.choice(sorted(NAMED))
        G, rot = NAMED[name], 0
    inp = {"what": what, "lat": name, "G": G, "rot": rot, "sea": z, "sp": y, "form": rng.choice(HELD)}
    if what in ("enum", "dup"):
        s = size_of(rng, 12 if tier == "quick" else 16)
        if name == "triflat":
            s[0] = min(s[0], 3)
        n = s[0] * s[1] * s[2]
        top = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 8: 8}.get(n, 4 if n <= 12 else 3)
        inp.update(size=s, n=rng.choice([rng.randint(0, top), rng.randint(1, max(1, min(top, n))), min(2, n), n + 1]))
        from math import comb
        if comb(n, inp["n"]) > 1300:
            inp["n"] = 2
    elif what == "cell":
        s = size_of(rng, 40)
        inp.update(size=s, arr=[rng.choice([0] + KINDS) for _ in range(s[0] * s[1] * s[2])])
    elif what == "equal":
        if rng.random() < 0.1:
            s = rng.choice([[11, 10, 10], [2, 20, 26], [1, 1, 1010 // 2 * 1], [6, 14, 12]])
            if s[2] > 400:
                s = [3, 20, 18]
        else:
            s = size_of(rng, 48)
        inp["size"] = s
        gen_equal(rng, inp)
    else:
        s = size_of(rng, 36)
        n = s[0] * s[1] * s[2]
        k = rng.choice([0, 1, 1, 2, 2, 3, rng.randint(0, n)])
        on = set(rng.sample(range(n), min(n, k)))
        inp.update(size=s,
                   arr=[y if j in on else z if rng.random() < 0.9 else KINDS[0] for j in range(n)])
    return inp


def gen_equal(rng, inp):
    """Two arrangements and a set of operations of the empty periodic grid."""
    s, G = inp["size"], inp["G"]
    D = [[s[0], 0, 0], [0, s[1], 0], [0, 0, s[2]]]
    N = lcm3(s)
    R = []
    for r in rotations(gram_of(D, G)):
        # does it map the grid onto itself?  r acts on fractions; the grid steps are 1/s
        if all((r[a][b] * s[a]) % s[b] == 0 for a in range(3) for b in range(3)):
            R.append(r)
    pts = list(itertools.product(range(s[0]), range(s[1]), range(s[2])))
    n = len(pts)
    idx = {p: k for k, p in enumerate(pts)}

    def op():
        return [rng.choice(R), [rng.randrange(s[a]) for a in range(3)]]

    def apply(o, arr):
        out = [None] * n
        for k, p in enumerate(pts):
            q = []
            for a in range(3):
                x = sum(o[0][a][b] * p[b] * (N // s[b]) for b in range(3)) + o[1][a] * (N // s[a])
                q.append((x % N) // (N // s[a]))
            out[idx[tuple(q)]] = arr[k]
        return out
    z, y = inp["sea"], inp["sp"]
    A = [z] * n
    for k in rng.sample(range(n), min(n, rng.choice([1, 2, 3, 4, n // 2]))):
        A[k] = y
    ops = [op() for _ in range(rng.choice([1, 2, 4]))]
    r = rng.random()
    if r < 0.5:
        B = A
        A = apply(rng.choice(ops), A)
    elif r < 0.65:
        B = A
        A = apply(op(), A)
    else:
        B = list(A)
        rng.shuffle(B)
    if rng.random() < 0.3:          # a small difference far inside
        k = rng.randrange(n)
        B = list(B)
        B[k] = y if B[k] == z else z
    inp.update(A=A, B=B, ops=ops)


def run(inp):
    from ababe.stru.element import Specie
    from ababe.stru.scaffold import CStru, SitesGrid
    from ababe.stru import sogen
    m = lat(inp)
    s = inp["size"]
    n = s[0] * s[1] * s[2]
    sea, sp = Specie.from_num(inp["sea"]), Specie.from_num(inp["sp"])

    def flat(c):
        a = np.asarray(c.get_array())
        if list(a.shape) != s:
            raise Malformed("array of shape %r" % (a.shape,))
        if not np.allclose(np.array(c.m, float), np.array(m, float), atol=1e-9):
            raise Malformed("the lattice changed")
        return intlist(a.reshape(-1))
    w = inp["what"]
    if w == "enum":
        return {"cells": [flat(c) for c in take(sogen.gen_nodup_cstru(m, sea, tuple(s), sp, inp["n"]), 5000)]}
    if w == "dup":
        return {"cells": [flat(c) for c in take(CStru.gen_speckle(m, sea, tuple(s), sp, inp["n"]), 5000)]}
    arr3 = lambda a: held(np.array(a, dtype=int).reshape(s), inp["form"])
    N = lcm3(s)
    if w == "cell":
        c = CStru.from_array(m, arr3(inp["arr"]))
        L, pos, num = c.get_cell()
        g = c.get_gcell()
        want = np.array(m, float) * np.array(s, float).reshape(3, 1)
        return {"sites": grid(pos, N), "nums": intlist(num), "lerr": micro(np.abs(np.asarray(L) - want).max()),
                "gsites": grid(g.positions, N), "gnums": intlist(g.numbers), "glerr": micro(np.abs(np.asarray(g.lattice) - want).max()),
                "lerr2": micro(np.abs(np.asarray(c.get_lattice()) - want).max()),
                "sites2": grid(c.get_positions(), N), "nums2": intlist(c.get_atoms()),
                "mid": [int(x) for x in c.get_midpoint()],
                "named": [[to_int(4 * x) for x in r] for r in np.matmul(np.array(m, float), np.array(m, float).T).tolist()]
                if inp["lat"] in NAMED else inp["G"]}
    if w == "equal":
        A, B = CStru.from_array(m, arr3(inp["A"])), CStru.from_array(m, arr3(inp["B"]))
        ops = [(np.array(o[0]), np.array([o[1][a] / s[a] for a in range(3)])) for o in inp["ops"]]
        # the same sites on other lattices: axes exchanged, transposed, stretched a little, another sign
        r = [list(map(float, x)) for x in m]
        alike = [[r[1], r[0], r[2]], [[x[1], x[0], x[2]] for x in r], [list(x) for x in zip(*r)], [r[0], r[1], [1.001 * v for v in r[2]]],
                 [[-v for v in r[0]], r[1], r[2]]]
        far = [a for a in alike if np.abs(np.array(a) - np.array(r)).max() > 1e-4]
        return {"res": bool(sogen.is_stru_equal(A, B, ops)), "same": bool(A == B), "none": bool(A == None),     # noqa: E711
                "alias": any(CStru.from_array(a, arr3(inp["A"])) == A or A == CStru.from_array(a, arr3(inp["A"])) for a in far)
                or not A == CStru.from_array([list(x) for x in m], arr3(inp["A"]))}
    c = CStru.from_array(m, arr3(inp["arr"]))
    return {"res": bool(sogen.is_speckle_disjunct(c, sp)), "kept": flat(c) == inp["arr"]}
