# Shared by all drivers (runs under the interpreter that has ababe installed).
import contextlib
import io
import json
import os
import random
import signal
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("ABABE_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np                                              # noqa: E402


class Malformed(Exception):
    """The implementation returned something that is not even of the right shape."""


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------- numbers
def to_int(x, what="value", tol=1e-4):
    f = float(x)
    if not (f == f and abs(f) < 2**30):
        raise Malformed("%s is %r" % (what, x))
    r = int(round(f))
    if abs(f - r) > tol:
        raise Malformed("%s %r is not on the grid" % (what, x))
    return r


def grid(arr, N, what="position", tol=2e-3):
    """Fractional coordinates as integers in units of 1/N."""
    a = np.asarray(arr, dtype=float)
    if a.ndim != 2 or a.shape[1] != 3:
        raise Malformed("%s array has shape %r" % (what, a.shape))
    return [[to_int(v * N, what, tol * N) for v in row] for row in a.tolist()]


HELD = ["as is", "fortran", "view", "small", "negative step"]


def held(a, form):
    """The same array as a user might hold it: another memory layout, another integer type."""
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "view":
        b = np.zeros(tuple(2 * x for x in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if form == "small":
        return a.astype(np.int8)
    if form == "negative step":
        return a[::-1].copy()[::-1]
    return a


def intlist(a, what="numbers"):
    a = np.asarray(a)
    if a.ndim != 1:
        raise Malformed("%s has shape %r" % (what, a.shape))
    return [to_int(v, what) for v in a.tolist()]


def micro(x, scale=10**6):
    """A float as a clipped integer, for logging residuals."""
    f = float(x)
    if not (f == f):
        return 2**30
    return int(max(-2**30, min(2**30, round(f * scale))))


# --------------------------------------------------------------- exact integer lattices
def det3(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
            - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def adj3(M):
    a, b, c = M[0]
    d, e, f = M[1]
    g, h, i = M[2]
    return [[e * i - f * h, c * h - b * i, b * f - c * e],
            [f * g - d * i, a * i - c * g, c * d - a * f],
            [d * h - e * g, b * g - a * h, a * e - b * d]]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def transpose(A):
    return [list(r) for r in zip(*A)]


def rowmul(v, M):
    return [sum(v[k] * M[k][j] for k in range(3)) for j in range(3)]


def gram_of(H, G):
    return matmul(matmul(H, G), transpose(H))


def lattice_from_gram(G, rng=None, rotate=False, lefthanded=False):
    """Rows whose Gram matrix is G."""
    L = np.linalg.cholesky(np.array(G, dtype=float))
    if rotate:
        q, r = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
        if np.linalg.det(q) < 0:
            q[:, 0] = -q[:, 0]
        L = np.matmul(L, q)
    if lefthanded:
        L = L.copy()
        L[:, 2] = -L[:, 2]
    return L


# --------------------------------------------------------------- crystals (exact)
GRAMS = {
    "cubic": [[9, 0, 0], [0, 9, 0], [0, 0, 9]],
    "tetra": [[9, 0, 0], [0, 9, 0], [0, 0, 16]],
    "ortho": [[9, 0, 0], [0, 16, 0], [0, 0, 25]],
    "hex": [[8, -4, 0], [-4, 8, 0], [0, 0, 25]],
    "hex60": [[8, 4, 0], [4, 8, 0], [0, 0, 20]],
    "fcc": [[8, 4, 4], [4, 8, 4], [4, 4, 8]],
    "bcc": [[9, -3, -3], [-3, 9, -3], [-3, -3, 9]],
    "rhomb": [[9, 2, 2], [2, 9, 2], [2, 2, 9]],
    "mono": [[9, 2, 0], [2, 14, 0], [0, 0, 20]],
    "tric": [[10, 1, 2], [1, 12, 3], [2, 3, 16]],
}

# name -> (gram, N, sites, kinds)
PROTOTYPES = [
    ("sc", "cubic", 1, [[0, 0, 0]], [0]),
    ("fcc", "fcc", 1, [[0, 0, 0]], [0]),
    ("bcc", "bcc", 1, [[0, 0, 0]], [0]),
    ("cscl", "cubic", 2, [[0, 0, 0], [1, 1, 1]], [0, 1]),
    ("rocksalt", "fcc", 2, [[0, 0, 0], [1, 1, 1]], [0, 1]),
    ("zincblende", "fcc", 4, [[0, 0, 0], [1, 1, 1]], [0, 1]),
    ("diamond", "fcc", 4, [[0, 0, 0], [1, 1, 1]], [0, 0]),
    ("perovskite", "cubic", 2, [[0, 0, 0], [1, 1, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1]], [0, 1, 2, 2, 2]),
    ("hcp", "hex", 12, [[4, 8, 3], [8, 4, 9]], [0, 0]),
    ("graphene", "hex", 6, [[2, 4, 0], [4, 2, 0]], [0, 0]),
    ("bn", "hex", 6, [[2, 4, 0], [4, 2, 0]], [0, 1]),
    ("tet1", "tetra", 2, [[0, 0, 0], [1, 1, 0]], [0, 0]),
    ("ortho2", "ortho", 2, [[0, 0, 0], [1, 1, 1]], [0, 0]),
    ("rhomb", "rhomb", 1, [[0, 0, 0]], [0]),
    ("mono1", "mono", 1, [[0, 0, 0]], [0]),
    ("tric1", "tric", 1, [[0, 0, 0]], [0]),
    ("mos2", "hex", 30, [[10, 20, 0], [20, 10, 4], [20, 10, 26]], [0, 1, 1]),
    ("fluorite", "fcc", 4, [[0, 0, 0], [1, 1, 1], [3, 3, 3]], [0, 1, 1]),
    ("rutile", "tetra", 10, [[0, 0, 0], [5, 5, 5], [3, 3, 0], [7, 7, 0], [8, 2, 5], [2, 8, 5]], [0, 0, 1, 1, 1, 1]),
]
KINDS = [5, 6, 13, 16, 22, 30, 31, 47, 56, 74]
USUAL = list(KINDS)
ALIKE = [1, 11, 2, 22, 5, 55]                        # atomic numbers whose digits run together
TABLE = list(range(1, 57)) + list(range(72, 89))


def choose_kinds(rng):
    """The species of the next case."""
    r = rng.random()
    KINDS[:] = USUAL if r < 0.4 else ALIKE if r < 0.65 else rng.sample(TABLE, len(USUAL))


def quietly(f, *a):
    """A call whose result does not matter."""
    try:
        f(*a)
    except Exception:
        pass


def decoys(L, pos, nums):
    """Other crystals that agree with the given one in part."""
    yield L * np.array([[1.31], [1.], [0.87]]), pos, nums
    if len(set(nums.tolist())) > 1:
        yield L, pos, np.roll(nums, 1)
    yield L, pos, np.where(nums == nums[0], 3, 4)
    if len(nums) > 1:
        yield L, pos[::-1] * 0.93 + 0.01, nums


def hnf(rng, n):
    """A random Hermite normal form (upper triangular rows) of determinant n."""
    opts = [(a, c, n // a // c) for a in range(1, n + 1) if n % a == 0
            for c in range(1, n // a + 1) if (n // a) % c == 0]
    a, c, f = rng.choice(opts)
    return [[a, rng.randrange(c), rng.randrange(f)], [0, c, rng.randrange(f)], [0, 0, f]]


def big_hnf(rng, top=48, entry=11):
    """A larger one, with shears near their limits as often as not."""
    if rng.random() < 0.2:                          # as far from the origin as its lattice points can get
        k = rng.choice([3, 3, 4])
        a, c, f = rng.choice([(k, k, k), (k, k, k), (k - 1, k, k), (k, k - 1, k), (k + 1, k, k)])
        return [[a, c - 1, f - 1], [0, c, f - 1], [0, 0, f]]
    while True:
        H = hnf(rng, rng.randint(2, top))
        if max(max(r) for r in H) > entry:
            continue
        if rng.random() < 0.5:
            H[0][1] = max(0, H[1][1] - rng.randint(1, 2))
            H[0][2] = max(0, H[2][2] - rng.randint(1, 2))
            H[1][2] = max(0, H[2][2] - rng.randint(1, 2))
        return H


def tile(cr, H):
    """The same crystal described in the superlattice with rows H (H upper triangular)."""
    d = det3(H)
    A = adj3(H)                     # H * A = d
    N = cr["N"]
    newN = N * d
    sites, nums = [], []
    pts = []
    seen = set()
    m = d
    for x in range(H[0][0]):
        for y in range(H[1][1]):
            for z in range(H[2][2]):
                pts.append([x, y, z])
    for s, k in zip(cr["sites"], cr["nums"]):
        for p in pts:
            v = [s[i] + N * p[i] for i in range(3)]
            w = [c % newN for c in rowmul(v, A)]          # units 1/(N d)
            sites.append(w)
            nums.append(k)
            seen.add(tuple(w))
    assert len(seen) == len(sites), (cr, H)
    del m
    return reduce_den({"N": newN, "G": gram_of(H, cr["G"]), "sites": sites, "nums": nums})


def reduce_den(cr):
    from math import gcd
    g = cr["N"]
    for s in cr["sites"]:
        for c in s:
            g = gcd(g, c)
    if g > 1:
        return dict(cr, N=cr["N"] // g, sites=[[c // g for c in s] for s in cr["sites"]])
    return cr


def prototype(rng, names=None):
    pool = [p for p in PROTOTYPES if names is None or p[0] in names]
    name, gname, N, sites, kinds = rng.choice(pool)
    zs = rng.sample(KINDS, 3)
    return {"N": N, "G": GRAMS[gname], "sites": [list(s) for s in sites],
            "nums": [zs[k] for k in kinds], "name": name}


def random_crystal(rng, maxsites=12, Ns=(2, 3, 4, 6, 8, 12)):
    """A crystal with some random translational structure."""
    while True:
        N = rng.choice(Ns)
        G = GRAMS[rng.choice(sorted(GRAMS))]
        cand = [0, 0] + [N // k for k in (2, 3, 4) if N % k == 0]
        gens = [tuple(rng.choice(cand) for _ in range(3)) for _ in range(rng.randint(0, 2))]
        zs = rng.sample(KINDS, 2)
        lab = {}
        for _ in range(rng.randint(1, 4)):
            lab[tuple(rng.randrange(N) for _ in range(3))] = rng.choice([zs[0], zs[0], zs[1]])
        grown = True
        while grown and len(lab) <= maxsites:
            grown = False
            for s in sorted(lab):
                for g in gens:
                    z = tuple((s[i] + g[i]) % N for i in range(3))
                    if z not in lab:
                        lab[z] = lab[s]
                        grown = True
        if len(lab) <= maxsites:
            sites = [list(s) for s in sorted(lab)]
            return {"N": N, "G": G, "sites": sites, "nums": [lab[tuple(s)] for s in sites]}


def tame(G, cap=30000):
    """Whether TLC can find the rotations of this lattice by search in reasonable time (the number of integer vectors
    that may be as short as the longest basis vector)."""
    det = (G[0][0] * (G[1][1] * G[2][2] - G[1][2] ** 2) - G[0][1] * (G[0][1] * G[2][2] - G[1][2] * G[0][2])
           + G[0][2] * (G[0][1] * G[1][2] - G[1][1] * G[0][2]))
    m = max(G[k][k] for k in range(3))
    n = 1
    for i, j in ((1, 2), (0, 2), (0, 1)):
        n *= 2 * int((m * (G[i][i] * G[j][j] - G[i][j] ** 2) / det) ** 0.5) + 1
    return n <= cap


def crystal(rng, maxsites=12, minsites=1):
    """Prototype supercells and random crystals, as in real use."""
    while True:
        if rng.random() < 0.65:
            p = prototype(rng)
            name = p.pop("name")
            k = maxsites // len(p["sites"])
            if k < 1:
                continue
            c = tile(p, hnf(rng, rng.randint(1, k)))
            if rng.random() < 0.25:        # colour the supercell differently somewhere
                nums = list(c["nums"])
                z = rng.choice(KINDS)
                for i in rng.sample(range(len(nums)), rng.randint(1, min(2, len(nums)))):
                    nums[i] = z
                c["nums"] = nums
            c["name"] = name
        else:
            c = random_crystal(rng, maxsites)
            c["name"] = "random"
        if minsites <= len(c["sites"]) <= maxsites and c["N"] <= 48 and tame(c["G"]):
            return c


def listing(rng, cr, shuffle=True, shift=True):
    """How a user would list it: any order, any integer translations."""
    n = len(cr["sites"])
    o = list(range(n))
    if shuffle:
        rng.shuffle(o)
    sites = []
    for i in o:
        s = list(cr["sites"][i])
        if shift and rng.random() < 0.3:
            s = [c + cr["N"] * rng.choice([0, 0, 1, -1]) for c in s]
        sites.append(s)
    return dict(cr, sites=sites, nums=[cr["nums"][i] for i in o])


def precise_opt(rng, cr, left=0):
    """Options under which the numbers handed over still are this crystal to well
    within the implementation's symmetry tolerance (1e-3)."""
    if cr["N"] > 48 or max(cr["G"][i][i] for i in range(3)) > 800:
        return {"rnd": 0, "rot": rng.choice([0, 0, rng.randrange(1, 10**6)]), "left": left}
    if cr["N"] <= 12 and max(cr["G"][i][i] for i in range(3)) <= 30 and rng.random() < 0.2:
        # numbers given to three decimals, with a tolerance to match; or a tighter tolerance than usual
        if rng.random() < 0.6:
            return {"rnd": 3, "rot": rng.choice([0, 0, rng.randrange(1, 10**6)]), "left": left, "tol": 0.02}
        return {"rnd": 0, "rot": rng.choice([0, 0, rng.randrange(1, 10**6)]), "left": left, "tol": 1e-5}
    big = max(cr["G"][i][i] for i in range(3))
    coarse = big <= 200 if 10**4 % cr["N"] == 0 else big <= 26
    return {"rnd": rng.choice([0, 0, 4 if coarse else 0, 6]),
            "rot": rng.choice([0, 0, rng.randrange(1, 10**6)]), "left": left}


def build_arrays(cr, opt):
    """lattice, positions, numbers as handed to the implementation.
    opt: {"rnd": decimals or 0, "rot": seed or 0, "left": 0/1}"""
    rng = random.Random(opt.get("rot", 0))
    L = lattice_from_gram(cr["G"], rng, bool(opt.get("rot")), bool(opt.get("left")))
    pos = np.array(cr["sites"], dtype=float) / cr["N"]
    if opt.get("rnd"):
        L = np.around(L, opt["rnd"])
        pos = np.around(pos, opt["rnd"])
    return L, pos, np.array(cr["nums"])


def build_cell(cr, opt):
    from ababe.stru.scaffold import GeneralCell
    return GeneralCell(*build_arrays(cr, opt), **({"symprec": opt["tol"]} if "tol" in opt else {}))


def read_cell(cell, N):
    """A GeneralCell projected onto the exact grid."""
    return {"sites": grid(cell.positions, N), "nums": intlist(cell.numbers)}


def snapshot(cell):
    return (np.array(cell.lattice, dtype=float).tolist(), np.array(cell.positions, dtype=float).tolist(),
            np.array(cell.numbers).tolist())


# exact symmetry, only used to choose interesting inputs (the oracle is the specification)
def rotations(G):
    import math
    d = det3(G)
    A = adj3(G)
    gm = max(G[i][i] for i in range(3))
    B = [math.isqrt(gm * A[i][i] // d) for i in range(3)]
    import itertools
    vs = list(itertools.product(*[range(-b, b + 1) for b in B]))

    def q(u, v):
        return sum(u[i] * G[i][j] * v[j] for i in range(3) for j in range(3))
    c = [[v for v in vs if q(v, v) == G[j][j]] for j in range(3)]
    out = []
    for a in c[0]:
        for b in c[1]:
            if q(a, b) != G[0][1]:
                continue
            for e in c[2]:
                if q(a, e) == G[0][2] and q(b, e) == G[1][2]:
                    out.append([[a[i], b[i], e[i]] for i in range(3)])
    return out


def sym_perms(cr, det=0):
    """Permutations by symmetry operations (of that determinant, if given)."""
    N = cr["N"]
    sites = [tuple(c % N for c in s) for s in cr["sites"]]
    nums = cr["nums"]
    idx = {s: i for i, s in enumerate(sites)}
    res = set()
    for R in rotations(cr["G"]):
        if det and det3(R) != det:
            continue
        im = [tuple(sum(R[i][j] * s[j] for j in range(3)) for i in range(3)) for s in sites]
        for k, y in enumerate(sites):
            if nums[k] != nums[0]:
                continue
            t = tuple((y[i] - im[0][i]) % N for i in range(3))
            p = []
            for a, m in enumerate(im):
                z = idx.get(tuple((m[i] + t[i]) % N for i in range(3)))
                if z is None or nums[z] != nums[a]:
                    break
                p.append(z)
            else:
                res.add(tuple(p))
    return res


def displaced(rng, cr, top=6000, steps=(0.008, 0.02, 0.05)):
    """Move one atom by a hundredth of an angstrom: far outside the tolerance."""
    f = top // cr["N"]
    N = cr["N"] * f
    ax = rng.randrange(3)
    u = cr["G"][ax][ax] ** 0.5 / max(N, 1)                # one unit along that axis
    if f < 2 or u > 0.1:
        return cr
    sites = [[c * f for c in s] for s in cr["sites"]]
    k = rng.randrange(len(sites))
    sites[k][ax] += max(1, int(round(max(0.008, rng.choice(steps)) / u)))
    return dict(cr, N=N, sites=sites)


def strained(rng, cr):
    """A large cell whose lattice is off a symmetric one by a few hundredths of an angstrom."""
    f = rng.choice([4, 9, 16, 25])
    G = [[f * x for x in r] for r in cr["G"]]
    i, j = rng.choice([(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)])
    d = rng.choice([-2, -1, 1, 2])
    G[i][j] += d
    if i != j:
        G[j][i] += d
    if max(G[k][k] for k in range(3)) * max(adj3(G)[k][k] for k in range(3)) > 2**30 or det3(G) > 2**29:
        return cr                                         # (too large for the specification's integers)
    return dict(cr, G=G)


def almost(rng, cr, p=0.15, top=6000):
    """Now and then a crystal that is almost, but clearly not, more symmetric."""
    r = rng.random()
    if r < p * 0.65:
        return displaced(rng, cr, top)
    if r < p and max(cr["G"][k][k] for k in range(3)) < 200:
        return strained(rng, cr)
    return cr


def skew(rng, cr, steps=2, far=2):
    """The same crystal in another, usually more skewed, basis of the same lattice."""
    G, sites = [list(r) for r in cr["G"]], [list(s) for s in cr["sites"]]
    for _ in range(steps):
        i, j = rng.sample(range(3), 2)
        k = rng.choice([-1, 1]) * rng.randint(1, far)
        U = [[int(a == b) for b in range(3)] for a in range(3)]
        U[i][j] = k                         # a_i' = a_i + k a_j
        V = [r[:] for r in U]
        V[i][j] = -k
        G = gram_of(U, G)
        sites = [rowmul(s, V) for s in sites]
    return dict(cr, G=G, sites=sites)


def vary(rng, cr, p=0.12):
    """Now and then: a kind of atom that is a vacancy, a skewed basis."""
    if rng.random() < p:
        z = rng.choice(cr["nums"])
        cr = dict(cr, nums=[0 if y == z else y for y in cr["nums"]])
    if rng.random() < p and max(cr["G"][k][k] for k in range(3)) < 100:
        sk = skew(rng, cr, rng.choice([1, 1, 2]), 1)
        cr = sk if tame(sk["G"]) else cr
    return cr


def just_above(k, edge=0, N=1):
    """A length whose square lies between k and k + 1, perhaps next to one of them (the length is divided by N later)."""
    return float([np.sqrt(k + 0.5), np.sqrt(k) + 1e-6 * N, np.sqrt(k + 1) - 1e-6 * N][edge if 1e-5 * N * (k + 1) ** 0.5 < 1 else 0])


def quad(G, u):
    return sum(u[i] * G[i][j] * u[j] for i in range(3) for j in range(3))


def image2s(G, N, u, zero=False):
    """N^2 times some short squared lengths of the images of u (only used to choose inputs)."""
    import itertools
    c = [((x + N // 2) % N) - N // 2 for x in u]
    out = [quad(G, [c[i] + N * t[i] for i in range(3)]) for t in itertools.product((-2, -1, 0, 1, 2), repeat=3)]
    return sorted(x for x in out if x or zero)


# --------------------------------------------------------------- running
@contextlib.contextmanager
def quiet():
    """The implementation draws progress bars and prints missions."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = o, e


def _alarm(signum, frame):
    raise CaseTimeout()


def take(gen, cap):
    """Consume a generator, but not for ever."""
    out = []
    for x in gen:
        out.append(x)
        if len(out) > cap:
            raise Malformed("more than %d results" % cap)
    return out


def execute(fam, inp, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with quiet():
            random.seed(12345)
            np.random.seed(12345)
            out = fam.run(inp)
    except CaseTimeout:
        out = {"exc": "Timeout"}
    except SystemExit as e:
        out = {"exc": "SystemExit %r" % (e.code,)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1][0]), tb[-1][1]) if tb else ""
        out = {"exc": ("%s: %s @%s" % (type(e).__name__, e, where))[:300]}
    finally:
        signal.alarm(0)
    return out


def main(fam):
    """driver protocol: fam.py --seed S --tier T --shard I/K --n COUNT --out FILE [--inputs FILE]"""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--n", type=int, default=10)
    ap.add_argument("--out", required=True)
    ap.add_argument("--inputs")
    ap.add_argument("--budget", type=float, default=600)
    ap.add_argument("--limit", type=int, default=120)
    ap.add_argument("--suite")
    a = ap.parse_args()
    import resource
    import time
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))      # runaway memory is a failure of the case, not of the machine
    t0 = time.time()
    shard, nsh = map(int, a.shard.split("/"))
    suite = None
    if a.suite:
        with open(a.suite) as f:
            suite = [json.loads(l) for l in f]
    with open(a.out, "w") as f:
        if a.inputs:
            todo = [(r["id"], r["in"]) for r in map(json.loads, open(a.inputs))]
        else:
            todo = ((i, None) for i in range(shard, a.n, nsh))
        for i, inp in todo:
            if inp is None:
                rng = random.Random("%s/%d/%s/%d" % (fam.__name__, a.seed, a.tier, i))
                choose_kinds(random.Random("kinds/%s/%d/%s/%d" % (fam.__name__, a.seed, a.tier, i)))
                inp = fam.gen(rng, i, a.tier) if suite is None else fam.gen(rng, i, a.tier, suite)
                if inp is None:
                    continue
            f.write(json.dumps({"id": i, "in": inp}) + "\t")      # complete before running
            f.flush()
            out = execute(fam, inp, a.limit)
            f.write(json.dumps({"out": out}) + "\n")
            f.flush()
            if time.time() - t0 > a.budget or out.get("exc") == "Timeout":
                break
        f.write("END\n")
