# C10: sphere queries and clarifiers
import numpy as np

from common import (KINDS, build_arrays, crystal, decoys, grid, image2s, just_above, intlist, listing, quietly, random_crystal, skew)


def gen(rng, i, tier):
    if rng.random() < 0.12:
        d = [rng.choice([2, 3, 4, 5]) for _ in range(3)]
        N = rng.choice([2, 4, 8])
        G = [[d[0]**2, 0, 0], [0, d[1]**2, 0], [0, 0, d[2]**2]]
        pts = set()
        for _ in range(rng.randint(1, 6)):
            p = [0, 0, 0]
            p[rng.randrange(3)] = rng.randrange(N)
            pts.add(tuple(p))
        zs = rng.sample(KINDS, 2)
        cr = {"N": N, "G": G, "sites": [list(p) for p in sorted(pts)], "nums": [rng.choice(zs) for _ in pts]}
        ax = rng.randrange(3)
        c = [0, 0, 0]
        c[ax] = rng.randrange(-N, 2 * N)
        k = (rng.randint(0, N // 2) * d[ax])**2
        exact, rot, left = 1, 0, 0
        centres = [c]
    else:
        cr = crystal(rng, maxsites=rng.choice([4, 8, 12, 16]))
        if cr["N"] > 24:
            cr = random_crystal(rng, 8)
        cr.pop("name", None)
        if rng.random() < 0.4:
            cr = dict(cr, nums=[0 if rng.random() < 0.25 else z for z in cr["nums"]])
        N = cr["N"]
        centres = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            c = list(rng.choice(cr["sites"])) if rng.random() < 0.6 else [rng.randrange(N) for _ in range(3)]
            centres.append(c)
        s = rng.choice(cr["sites"])
        im = image2s(cr["G"], N, [centres[0][j] - s[j] for j in range(3)], True)
        if rng.random() < 0.5:
            n = len(cr["sites"])
            c2 = skew(rng, dict(cr, sites=cr["sites"] + centres), rng.choice([1, 2]), rng.choice([2, 2, 6]))
            if max(c2["G"][k][k] for k in range(3)) < 700:
                centres = c2["sites"][n:]
                cr = dict(c2, sites=c2["sites"][:n])
        centres = [[x + N * rng.choice([-1, 0, 1, 2]) for x in c] if rng.random() < 0.4 else c for c in centres]
        cr = listing(rng, cr)
        k = rng.choice([im[0], im[0] - 1, im[0], im[0] - 1, im[0] + 1, 0, rng.randint(0, 9 * N * N)])
        exact, rot, left = 0, rng.choice([0, rng.randrange(1, 10**6)]), rng.choice([0, 0, 1])
        if rng.random() < 0.05:
            exact, k = 1, 0
    what = rng.choice(["query", "query", "remove", "verbose"])
    ele = rng.choice([-1, -1] + cr["nums"] + [KINDS[0]])
    return {"what": what, "cr": cr, "rot": rot, "left": left, "centres": centres, "k": max(0, k), "exact": exact, "edge": rng.choice([0, 0, 1, 2]),
            "ele": ele, "around": rng.choice(cr["nums"] + [KINDS[1]])}


def run(inp):
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
    from ababe.stru.element import Specie
    from ababe.stru.scaffold import ModifiedCell
    cr = inp["cr"]
    N = cr["N"]
    L, pos, nums = build_arrays(cr, {"rot": inp["rot"], "left": inp["left"]})
    mc = ModifiedCell(L.copy(), pos, nums)
    r = float((np.sqrt(inp["k"]) if inp["exact"] else just_above(inp["k"], inp.get("edge", 0), N)) / N)
    ele = None if inp["ele"] < 0 else Specie.from_num(inp["ele"])
    C = (np.array(inp["centres"], float) / N).tolist()
    if inp["what"] == "query":
        keys = []
        for c in C:
            d = mc.get_points_incell_insphere(c, r, ele) if ele is not None else mc.get_points_incell_insphere(c, r)
            ks = sorted(int(k) for k in d)
            for k in ks:
                s = d[k]
                keys_ok = s.element.Z == nums[k] and np.allclose(s.position, pos[k], atol=1e-9)
                if not keys_ok:
                    ks = [-1]
                    break
            keys.append([k + 1 for k in ks])
        res = mc
    else:
        keys = []
        if inp["what"] == "remove":
            cl = AtomRemoveClarifier(C, r, ele) if ele is not None else AtomRemoveClarifier(C, r)
        else:
            a = Specie.from_num(inp["around"])
            cl = VerboseAtomRemoveClarifier(a, r, ele) if ele is not None else VerboseAtomRemoveClarifier(a, r)
        if inp["rot"] % 2 == 0:      # the same clarifier has been used on other structures before
            for d in decoys(np.array(L, float), np.array(pos, float), np.array(nums)):
                quietly(cl.clarify, ModifiedCell(*d))
        res = cl.clarify(mc)
    n = len(res)
    return {"keys": keys, "sites": grid(res.positions, N) if n else [], "nums": intlist(res.numbers) if n else [],
            "latt": bool(np.allclose(res.lattice, L, atol=1e-9))}
