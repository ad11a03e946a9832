# C05: supercells
import numpy as np

from common import (big_hnf, build_cell, crystal, det3, gram_of, grid, hnf, intlist, listing, micro, precise_opt,
                    prototype, random_crystal, snapshot, vary)


def gen(rng, i, tier):
    cr = prototype(rng) if rng.random() < 0.5 else random_crystal(rng, 5)
    cr.pop("name", None)
    cr = listing(rng, vary(rng, cr))
    api = rng.choice(["hnf", "scale", "scale", "diag"])
    top = 8 if tier == "quick" else 16
    if api == "diag":
        while True:
            d = [rng.randint(1, 5) for _ in range(3)]
            if d[0] * d[1] * d[2] <= 3 * top:
                break
        H = [[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]
        api = "scale"
    elif rng.random() < 0.3:
        H = big_hnf(rng)
    else:
        H = hnf(rng, rng.randint(1, top))
    return {"cr": cr, "opt": precise_opt(rng, cr, rng.choice([0, 0, 0, 1])), "H": H, "api": api}


def run(inp):
    cr, H = inp["cr"], inp["H"]
    cell = build_cell(cr, inp["opt"])
    before = snapshot(cell)
    Hm = np.array(H)
    if len(H[0]) and sum(map(sum, H)) % 2:         # other supercells of the same cell, made before
        cell.supercell(np.diag([1, 2, 1]))
        cell.supercell(np.array([[1, 0, 0], [1, 3, 0], [0, 1, 2]]) if sum(H[2]) % 2 else np.diag(np.diag(Hm)))
    if inp["api"] == "hnf":
        from ababe.stru.grid import SuperLatticeCell
        sc = SuperLatticeCell(cell, Hm).to_general_cell()
    else:
        sc = cell.supercell(Hm)
    d = det3(H)
    lerr = np.abs(np.asarray(sc.lattice, float) - np.matmul(Hm, cell.lattice)).max()
    # the result must also be usable: report what its own accessors say
    return {"sites": grid(sc.positions, cr["N"] * d, tol=3e-3), "nums": intlist(sc.numbers), "lerr": micro(lerr),
            "count": int(sc.num_count), "intact": snapshot(cell) == before}
