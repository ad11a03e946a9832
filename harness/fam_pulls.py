# C02 / C19: lazily pulled generators, in any order, several at once, abandoned or drained
import numpy as np

from common import (KINDS, build_cell, crystal, intlist, listing, precise_opt, read_cell,
                    snapshot, vary)

CAP = 2500


def gen(rng, i, tier):
    return make(rng, i, tier, levels=True)


def make(rng, i, tier, levels):
    while True:
        large = rng.random() < 0.05
        cr = (crystal(rng, maxsites=24, minsites=13) if large else
              crystal(rng, maxsites=rng.choice([4, 6, 8] if tier == "quick" else [6, 8, 10])))
        cr = listing(rng, vary(rng, cr))
        if len(cr["sites"]) >= 2:
            break
    n = len(cr["sites"])
    kinds = sorted(set(cr["nums"]))
    # sometimes the mother already holds some of the speckle
    jobs = []
    njobs = 1 if levels else rng.randint(2, 4)
    for _ in range(njobs):
        ele = rng.choice(kinds)
        z = rng.choice([0, 0, rng.choice(kinds)] + KINDS)
        if levels or rng.random() < 0.35:
            mode = rng.choice(["lv_any", "lv_ele", "lv_ele", "lv_wy"])
            k = rng.randint(1, n + 1)
            if large:
                k = min(cr["nums"].count(z) + rng.randint(1, 2), n)
        else:
            mode = rng.choice(["any", "ele", "ele", "wy", "tri"])
            k = rng.randint(0, 2 if large else min(n, 5))
        jobs.append({"mode": mode, "z": z, "ele": ele, "w": rng.randrange(n), "n": k,
                     "z2": rng.choice([q for q in [0] + KINDS if q != z]), "n2": rng.randint(0, 1 if large else 2)})
    if not levels and rng.random() < 0.3:       # the same once more, or the same for another species
        jobs.append(dict(rng.choice(jobs)))
        if rng.random() < 0.3:
            jobs[-1]["n"] = max(1, jobs[-1]["n"] - 1)
    style = rng.choice(["random", "random", "deepfirst", "drain", "partial"])
    return {"cr": cr, "opt": precise_opt(rng, cr, rng.choice([0, 0, 0, 1])), "jobs": jobs, "style": style,
            "seed": rng.randrange(10**6)}


class Job(object):
    def __init__(self, ogg, op, wyck):
        from ababe.stru.element import Specie
        sp, sp2, ele = Specie.from_num(op["z"]), Specie.from_num(op["z2"]), Specie.from_num(op["ele"])
        wy = chr(wyck[op["w"]])
        m = op["mode"]
        self.outer = None
        self.levels = []
        if m == "lv_any":
            self.outer = ogg.all_speckle_gen_unitary(op["n"], sp)
        elif m == "lv_ele":
            self.outer = ogg.all_speckle_gen_of_ele(op["n"], ele, sp)
        elif m == "lv_wy":
            self.outer = ogg.all_speckle_gen(op["n"], wy, sp)
        elif m == "any":
            self.levels = [ogg.gen_nodup_unitary(op["n"], sp)]
        elif m == "ele":
            self.levels = [ogg.gen_nodup_of_ele(ele, op["n"], sp)]
        elif m == "wy":
            self.levels = [ogg.gen_nodup(wy, op["n"], sp)]
        else:
            self.levels = [ogg.gen_nodup_trinary_alloy(sp, op["n"], sp2, op["n2"])]
        self.levels = [iter(g) for g in self.levels]
        self.live = set(range(len(self.levels)))
        self.opening = self.outer is not None


def run(inp):
    import random
    from ababe.stru.sogen import OccupyGenerator
    rng = random.Random(inp["seed"])
    cr = inp["cr"]
    cell = build_cell(cr, inp["opt"])
    before = snapshot(cell)
    ogg = OccupyGenerator(cell)
    wyck = [ord(str(w)) for w in ogg.wyckoffs]
    jobs = [Job(ogg, op, wyck) for op in inp["jobs"]]
    steps, held = [], []
    style = inp["style"]
    # very long ones are abandoned; what was pulled until then is judged all the same (repetition shows)
    stop = rng.randint(3, 40) if style == "partial" else CAP
    while len(steps) < stop:
        moves = []
        for j, job in enumerate(jobs):
            if job.opening:
                moves.append((j, -1))
            moves += [(j, lv) for lv in sorted(job.live)]
        if not moves:
            break
        if style == "deepfirst":
            op = [m for m in moves if m[1] == -1]
            j, lv = op[0] if op else max(moves, key=lambda m: (m[1], rng.random()))
        elif style == "drain":
            pl = [m for m in moves if m[1] >= 0]
            j, lv = pl[0] if pl else moves[0]
        else:
            j, lv = rng.choice(moves)
        job = jobs[j]
        if lv == -1:
            try:
                g = next(job.outer)
                job.levels.append(iter(g))
                job.live.add(len(job.levels) - 1)
                steps.append({"ev": "open", "j": j + 1, "lv": len(job.levels), "r": []})
            except StopIteration:
                job.opening = False
                steps.append({"ev": "opened_all", "j": j + 1, "lv": len(job.levels), "r": []})
            continue
        try:
            c = next(job.levels[lv])
            r = intlist(c.numbers)
            held.append((c, r, np.array(c.lattice, float), np.array(c.positions, float)))
            steps.append({"ev": "pull", "j": j + 1, "lv": lv + 1, "r": r})
        except StopIteration:
            job.live.discard(lv)
            steps.append({"ev": "end", "j": j + 1, "lv": lv + 1, "r": []})
    stable = all(intlist(c.numbers) == r for c, r, _, _ in held)
    L, P = np.array(before[0]), np.array(before[1])
    geom = all(c.positions.shape == P.shape and np.allclose(c.lattice, L, atol=1e-9)
               and np.allclose(c.positions, P, atol=1e-9) for c, _, _, _ in held)
    return {"mother": read_cell(cell, cr["N"]), "wyck": wyck, "steps": steps, "stable": bool(stable),
            "geom": bool(geom), "intact": snapshot(cell) == before}
