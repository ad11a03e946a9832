# C15: random growth and grid neighbours
import random

import numpy as np

from common import GRAMS, lattice_from_gram, to_int

GRAMS2 = [[[1, 0], [0, 1]], [[4, 2], [2, 4]], [[4, 0], [0, 9]], [[9, 4], [4, 6]], [[2, -1], [-1, 2]], [[5, 4], [4, 5]],
          [[1, 0], [0, 25]]]


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.15:
        goal = rng.randint(1, 14) if rng.random() < 0.95 else rng.randint(15, 40)
        return {"what": "grid", "G": [[4, 2], [2, 4]], "k": 4, "shape": [goal, goal], "start": [goal // 2, goal // 2],
                "goal": goal, "cls": "Boron2dArrangeProblem", "seed": rng.randrange(10**6), "runs": 3}
    if r < 0.22:
        goal = rng.randint(1, 4 if rng.random() < 0.95 else 7)
        # lattice vectors (0, 1/2, 1/2) ...: Gram matrix times 4, threshold 2.1 -> 4 * 4.41 = 17.64
        return {"what": "grid", "G": [[2, 1, 1], [1, 2, 1], [1, 1, 2]], "k": 17, "shape": [goal] * 3,
                "start": [goal // 2] * 3, "goal": goal, "cls": "FCC3dArrangeProblem", "seed": rng.randrange(10**6), "runs": 2}
    if r < 0.5:
        n = rng.randint(1, 12) if rng.random() < 0.8 else rng.randint(13, 150)
        nb = {v: set() for v in range(1, n + 1)}
        for v in range(2, n + 1):
            w = rng.choice([v - 1, rng.randint(1, v - 1)])
            nb[v].add(w)
            nb[w].add(v)
        for _ in range(rng.choice([0, 0, n, 3 * n])):
            a, b = rng.randint(1, n), rng.randint(1, n)
            if a != b:
                nb[a].add(b)
                nb[b].add(a)
        lab = list(range(1, n + 1))
        rng.shuffle(lab)
        out = [None] * n
        for v in nb:
            out[lab[v - 1] - 1] = [lab[w - 1] for w in sorted(nb[v])]
        return {"what": "graph", "nb": out, "start": rng.randint(1, n), "goal": n if rng.random() < 0.5 else rng.randint(1, n),
                "seed": rng.randrange(10**6), "runs": 4}
    if rng.random() < 0.4:
        shape = [rng.randint(1, 6), rng.randint(1, 7)]
        G = rng.choice(GRAMS2)
    else:
        shape = [rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 5)]
        G = GRAMS[rng.choice(sorted(GRAMS))]
    top = max(G[j][j] for j in range(len(G)))
    return {"what": "near", "G": G, "shape": shape, "p": [rng.randrange(s) for s in shape],
            "k": rng.choice([0, min(G[j][j] for j in range(len(G))), top, 2 * top, rng.randint(0, 5 * top)]),
            "rot": rng.randrange(10**6), "edge": rng.choice([0, 0, 1, 2])}


def run(inp):
    from ababe.mlearn import arrange, arrangeAgent
    from ababe.stru.scaffold import CStru, SitesGrid
    from ababe.stru.scaffold2d import CStru2d, SitesGrid2d
    if inp["what"] == "near":
        if len(inp["shape"]) == 2:
            L = np.linalg.cholesky(np.array(inp["G"], float))
            c = CStru2d(L.tolist(), SitesGrid2d.sea(*inp["shape"]))
        else:
            L = lattice_from_gram(inp["G"], random.Random(inp["rot"]), True)
            c = CStru(L.tolist(), SitesGrid.sea(*inp["shape"]))
        r = c.get_neighbors(tuple(inp["p"]), [np.sqrt(inp["k"] + 0.5), np.sqrt(inp["k"]) + 1e-6, np.sqrt(inp["k"] + 1) - 1e-6][inp.get("edge", 0)])
        return {"near": [[to_int(x) for x in q] for q in r]}
    random.seed(inp["seed"])
    if inp["what"] == "grid":
        P = getattr(arrangeAgent, inp["cls"])(inp["goal"])
        paths = [arrange.random_walk_arrange(P) for _ in range(inp["runs"])]
        st = P.get_start_position()
        return {"start": [int(x) for x in st], "near": [[to_int(x) for x in q] for q in P.get_neighbors(st)],
                "paths": [[[to_int(x) for x in q] for q in p] for p in paths]}

    class Problem(arrange.ArrangeProblem):
        def get_start_position(self):
            return inp["start"]

        def is_goal(self, n):
            return n == inp["goal"]

        def get_neighbors(self, v):
            return set(inp["nb"][v - 1])
    return {"paths": [[to_int(v) for v in arrange.random_walk_arrange(Problem())] for _ in range(inp["runs"])]}
