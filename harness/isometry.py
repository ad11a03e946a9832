# Certificates that two descriptions are the same infinite crystal up to a rigid motion.
# The search is here; the certificate is checked, exactly, by the specification (Isometry.tla).
import itertools
import math

import numpy as np

from common import adj3, det3


GTOL = 0.045         # on scalar products of lattice vectors (A^2); the specification allows 0.05


def translations(cr):
    N = cr["N"]
    sites = [tuple(c % N for c in s) for s in cr["sites"]]
    kind = dict(zip(sites, cr["nums"]))
    rare = min(set(cr["nums"]), key=cr["nums"].count)
    cand = [s for s in sites if kind[s] == rare]
    out = []
    for s in cand:
        t = tuple((s[i] - cand[0][i]) % N for i in range(3))
        if all(kind.get(tuple((x[i] + t[i]) % N for i in range(3))) == kind[x] for x in sites):
            out.append(t)
    return out


def find(cr, L2, pos2, nums2, tol=0.02, proper=True, sign=1):
    """cr: exact crystal (vacancies already left out or kept, as wanted); L2, pos2, nums2: floats.
    Returns {"T": rows in units 1/N of cr's basis, "y": sites in units 1/N, "gerr", "perr"} or None."""
    N = cr["N"]
    G = np.array(cr["G"], dtype=float)
    L2 = np.asarray(L2, float)
    pos2 = np.asarray(pos2, float)
    nums2 = [int(x) for x in np.asarray(nums2).tolist()]
    G2 = np.matmul(L2, L2.T)
    if len(nums2) == 0 or not np.all(np.isfinite(G2)) or not np.all(np.isfinite(pos2)):
        return None
    lens = np.sqrt(np.diag(G2))
    R = lens.max() + tol
    Gi = cr["G"]
    A, d = adj3(Gi), det3(Gi)
    B = [int(math.sqrt(R * R * A[i][i] / d)) + 1 for i in range(3)]
    if np.prod([2 * b + 1 for b in B]) > 200000:
        return None
    vec = []
    for t in translations(cr):
        for k in itertools.product(*[range(-b - 1, b + 1) for b in B]):
            vec.append([t[i] + N * k[i] for i in range(3)])
    vec = np.array(vec, dtype=float)
    l2 = np.einsum("ij,jk,ik->i", vec, G, vec) / N**2
    ln = np.sqrt(l2)
    cand = [vec[np.abs(l2 - lens[i]**2) < GTOL] for i in range(3)]
    kinds = {}
    for s, z in zip(cr["sites"], cr["nums"]):
        kinds[tuple(c % N for c in s)] = z
    if set(kinds.values()) != set(nums2):
        return None
    rare = min(set(nums2), key=nums2.count)
    a0 = nums2.index(rare)
    anchors = [s for s, z in kinds.items() if z == rare]
    Lc = np.linalg.cholesky(G)
    s2 = np.sign(np.linalg.det(L2))
    tried = 0
    for v1 in cand[0]:
        g1 = np.matmul(v1, G)
        c2 = [v for v in cand[1] if abs(np.dot(g1, v) / N**2 - G2[0, 1]) < GTOL]
        c3 = [v for v in cand[2] if abs(np.dot(g1, v) / N**2 - G2[0, 2]) < GTOL]
        for v2 in c2:
            g2 = np.matmul(v2, G)
            for v3 in c3:
                if abs(np.dot(g2, v3) / N**2 - G2[1, 2]) >= GTOL:
                    continue
                T = np.array([v1, v2, v3])
                dt = np.linalg.det(T)
                if abs(dt) < 1e-6 or (proper and np.sign(dt) * sign != s2):
                    continue
                tried += 1
                if tried > 3000:
                    return None
                q = np.matmul(pos2, T)
                for s in anchors:
                    y = q - q[a0] + np.array(s, float)
                    yi = np.rint(y)
                    e = np.matmul((y - yi) / N, Lc)
                    perr = np.sqrt((e**2).sum(axis=1)).max()
                    if perr > 2 * tol:
                        continue
                    ok = all(kinds.get(tuple(int(c) % N for c in row)) == z for row, z in zip(yi.tolist(), nums2))
                    if ok:
                        gerr = np.abs(np.matmul(np.matmul(T, G), T.T) / N**2 - G2).max()
                        return {"T": [[int(x) for x in r] for r in T.tolist()],
                                "y": [[int(x) for x in r] for r in yi.tolist()],
                                "gerr": int(round(gerr * 10**6)), "perr": int(round(perr * 10**6))}
    return None
